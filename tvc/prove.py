"""Proving equality of canonical terms."""
import time
from .terms import *
from . import ctx as C

LIMIT = [40.0]


class Fail(Exception):
    def __init__(self, residual, facts):
        self.residual, self.facts = residual, facts


def prove_eq(p, q, trace=None, limit=None):
    """True iff p == q is proved under the current facts; otherwise a string with the residual"""
    t0 = time.time() - (LIMIT[0] - limit if limit else 0)
    try:
        _zero(P(p) - P(q), 0, t0)
        return True
    except Fail as f:
        return "residual %s under facts %s" % (str(f.residual)[:1500], [str(x) for x in f.facts][:40])


def _zero(d, depth, t0):
    if not d.d:
        return
    d = subst_facts(d)
    d = resimplify(d)
    if not d.d:
        return
    if depth > 60 or time.time() - t0 > LIMIT[0]:
        raise Fail(d, list(C.FACTS))
    # case split on indicators with free variables only
    a = _pick_ind(d)
    if a is not None:
        c = a.args[0]
        for cc, val in ((c, ONE), (bnot(c), ZERO)):
            if cc.kind in ("le", "eq", "not", "and", "or") and not C.feasible(cc):
                continue
            with C.assume(cc):
                d2 = rewrite(d, lambda x: val if x is a else None)
                if val is ONE and c.kind == "req":
                    d2 = _apply_req(d2, c.args[0])
                _zero(d2, depth + 1, t0)
        return
    c = _pick_ite(d)
    if c is not None:
        for cc, val in ((c, True), (bnot(c), False)):
            if C.feasible(cc):
                with C.assume(cc):
                    _zero(_resolve_ite(d, c, val), depth + 1, t0)
        return
    d2 = _seg_unify(d)
    if isinstance(d2, tuple):
        for cc in (d2[1], bnot(d2[1])):
            if C.feasible(cc):
                with C.assume(cc):
                    _zero(d, depth + 1, t0)
        return
    if d2 is not None:
        return _zero(d2, depth + 1, t0)
    if _forall_span(d):
        return
    d2 = _clear_val(d)
    if d2 is not None:
        return _zero(d2, depth + 1, t0)
    d2 = _sum_unify(d)
    if d2 is not None:
        return _zero(d2, depth + 1, t0)
    d2 = _congruence(d)
    if d2 is not None:
        return _zero(d2, depth + 1, t0)
    d2 = _abs_even(d)
    if d2 is not None:
        return _zero(d2, depth + 1, t0)
    d2 = _powi(d)
    if d2 is not None:
        return _zero(d2, depth + 1, t0)
    # a factor common to all terms may be known to vanish under a real equation
    for c in C.FACTS:
        if c.kind == "req":
            d2 = _apply_req(d, c.args[0])
            if d2.d != d.d:
                return _zero(d2, depth + 1, t0)
    d2 = _req_match(d, depth, t0)
    if d2 is not None:
        return _zero(d2, depth + 1, t0)
    if _req_square(d, depth, t0):
        return
    raise Fail(d, list(C.FACTS))


def _abs_even(d):
    """|x|^2k = (x conj x)^k for single atoms"""
    out, hit = ZERO, False
    for m, co in d.d.items():
        r = []
        for a, k in m:
            if a.kind == "abs" and k == int(k) and int(k) % 2 == 0 and len(a.args[0].d) == 1:
                q = a.args[0]
                r.append(ppow(q * pconj(q), int(k) // 2))
                hit = True
            else:
                r.append(mono_poly(((a, k),), 1))
        x = P(co)
        for y in r:
            x = x * y
        out = out + x
    return out if hit else None


def _req_square(d, depth, t0):
    """is d a multiple of the squared modulus of a term that is known to vanish?"""
    if _MATCHING[0] or not d.d:
        return False
    _MATCHING[0] = 1
    try:
        for c in C.FACTS:
            if c.kind != "req":
                continue
            q = c.args[0]
            if len(q.d) == 1:
                (mq, _), = q.d.items()
                if len(mq) == 1 and mq[0][0].kind == "abs":
                    q = mq[0][0].args[0]
            sq = q * pconj(q)
            for k in (1, -1):
                try:
                    _zero(d - sq * k, max(depth, 30), max(t0, time.time() - LIMIT[0] + 5))
                    return True
                except Fail:
                    pass
    finally:
        _MATCHING[0] = 0
    return False


_MATCHING = [0]


def _req_match(d, depth, t0):
    """drop the terms with a factor that provably equals (up to conjugation) the
    single factor of a real equation among the facts"""
    if _MATCHING[0] or not d.d:
        return None
    zs = []
    for c in C.FACTS:
        if c.kind == "req" and len(c.args[0].d) == 1:
            (mq, _), = c.args[0].d.items()
            base = _factors(mq)
            if base and len(base) == 1:
                zs.append(base[0])
    if not zs:
        return None
    r, hit, known = {}, False, {}
    _MATCHING[0] = 1
    try:
        for m, co in d.d.items():
            drop = False
            for a, k in m:
                if k <= 0 or a.kind in ("exp", "ind"):
                    continue
                for b in zs:
                    if (a.key, b.key) not in known:
                        known[a.key, b.key] = _same_up_to_conj(a, b, depth, t0)
                    if known[a.key, b.key]:
                        drop = True
                        break
                if drop:
                    break
            if drop:
                hit = True
            else:
                r[m] = co
    finally:
        _MATCHING[0] = 0
    return Poly(r) if hit else None


def _same_up_to_conj(a, b, depth, t0):
    p, q = mono_poly(((a, 1),), 1), mono_poly(((b, 1),), 1)
    for x in (q, pconj(q)):
        try:
            _zero(p - x, max(depth, 30), max(t0, time.time() - LIMIT[0] + 5))
            return True
        except Fail:
            pass
    return False


def _forall_span(d):
    """is d a combination of instances (at index variables of d) of the
    universally quantified and ground real equations among the facts?"""
    fs = [c for c in C.FACTS if c.kind in ("forall", "req")]
    if not fs or not any(c.kind == "forall" for c in fs):
        return False
    vs = [v for v in sorted(d.fv) if v in C.RNG]
    eqs, seen = [], set()

    def inst(c, sub):
        if len(eqs) > 40:
            return
        if c.kind == "forall":
            f, n, b = c.args
            n = n.subst(sub)
            if len(vs) > 6:
                return
            for v in vs:
                if C.entails(band(le(0, ivar(v)), lt(ivar(v), n))):
                    inst(BC_LAM(b, f, v), sub)
        elif c.kind == "and":
            for x in c.args:
                inst(x, sub)
        elif c.kind == "req":
            q = resimplify(subst_facts(c.args[0]))
            for e in (q, resimplify(pconj(q))):
                if e.d and e.key not in seen:
                    seen.add(e.key)
                    eqs.append(e)
    for c in fs:
        inst(c, {})
    rows = []
    for e in eqs:
        ms = set()
        for m in e.d:
            dm = dict(m)
            for md in d.d:
                q = dict(md)
                for a, k in dm.items():
                    x = q.get(a, 0)
                    if x < k if k > 0 else x > k:
                        break
                    q[a] = x - k
                else:
                    ms.add(tuple(sorted(((a, k) for a, k in q.items() if k), key=lambda t: t[0].key)))
        ms.add(())
        for m in list(ms)[:12]:
            f = ONE
            for a, k in m:
                f = f * mono_poly(((a, k),), 1)
            rows.append((e * f).d)
    # Gaussian elimination over the monomials
    basis = {}
    for r in rows:
        r = _reduce(dict(r), basis)
        if r:
            p = next(iter(r))
            basis[p] = {k: v / r[p] for k, v in r.items()}
    return not _reduce(dict(d.d), basis)


def _reduce(r, basis):
    ch = True
    while ch and r:
        ch = False
        for p in list(r):
            if p in basis:
                c = r[p]
                for k, v in basis[p].items():
                    w = r.get(k, 0) - c * v
                    if w:
                        r[k] = w
                    else:
                        r.pop(k, None)
                ch = True
                break
    return r


def BC_LAM(b, f, v):
    return b.subst({f: ivar(v)})


def _apply_req(d, q):
    """simplify d using q == 0 (q with one term: some factor of it vanishes, so the
    multiples of all its factors do)"""
    if len(q.d) != 1:
        return d
    (mq, _), = q.d.items()
    base = _factors(mq)
    if base is None or not base:
        return _drop(d, mq)
    if len(base) == 1 and base[0].kind == "abs" and len(base[0].args[0].d) == 1:
        return _apply_req(d, base[0].args[0])
    r = {}
    for m, co in d.d.items():
        pos = set()
        for a, k in m:
            if k > 0:
                pos |= set(_factors(((a, k),)) or [a])
                pos.add(a)
        if not all(any(b is p or p.key == b.key for p in pos) for b in base):
            r[m] = co
    return Poly(r)


def _factors(m):
    """atoms (up to absolute value and conjugation) whose product vanishes iff the monomial does"""
    out = []
    for a, k in m:
        if k < 0:
            continue            # an inverse is not zero (divisors are obliged nonzero)
        if a.kind == "exp":
            continue
        if a.kind == "abs" and len(a.args[0].d) == 1:
            (m2, _), = a.args[0].d.items()
            f = _factors(m2)
            if f is None:
                return None
            out += f
        else:
            out.append(_unconj(a))
    return out


def _unconj(a):
    p = pconj(mono_poly(((a, 1),), 1))
    if len(p.d) == 1:
        (m, _), = p.d.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].key < a.key:
            return m[0][0]
    return a


def _drop(d, mq):
    r = {}
    for m, co in d.d.items():
        dd = dict(m)
        if not all(x in dd and (dd[x] >= ex > 0) for x, ex in mq):
            r[m] = co
    return Poly(r)


def _pick_ind(d):
    cands = []
    for k, a in walk_atoms(d).items():
        if a.kind == "ind" and not any(v.startswith("$") for v in a.fv):
            c = a.args[0]
            cands.append((c.kind not in ("le", "eq"), len(k), k, a))
        elif a.kind == "iv" and a.args[0].kind in ("ite",):
            pass
    # indicators inside seg kernels that do not depend on the kernel variables also qualify
    if not cands:
        return None
    return min(cands)[3]


def _pick_ite(d):
    """condition of a conditional bound or index that speaks about free variables only"""
    if not any("ite(" in str(m) for m in d.d):
        return None
    out = {}

    def walk(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, IP):
            if "ite(" in x.key:
                for m, _ in x.t:
                    for a in m:
                        walk(a)
        elif isinstance(x, Poly):
            for m in x.d:
                for a, _ in m:
                    walk(a)
        elif hasattr(x, "args") and hasattr(x, "kind"):
            if x.kind == "ite" and not any(v.startswith("$") for v in x.args[0].fv):
                inner = len(out)
                walk(list(x.args))
                if len(out) == inner:
                    out[x.args[0].key] = x.args[0]
            else:
                walk(list(x.args))
    walk(d)
    if not out:
        return None
    return min(out.items(), key=lambda kv: (len(kv[0]), kv[0]))[1]


def _resolve_ite(d, c, val):
    """d with the conditionals on c resolved"""
    v = sorted(c.fv)[0]
    w = C.fresh(*C.RNG.get(v, (0, None)))
    ITE_RES[c.subst({v: ivar(w)}).key] = val
    try:
        d = psubst(d, {v: ivar(w)})
    finally:
        ITE_RES.clear()
    return psubst(d, {w: ivar(v)})


def _seg_unify(d):
    segs = [a for a in walk_atoms(d).values() if a.kind == "seg"]
    # (A) split piecewise kernels at thresholds
    for a in segs:
        t = a.args[0]
        body = a.args[4]
        for b in walk_atoms(body).values():
            if b.kind == "ind" and t in b.fv:
                c = b.args[0]
                if c.kind in ("le", "eq") and not any(v.startswith("$") and v != t for v in c.fv):
                    co = c.args[0].lincoeff(t)
                    if co not in (1, -1):
                        continue
                    lo, hi = a.args[5], a.args[6]
                    if any(v.startswith("$") for v in (lo.fv | hi.fv | c.fv) - {t}):
                        continue
                    r = c.args[0] - ivar(t) * co
                    if c.kind == "le":
                        m = I(1) - r if co == 1 else r
                        pts = [m]
                    else:
                        m = -r if co == 1 else r
                        pts = [m, m + 1]
                    for m in pts:
                        if C.entails(le(lo, m)) and C.entails(le(m, hi)):
                            if C.entails(eq(m, lo)) or C.entails(eq(m, hi)):
                                continue
                            return rewrite(d, lambda x: seg_split(x, m) if (x.kind == "seg" and x.args[:7] == a.args[:7]) else None)
                        if not (C.entails(le(m, lo)) or C.entails(le(hi, m))):
                            c1 = le(lo, m)
                            if not C.entails(c1) and not C.entails(bnot(c1)):
                                return ("split", c1)
                            c2 = le(m, hi)
                            if not C.entails(c2) and not C.entails(bnot(c2)):
                                return ("split", c2)
    # (B) align intervals of one family
    fam = {}
    for a in segs:
        if any(v.startswith("$") for v in a.args[5].fv | a.args[6].fv):
            continue
        fam.setdefault(seg_family(a), {}).setdefault((a.args[5].key, a.args[6].key), []).append(a)
    for f, iv in fam.items():
        if len(iv) < 2:
            continue
        atoms = [l[0] for l in iv.values()]
        pts = {}
        for a in atoms:
            pts[a.args[5].key] = a.args[5]
            pts[a.args[6].key] = a.args[6]
        for a in sorted(atoms, key=lambda x: x.key):
            lo, hi = a.args[5], a.args[6]
            for m in pts.values():
                if m == lo or m == hi:
                    continue
                if C.entails(le(lo, m)) and C.entails(le(m, hi)):
                    if C.entails(eq(lo, m)) or C.entails(eq(m, hi)):
                        continue
                    key = (lo.key, hi.key)
                    ff = f
                    return rewrite(d, lambda x: seg_split(x, m) if (x.kind == "seg" and (x.args[5].key, x.args[6].key) == key and seg_family(x) == ff) else None)
    # (C) kernels that occur in product with an explicit matrix: unfold constants is done by mkseg
    return None


def _clear_val(d):
    vals = {}
    for m in d.d:
        for a, e in m:
            if a.kind == "val":
                vals.setdefault(a, []).append(e)
    if not vals:
        return None
    for a, es in vals.items():
        present = [dict(m).get(a, 0) for m in d.d]
        lo = min(present)
        if lo == int(lo) and all(x == int(x) for x in present) or len(set(x - int(x) if x >= 0 else x - int(x) for x in present)) == 1:
            sh = -lo
            tot = ZERO
            q = a.args[0]
            ok = True
            for m, c in d.d.items():
                dm = dict(m)
                e = dm.pop(a, 0) + sh
                if e != int(e) or e < 0:
                    ok = False
                    break
                tot = tot + mono_poly(tuple(sorted(dm.items(), key=lambda x: x[0].key)), c) * (q ** int(e))
            if ok and tot.d != d.d:
                return tot
    return None


def _sum_unify(d):
    sums = [a for a in walk_atoms(d).values() if a.kind == "S" and not any(v.startswith("$") for v in a.fv)]
    fam = {}
    for a in sums:
        bs, mono = a.args
        fam.setdefault((tuple(n for n, _, _ in bs), tuple((x.key, e) for x, e in mono)), []).append(a)
    for f, l in fam.items():
        if len(l) < 2:
            continue
        for a, b in itertools.permutations(l, 2):
            for k, ((n, lo, hi), (_, lo2, hi2)) in enumerate(zip(a.args[0], b.args[0])):
                if (lo.key, hi.key) == (lo2.key, hi2.key):
                    continue
                for m in (lo2, hi2):
                    if m == lo or m == hi:
                        continue
                    if C.entails(le(lo, m)) and C.entails(le(m, hi)) and not C.entails(eq(lo, m)) and not C.entails(eq(m, hi)):
                        def f2(x):
                            if x is not a:
                                return None
                            nb, body = open_S(x)
                            n0, l0, h0 = nb[k]
                            r1 = [z if q != k else (n0, l0, m) for q, z in enumerate(nb)]
                            nb2, body2 = open_S(x)
                            n2, l2, h2 = nb2[k]
                            r2 = [z if q != k else (n2, m, h2) for q, z in enumerate(nb2)]
                            C.RNG[n0] = (l0, I(m))
                            C.RNG[n2] = (I(m), h2)
                            return msum(r1, body) + msum(r2, body2)
                        return rewrite(d, f2)
                if (hi.key == hi2.key and C.entails(eq(lo, lo2))) or (lo.key == lo2.key and C.entails(eq(hi, hi2))) or (C.entails(eq(lo, lo2)) and C.entails(eq(hi, hi2))):
                    def f3(x):
                        if x is not a:
                            return None
                        nb, body = open_S(x)
                        n0, l0, h0 = nb[k]
                        C.RNG[n0] = (lo2, hi2)
                        return msum([z if q != k else (n0, lo2, hi2) for q, z in enumerate(nb)], body)
                    return rewrite(d, f3)
    # binder ranges 0..1 hidden behind facts (dimension known to be 1)
    for a in sums:
        for k, (n, lo, hi) in enumerate(a.args[0]):
            if any(v.startswith("$") for v in lo.fv | hi.fv):
                continue
            if (hi - lo).const() is None:
                for c in range(0, 3):
                    if C.entails(eq(hi - lo, c)):
                        def f4(x):
                            if x is not a:
                                return None
                            nb, body = open_S(x)
                            n0, l0, h0 = nb[k]
                            return msum([z if q != k else (n0, l0, l0 + c) for q, z in enumerate(nb)], body)
                        return rewrite(d, f4)
    return None


def _ips_of(a):
    if a.kind == "A":
        return [("A" + a.args[0].name, k, x) for k, x in enumerate(a.args[1])]
    if a.kind == "seg":
        return [("seg" + str(hash(seg_family(a))), k, x) for k, x in enumerate((a.args[5], a.args[6]) + a.args[7] + a.args[8])]
    if a.kind == "fn":
        return [("fn" + a.args[0], k, x) for k, x in enumerate(a.args[1]) if isinstance(x, IP)]
    return []


def _congruence(d):
    """identify index expressions that are equal under the facts"""
    occ = {}
    for a in walk_atoms(d).values():
        for lab, k, x in _ips_of(a):
            if not any(v.startswith("$") for v in x.fv):
                occ.setdefault((lab, k), {})[x.key] = x
    for xs in occ.values():
        l = sorted(xs.values(), key=lambda x: (len(x.key), x.key))
        for x, y in itertools.combinations(l, 2):
            if C.entails(eq(x, y)):
                yk = y.key

                def f(a):
                    if a.kind == "A" and any(z.key == yk for z in a.args[1]):
                        return entry(a.args[0], [x if z.key == yk else z for z in a.args[1]], a.args[2])
                    if a.kind == "seg" and any(z.key == yk for z in (a.args[5], a.args[6]) + a.args[7] + a.args[8]):
                        t, us, vs, dims, body, lo, hi, i, j = open_seg(a)
                        r = lambda z: x if z.key == yk else z
                        return mkseg(t, us, vs, dims, body, r(lo), r(hi), tuple(map(r, i)), tuple(map(r, j)))
                    if a.kind == "fn" and any(isinstance(z, IP) and z.key == yk for z in a.args[1]):
                        return fn(a.args[0], tuple(x if (isinstance(z, IP) and z.key == yk) else z for z in a.args[1]), a.args[2], a.args[3])
                    return None
                r = rewrite(d, f)
                if r.d != d.d:
                    return r
    return None


def _powi(d):
    """merge b^e1*b^e2 and unfold constant differences"""
    ats = [a for a in walk_atoms(d).values() if a.kind == "powi"]
    fam = {}
    for a in ats:
        if any(v.startswith("$") for v in a.args[1].fv):
            continue
        fam.setdefault(a.args[0].key, []).append(a)
    for l in fam.values():
        for a, b in itertools.permutations(l, 2):
            df = (a.args[1] - b.args[1]).const()
            if df is not None and df > 0:
                return rewrite(d, lambda x: P(b) * (a.args[0] ** df) if x is a else None)
    return None


# ------------------------------------------------------------------ numeric evaluation
class NumEnv:
    """random finite interpretation used as a sanity guard of the normaliser"""

    def __init__(self, ints, seed=0, apps=None, reals=None):
        import random
        self.ints = dict(ints)
        self.rnd = random.Random(seed)
        self.tab = {}
        self.seed = seed
        self.appf = apps or {}
        self.memo = {}

    def sym(self, sym, idx):
        k = (sym.name, idx)
        if sym.psd:
            w = Sym(sym.name + "!v", sym.cplx)
            x = self.sym(w, idx[:-2] + (idx[-2],)) * (self.sym(w, idx[:-2] + (idx[-1],)) if not sym.cplx else self.sym(w, idx[:-2] + (idx[-1],)).conjugate())
            return x + (2 if idx[-1] == idx[-2] else 0)
        if k not in self.tab:
            import random
            r = random.Random(repr((self.seed, k)))
            v = r.uniform(0.2, 1.0) if sym.nonneg else r.uniform(-1, 1)
            self.tab[k] = complex(v, r.uniform(-1, 1)) if sym.cplx else v
        return self.tab[k]


def eval_ip(p, env):
    tot = 0
    for m, c in p.t:
        v = c
        for a in m:
            v = v * eval_iatom(a, env)
        tot += v
    return tot


def eval_iatom(a, env):
    if a.kind == "var":
        return env.ints[a.args[0]]
    if a.kind == "fd":
        return eval_ip(a.args[0], env) // eval_ip(a.args[1], env)
    if a.kind == "ite":
        return eval_ip(a.args[1] if eval_bc(a.args[0], env) else a.args[2], env)
    if a.kind == "app":
        args = tuple(eval_ip(x, env) for x in a.args[1:])
        f = env.appf.get(a.args[0])
        if f is None:
            raise KeyError("app " + str(a.args[0]))
        return f(*args)
    raise KeyError(a.kind)


def eval_bc(c, env):
    k = c.kind
    if k == "true":
        return True
    if k == "false":
        return False
    if k == "le":
        return eval_ip(c.args[0], env) <= 0
    if k == "eq":
        return eval_ip(c.args[0], env) == 0
    if k == "not":
        return not eval_bc(c.args[0], env)
    if k == "and":
        return all(eval_bc(x, env) for x in c.args)
    if k == "or":
        return any(eval_bc(x, env) for x in c.args)
    if k == "req":
        return abs(eval_poly(c.args[0], env)) < 1e-14
    if k == "rlt":
        return eval_poly(c.args[0], env).real < 0
    if k == "forall":
        v, n, b = c.args
        sv = env.ints.get(v)
        r = True
        for x in range(eval_ip(n, env)):
            env.ints[v] = x
            r = r and eval_bc(b, env)
        if sv is not None:
            env.ints[v] = sv
        return r
    raise KeyError(k)


def eval_poly(p, env):
    tot = 0
    for m, c in p.d.items():
        v = complex(float(c))
        zero = False
        for a, e in m:
            if a.kind == "ind":
                if not eval_bc(a.args[0], env):
                    zero = True
                    break
        if zero:
            continue
        for a, e in m:
            x = eval_atom(a, env)
            v = v * (x ** (int(e) if e == int(e) else float(e)))
        tot = tot + v
    return complex(tot)


def eval_atom(a, env):
    """value of an atom (sums, chains and opaque functions are tabulated)"""
    if a.kind not in ("S", "seg", "E", "powi", "val", "abs", "log", "fn"):
        return _eval_atom(a, env)
    o = _ORDER.get(a)
    if o is None:
        o = _ORDER[a] = tuple(sorted(a.fv))
    g = env.ints.get
    k = (a,) + tuple([g(v) for v in o])
    if k in env.memo:
        return env.memo[k]
    r = _eval_atom(a, env)
    env.memo[k] = r
    return r


_ORDER = {}


def _eval_atom(a, env):
    import cmath
    import math
    k = a.kind
    if k == "A":
        v = env.sym(a.args[0], tuple(eval_ip(x, env) for x in a.args[1]))
        return v.conjugate() if a.args[2] else v
    if k == "iv":
        return eval_iatom(a.args[0], env)
    if k == "j":
        return 1j
    if k == "pi":
        return math.pi
    if k == "ind":
        return 1.0 if eval_bc(a.args[0], env) else 0.0
    if k == "abs":
        return abs(eval_poly(a.args[0], env))
    if k == "log":
        v = eval_poly(a.args[0], env)
        return cmath.log(v)
    if k == "val":
        return eval_poly(a.args[0], env)
    if k == "E":
        return cmath.exp(eval_poly(mono_poly(a.args[0]), env))
    if k == "powi":
        return eval_poly(a.args[0], env) ** eval_ip(a.args[1], env)
    if k == "S":
        bs, mono = a.args
        try:
            return _vsum(bs, mono, env)
        except (ZeroDivisionError, OverflowError, ValueError):
            pass
        return _esum(list(bs), mono_poly(mono), env)
    if k == "seg":
        t, us, vs, dims, body, lo, hi, i, j = a.args
        lo, hi = eval_ip(lo, env), eval_ip(hi, env)
        i = tuple(eval_ip(x, env) for x in i)
        jj = tuple(eval_ip(x, env) for x in j)
        o = _ORDER.get(("seg", a))
        if o is None:
            fb = set(body.fv) - set((t, "$t") + us + vs)
            for d in dims:
                fb |= d.fv
            o = _ORDER[("seg", a)] = tuple(sorted(fb - {"$t", t}))
        mk = ("seg", body.key, tuple(d.key for d in dims), t, us, vs, lo, hi, i) + tuple([env.ints.get(v) for v in o])
        if mk in env.memo:
            return env.memo[mk].get(jj, 0.0)
        cur = {i: 1.0}
        save = {v: env.ints.get(v) for v in (t, "$t") + us + vs}
        for pos in range(lo, hi):
            env.ints["$t"] = pos + 1
            rs = [range(eval_ip(d, env)) for d in dims]
            nxt = {}
            for w in itertools.product(*rs):
                s = 0
                for u, val in cur.items():
                    env.ints[t] = pos
                    for n, x in zip(us, u):
                        env.ints[n] = x
                    for n, x in zip(vs, w):
                        env.ints[n] = x
                    s += val * eval_poly(body, env)
                nxt[w] = s
            cur = nxt
        for v, x in save.items():
            if x is None:
                env.ints.pop(v, None)
            else:
                env.ints[v] = x
        env.memo[mk] = cur
        return cur.get(jj, 0.0)
    if k == "fn":
        key = (a.args[0], tuple(complex(round(eval_poly(x, env).real, 9), round(eval_poly(x, env).imag, 9)) if isinstance(x, Poly) else eval_ip(x, env) for x in a.args[1]))
        f = env.appf.get("fn:" + a.args[0])
        if f:
            return f(*key[1])
        return env.sym(Sym("fn!" + a.args[0], not a.args[2], bool(a.args[3])), key)
    raise KeyError(k)


def _vsum(bs, mono, env):
    """the sum of a product, one bound variable at a time: the factors that
    mention the variable are summed into a table over their other variables"""
    rng = {n: (lo, hi) for n, lo, hi in bs}
    fs = []
    for at, e in mono:
        fs.append((frozenset(at.fv & rng.keys()), _afac(at, e)))
    left = list(rng)
    while left:
        best = None
        for n in left:
            if any(n in rng[m][0].fv or n in rng[m][1].fv for m in left if m != n):
                continue
            sc = frozenset().union(*[q for q, _ in fs if n in q], (rng[n][0].fv | rng[n][1].fv) & rng.keys()) - {n}
            if best is None or len(sc) < len(best[1]):
                best = (n, sc)
        n, sc = best
        mine = [f for q, f in fs if n in q]
        fs = [(q, f) for q, f in fs if n not in q]
        fs.append((sc, _vfac(n, rng[n], mine, tuple(sorted(sc)))))
        left.remove(n)
    fs.sort(key=lambda x: not getattr(x[1], "ind", False))
    tot = 1.0
    for _, f in fs:
        tot = tot * f(env)
        if tot == 0:
            break
    return tot


def _afac(at, e):
    if at.kind == "ind":
        def f(env):
            return 1.0 if eval_bc(at.args[0], env) else 0.0
        f.ind = True
        return f
    e = int(e) if e == int(e) else float(e)

    def f(env):
        return eval_atom(at, env) ** e
    return f


def _vfac(n, r, fs, sc):
    fs = sorted(fs, key=lambda f: not getattr(f, "ind", False))
    tab = {}

    def f(env):
        ints = env.ints
        k = tuple([ints.get(v) for v in sc])
        if k in tab:
            return tab[k]
        save = ints.get(n)
        tot = 0.0
        for x in range(eval_ip(r[0], env), eval_ip(r[1], env)):
            ints[n] = x
            v = 1.0
            for g in fs:
                v = v * g(env)
                if v == 0:
                    break
            tot = tot + v
        if save is None:
            ints.pop(n, None)
        else:
            ints[n] = save
        tab[k] = tot
        return tot
    return f


def _esum(bs, p, env):
    if not bs:
        return eval_poly(p, env)
    n, lo, hi = bs[0]
    tot = 0
    save = env.ints.get(n)
    for x in range(eval_ip(lo, env), eval_ip(hi, env)):
        env.ints[n] = x
        tot += _esum(bs[1:], p, env)
    if save is None:
        env.ints.pop(n, None)
    else:
        env.ints[n] = save
    return tot
