"""Canonical terms for tensor entries.

Poly  = finite sum of rational coefficient * monomial
Mono  = tuple of (Atom, exponent), sorted by atom key
Atoms: tensor entries, integers as reals, j, pi, multi-sums, ordered products of transfer
matrices (seg), abs, log, exp of a monomial, opaque named values, indicators, functions.
"""
import re
import itertools
from fractions import Fraction
from .ints import *
from . import ctx as C
from .ctx import Unsupported

_HT = re.compile(r"\$(\d+)_")
_FRE = re.compile(r"[?]\d+")


class Sym:
    _tab = {}
    __slots__ = ("name", "cplx", "nonneg", "psd", "key")

    def __new__(cls, name, cplx=False, nonneg=False, psd=False):
        o = cls._tab.get((name, cplx, nonneg, psd))
        if o is None:
            o = object.__new__(cls)
            o.name = name
            o.key = name + ("~" if cplx else "") + ("+" if nonneg else "") + ("^" if psd else "")
            o.cplx, o.nonneg, o.psd = cplx, nonneg, psd
            cls._tab[(name, cplx, nonneg, psd)] = o
        return o

    def __repr__(self):
        return self.name

    def __deepcopy__(self, memo):
        return self


_AT = {}


class Atom:
    __slots__ = ("kind", "args", "key", "fv", "ht", "apps", "_c")

    def __new__(cls, kind, args, key, fv, apps=frozenset()):
        o = _AT.get(key)
        if o is None:
            o = object.__new__(cls)
            o.kind, o.args, o.key, o.fv, o.apps = kind, args, key, fv, apps
            o.ht = max([int(x) for x in _HT.findall(key)], default=0)
            o._c = None
            _AT[key] = o
        return o

    def __repr__(self):
        return self.key

    def __deepcopy__(self, memo):
        return self


def _mk(mono):
    return "*".join(a.key if e == 1 else "%s^%s" % (a.key, e) for a, e in mono) or "1"


class Poly:
    __slots__ = ("d", "_key", "_fv", "_apps")

    def __init__(self, d):
        self.d = d
        self._key = None
        self._fv = None
        self._apps = None

    @property
    def key(self):
        if self._key is None:
            self._key = "{" + " + ".join(sorted(("%s:" % c if c != 1 else "") + _mk(m) for m, c in self.d.items())) + "}"
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            s = frozenset()
            for m in self.d:
                for a, _ in m:
                    s |= a.fv
            self._fv = s
        return self._fv

    @property
    def apps(self):
        if self._apps is None:
            s = frozenset()
            for m in self.d:
                for a, _ in m:
                    s |= a.apps
            self._apps = s
        return self._apps

    def __eq__(self, o):
        if not isinstance(o, Poly):
            o = P(o)
        return self.d == o.d

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key

    def const(self):
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def iszero(self):
        return not self.d

    def __add__(self, o):
        o = P(o)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        return pmul(self, P(o))

    __rmul__ = __mul__

    def __pow__(self, k):
        if isinstance(k, int) and k >= 0:
            r = ONE
            for _ in range(k):
                r = r * self
            return r
        return ppow(self, k)

    def __truediv__(self, o):
        return self * pinv(P(o))

    def subst(self, mp):
        return psubst(self, mp)

    def __deepcopy__(self, memo):
        return self


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, IP):
        return ipoly(x)
    if isinstance(x, Atom):
        return Poly({((x, 1),): Fraction(1)})
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return Poly({(): Fraction(x)}) if x != 0 else ZERO
    if isinstance(x, float):
        return pfloat(x)
    if isinstance(x, complex):
        return pfloat(x.real) + pfloat(x.imag) * J
    raise TypeError("cannot convert to Poly: %r" % (x,))


def pfloat(x):
    import math
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float constant")
    for k in range(1, 9):
        for dn in (1, 2, 4, 8):
            if x == math.pi * k / dn:
                return PI * Fraction(k, dn)
            if x == -math.pi * k / dn:
                return PI * Fraction(-k, dn)
    return P(Fraction(repr(x)) if abs(x) > 1e-300 and "e" not in repr(x) else Fraction(repr(x)))


def mono_poly(m, c=1):
    return Poly({m: Fraction(c)}) if c else ZERO


def _at(kind, args, key, *deps):
    fv = frozenset()
    apps = frozenset()
    for d in deps:
        fv |= d.fv
        apps |= d.apps
    return Atom(kind, args, key, fv, apps)


JAT = Atom("j", (), "j", frozenset())
PIAT = Atom("pi", (), "pi", frozenset())
J = P(JAT)
PI = P(PIAT)


def entry(sym, idxs, conj=False):
    idxs = tuple(I(i) for i in idxs)
    if not sym.cplx:
        conj = False
    if sym.psd:
        idxs, conj = _herm(sym, idxs, conj)
    key = sym.key + ("'" if conj else "") + "[" + ",".join(i.key for i in idxs) + "]"
    return P(_at("A", (sym, idxs, conj), key, *idxs))


def _herm(sym, idxs, conj):
    """Hermitian matrix symbols: conjugation swaps the indices; symmetric ones sort them"""
    if sym.cplx:
        return (idxs[:-2] + (idxs[-1], idxs[-2]), False) if conj else (idxs, False)
    if idxs[-1].key < idxs[-2].key:
        idxs = idxs[:-2] + (idxs[-1], idxs[-2])
    return idxs, False


def ivatom(a):
    return Atom("iv", (a,), "iv(" + a.key + ")", a.fv, a.apps)


def ipoly(ip):
    r = {}
    for m, c in ip.t:
        d = {}
        for a in m:
            d[a] = d.get(a, 0) + 1
        mono = tuple(sorted(((ivatom(a), e) for a, e in d.items()), key=lambda x: x[0].key))
        r[mono] = r.get(mono, 0) + Fraction(c)
    return Poly({m: c for m, c in r.items() if c})


# ------------------------------------------------------------------ multiplication
def pmul(p, q):
    if not p.d or not q.d:
        return ZERO
    if len(q.d) == 1 and () in q.d:
        c0 = q.d[()]
        return Poly({m: c * c0 for m, c in p.d.items()}) if c0 != 1 else p
    if len(p.d) == 1 and () in p.d:
        c0 = p.d[()]
        return Poly({m: c * c0 for m, c in q.d.items()}) if c0 != 1 else q
    out = {}
    extra = None
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            r = mmul(m1, m2)
            if isinstance(r, tuple):
                v = out.get(r, 0) + c1 * c2
                if v == 0:
                    out.pop(r, None)
                else:
                    out[r] = v
            else:
                r = r * P(c1 * c2) if c1 * c2 != 1 else r
                extra = r if extra is None else extra + r
    res = Poly(out)
    return res if extra is None else res + extra


def mmul(m1, m2):
    """product of two monomials: a Mono (fast path) or a Poly"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    special = False
    for a, e in m2:
        if a in d:
            v = d[a] + e
            if v == 0:
                del d[a]
            else:
                d[a] = v
            if a.kind in ("j", "ind", "abs"):
                special = True
        else:
            d[a] = e
            if a.kind == "ind":
                special = True
    if not special:
        for a in d:
            if a.kind == "ind":
                special = True
                break
    mono = tuple(sorted(d.items(), key=lambda x: x[0].key))
    if special:
        return mfix(mono)
    return mono


def mfix(mono):
    """normalise a monomial with special atoms; returns Mono or Poly"""
    coef = 1
    out = []
    extra = ONE
    inds = []
    changed = False
    for a, e in mono:
        k = a.kind
        if k == "j":
            e4 = e % 4
            if e4 >= 2:
                coef = -coef
                changed = True
            if e4 % 2:
                out.append((a, 1))
            if e != e4 % 2:
                changed = True
        elif k == "ind":
            inds.append(a)
            out.append((a, 1))
        elif k == "abs" and e >= 2 and e == int(e):
            e = int(e)
            p = a.args[0]
            extra = extra * ((p * pconj(p)) ** (e // 2))
            if e % 2:
                out.append((a, 1))
            changed = True
        else:
            out.append((a, e))
    if inds:
        bcs = [a.args[0] for a in inds]
        for b in bcs:
            if b.kind == "req":
                q = b.args[0]
                if len(q.d) == 1:
                    (mq, _), = q.d.items()
                    dd = dict(out)
                    if all(x in dd and (dd[x] >= ex > 0) for x, ex in mq):
                        return ZERO
        if len(bcs) >= 2 and all(b.kind in ("le", "eq") for b in bcs):
            # cheap contradiction test: x==a and x==b
            for b1, b2 in itertools.combinations(bcs, 2):
                if b1.kind == "eq" and b2.kind == "eq":
                    s = (b1.args[0] - b2.args[0]).const()
                    if s not in (None, 0):
                        return ZERO
                    s = (b1.args[0] + b2.args[0]).const()
                    if s not in (None, 0):
                        return ZERO
    m = tuple(out)
    if coef == 1 and extra is ONE:
        return m
    return mono_poly(m, coef) * extra if extra is not ONE else mono_poly(m, coef)


def mono_as_poly(m):
    r = mfix(m)
    return mono_poly(r) if isinstance(r, tuple) else r


# ------------------------------------------------------------------ substitution / mapping
def psubst(p, mp):
    if not (p.fv & mp.keys()):
        return p
    return pmap(p, lambda a: asubst(a, mp))


def pmap(p, fn):
    """rebuild p replacing every top-level atom a by fn(a) (Poly or None = unchanged)"""
    out = ZERO
    plain = {}
    for m, c in p.d.items():
        keep = []
        rep = None
        for a, e in m:
            r = fn(a)
            if r is None:
                keep.append((a, e))
            else:
                r = ppow(r, e) if e != 1 else r
                rep = r if rep is None else rep * r
                if not rep.d:
                    break
        if rep is None:
            plain[m] = plain.get(m, 0) + c
        elif rep.d:
            out = out + mono_poly(tuple(keep), c) * rep
    return out + Poly({m: c for m, c in plain.items() if c})


def bsubst(c, mp):
    return C.simp_bc(c.subst(mp)) if (c.fv & mp.keys()) else c


def asubst(a, mp):
    if not (a.fv & mp.keys()):
        return None
    k = a.kind
    if k == "A":
        return entry(a.args[0], [i.subst(mp) for i in a.args[1]], a.args[2])
    if k == "iv":
        return ipoly(isubst_atom(a.args[0], mp))
    if k == "ind":
        return ind(a.args[0].subst(mp))
    if k == "S":
        bs, body = open_S(a)
        bs = [(n, lo.subst(mp), hi.subst(mp)) for n, lo, hi in bs]
        for n, lo, hi in bs:
            C.RNG[n] = (lo, hi)
        return msum(bs, psubst(body, mp))
    if k == "seg":
        t, us, vs, dims, body, lo, hi, i, j = open_seg(a)
        lo2, hi2 = lo.subst(mp), hi.subst(mp)
        dims2 = tuple(d.subst(mp) for d in dims)
        _seg_rng(t, us, vs, dims2, lo2, hi2)
        return mkseg(t, us, vs, dims2, psubst(body, mp), lo2, hi2,
                     tuple(x.subst(mp) for x in i), tuple(x.subst(mp) for x in j))
    if k == "abs":
        return pabs(psubst(a.args[0], mp))
    if k == "log":
        return plog(psubst(a.args[0], mp))
    if k == "E":
        return pexp(psubst(mono_poly(a.args[0]), mp))
    if k == "val":
        q = psubst(a.args[0], mp)
        return q if len(q.d) <= 1 else P(mkval(q))
    if k == "fn":
        return fn(a.args[0], tuple(x.subst(mp) for x in a.args[1]), a.args[2], a.args[3])
    if k == "powi":
        return ppowi(psubst(a.args[0], mp), a.args[1].subst(mp))
    raise Unsupported("asubst " + k)


def pconj(p):
    return pmap(p, aconj)


def aconj(a):
    k = a.kind
    if k == "A":
        return entry(a.args[0], a.args[1], not a.args[2]) if a.args[0].cplx else None
    if k == "j":
        return -J
    if k in ("iv", "pi", "ind", "abs"):
        return None
    if k == "S":
        if a._c is None:
            bs, body = open_S(a)
            cb = pconj(body)
            a._c = True if cb.d == body.d else False
            if a._c is True:
                return None
            return msum(bs, cb)
        if a._c is True:
            return None
        bs, body = open_S(a)
        return msum(bs, pconj(body))
    if k == "seg":
        t, us, vs, dims, body, lo, hi, i, j = open_seg(a)
        cb = pconj(body)
        if cb.d == body.d:
            return None
        n = len(us)
        for x in range(n):
            for y in range(x + 1, n):
                if dims[x] == dims[y]:
                    mp = {us[x]: ivar(us[y]), us[y]: ivar(us[x]), vs[x]: ivar(vs[y]), vs[y]: ivar(vs[x])}
                    if psubst(cb, mp).d == body.d:
                        i2, j2 = list(i), list(j)
                        i2[x], i2[y] = i2[y], i2[x]
                        j2[x], j2[y] = j2[y], j2[x]
                        return mkseg(t, us, vs, dims, body, lo, hi, i2, j2)
        return mkseg(t, us, vs, dims, cb, lo, hi, i, j)
    if k == "log":
        q = pconj(a.args[0])
        return None if q.d == a.args[0].d else plog(q)
    if k == "E":
        m = mono_poly(a.args[0])
        q = pconj(m)
        return None if q.d == m.d else pexp(q)
    if k == "val":
        q = pconj(a.args[0])
        return None if q.d == a.args[0].d else P(mkval(q))
    if k == "fn":
        if a.args[2]:
            return None
        return fn(a.args[0] + "'", a.args[1], False, a.args[3]) if not a.args[0].endswith("'") else fn(a.args[0][:-1], a.args[1], False, a.args[3])
    if k == "powi":
        q = pconj(a.args[0])
        return None if q.d == a.args[0].d else ppowi(q, a.args[1])
    raise Unsupported("conj " + k)


def is_real(p):
    return pconj(p).d == p.d


# ------------------------------------------------------------------ indicators
def ind(c):
    c = C.simp_bc(c) if c.kind in ("le", "eq", "not", "forall") else c
    return ind_raw(c)


def ind_raw(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    k = c.kind
    if k == "not":
        return ONE - ind_raw(c.args[0])
    if k == "and":
        r = ONE
        for x in c.args:
            r = r * ind(x)
        return r
    if k == "or":
        r = ONE
        for x in c.args:
            r = r * (ONE - ind(x))
        return ONE - r
    if k == "le":
        p = c.args[0]
        lead = [co for m, co in p.t if m][0]
        if lead < 0:
            return ONE - ind_raw(bnot(c))
    if k == "rlt":
        pass
    return P(_at("ind", (c,), "[" + c.key + "]", c))


def ite(c, p, q):
    p, q = P(p), P(q)
    if c is TRUE:
        return p
    if c is FALSE:
        return q
    if p.d == q.d:
        return p
    i = ind(c)
    return i * p + (ONE - i) * q


def top_inds(p):
    s = {}
    for m in p.d:
        for a, _ in m:
            if a.kind == "ind":
                s[a.key] = a
    return [s[k] for k in sorted(s)]


def cond_true(p, a):
    """p assuming indicator atom a is 1"""
    c = a.args[0]
    r = pmap(p, lambda x: ONE if x is a else None)
    if c.kind == "req":
        q = c.args[0]
        if len(q.d) == 1:
            (mq, _), = q.d.items()
            d = {}
            for m, co in r.d.items():
                dd = dict(m)
                if not all(x in dd and dd[x] >= ex > 0 for x, ex in mq):
                    d[m] = co
            r = Poly(d)
    elif c.kind == "eq":
        r = _subst_eq(r, c)
    return r


def _solve_eq(c, avoid=()):
    """solve condition p==0 for a variable with unit coefficient: (name, IP)"""
    p = c.args[0]
    cands = []
    for v in sorted(p.fv):
        if v in avoid:
            continue
        co = p.lincoeff(v)
        if co in (1, -1):
            cands.append((v, co))
    # prefer fresh variables
    cands.sort(key=lambda x: (not x[0].startswith("?"), x[0]))
    for v, co in cands:
        e = ivar(v) - p if co == 1 else p + ivar(v)
        return v, e
    return None


def _subst_eq(p, c):
    s = _solve_eq(c)
    if s is None:
        return p
    return psubst(p, {s[0]: s[1]})


def cond_false(p, a):
    return pmap(p, lambda x: ZERO if x is a else None)


def split_ind(p, f):
    """apply nonlinear f to p distributing over top-level indicators; None if there are none"""
    ts = top_inds(p)
    if not ts:
        return None
    a = ts[0]
    c = a.args[0]
    i = P(a)
    with C.assume(c):
        f1 = f(cond_true(p, a))
    with C.assume(bnot(c)):
        f0 = f(cond_false(p, a))
    return f0 + i * (f1 - f0)


# ------------------------------------------------------------------ signs
PSD_ON = [True]
POS_HYPS = []     # callables Poly -> bool : assumed strictly positive


def atom_sign(a, e=1):
    """'pos', 'nonneg' or None for a^e"""
    k = a.kind
    if k in ("pi",):
        return "pos"
    if k == "E":
        m = mono_poly(a.args[0])
        return "pos" if is_real(m) else None
    if k == "iv":
        ip = IP({(a.args[0],): 1})
        if C.entails(le(1, ip)):
            return "pos"
        if C.entails(le(0, ip)):
            return "nonneg"
        return None
    if k == "ind":
        return "nonneg"
    if k == "abs":
        s = nonzero_known(a.args[0])
        return "pos" if s else "nonneg"
    if k == "A" and a.args[0].nonneg:
        return "nonneg"
    if k == "val":
        return sign(a.args[0])
    if k == "S":
        bs, body = open_S(a)
        s = sign(body)
        return "nonneg" if s else None
    if k == "fn" and a.args[3]:
        return "pos" if a.args[3] == "pos" else "nonneg"
    if k == "powi":
        s = sign(a.args[0])
        return s
    if e == int(e) and int(e) % 2 == 0 and k != "j":
        p = P(a)
        if is_real(p):
            return "nonneg"
    return None


def mono_sign(m):
    """sign of a monomial product"""
    allpos = True
    used = set()
    md = dict(m)
    for a, e in m:
        if a in used:
            continue
        s = atom_sign(a, e)
        if s == "pos":
            continue
        if s == "nonneg" and (e > 0 or s):
            if e < 0:
                # inverse of a nonneg quantity, defined only if nonzero
                continue
            allpos = False
            continue
        if e == int(e) and int(e) % 2 == 0 and is_real(P(a)):
            allpos = False
            continue
        # x * conj(x)
        cj = pconj(P(a))
        if len(cj.d) == 1:
            (mm, co), = cj.d.items()
            if co == 1 and len(mm) == 1 and mm[0][1] == 1 and md.get(mm[0][0]) == e and mm[0][0] is not a and e > 0:
                used.add(mm[0][0])
                used.add(a)
                allpos = False
                continue
        return None
    return "pos" if allpos else "nonneg"


def nonzero_known(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        ok = True
        for a, e in m:
            if bnot(mkreq(P(a))) in C.FACTS or atom_sign(a) == "pos" or a.kind in ("j",):
                continue
            ok = False
            break
        if ok:
            return True
    return bnot(mkreq(p)) in C.FACTS


def sign(p):
    if not p.d:
        return "nonneg"
    best = "nonneg"
    for m, c in p.d.items():
        if c < 0:
            best = None
            break
        s = mono_sign(m)
        if s is None:
            best = None
            break
        if s == "pos":
            best = "pos"
    if best == "pos":
        return best
    for h in POS_HYPS:
        if h(p):
            return "pos"
    if best is None and PSD_ON[0] and psd_form(p):
        best = "nonneg"
    if best == "nonneg":
        if nonzero_known(p):
            return "pos"
        g, q = factor_common(p)
        if g and len(q.d) >= 1 and mono_sign(g) == "pos" and nonzero_known(q):
            return "pos"
    ts = top_inds(p)
    if ts:
        a = ts[0]
        c = a.args[0]
        with C.assume(c):
            s1 = sign(cond_true(p, a)) if C.feasible(c) else "pos"
        if s1 is None:
            return best
        with C.assume(bnot(c)):
            s0 = sign(cond_false(p, a)) if C.feasible(bnot(c)) else "pos"
        if s0 is None:
            return best
        return "pos" if s0 == s1 == "pos" else "nonneg"
    return best


def psd_form(p, sig=None, depth=0):
    """p is a sum of terms of the form  f(x) . M . conj(f)(sigma x)  with positive (semidefinite) M, where the
    involution sigma of the summation variables extends sig (open row index -> open column index):
    then p is non-negative (closed) resp. a positive semidefinite matrix (open)"""
    if depth > 4:
        return False
    for m, c in p.d.items():
        if not (c > 0):
            return False
        fac = []
        for a, e in m:
            if a.kind == "S" and e == 1:
                bs, body = open_S(a)
                if len(body.d) != 1:
                    return False
                (mm, cc), = body.d.items()
                if not cc > 0:
                    return False
                fac += list(mm)
            else:
                fac.append((a, e))
        s0 = dict(sig or {})
        for x, y in list(s0.items()):
            s0[y] = x
        if not _psd_match(fac, s0, depth):
            return False
    return True


def _ext(sig, x, y):
    """extend the involution with x <-> y (index polynomials); None if inconsistent"""
    if x.key == y.key and not (x.fv & sig.keys()):
        return sig
    nx, ny = _isvar(x), _isvar(y)
    if nx is None or ny is None:
        return None
    if sig.get(nx, ny) != ny or sig.get(ny, nx) != nx:
        return None
    if (nx in sig) != (ny in sig):
        return None
    s = dict(sig)
    s[nx], s[ny] = ny, nx
    return s


def _isvar(x):
    if len(x.t) == 1 and x.t[0][1] == 1 and len(x.t[0][0]) == 1 and x.t[0][0][0].kind == "var":
        return x.t[0][0][0].args[0]
    return None


def _extall(sig, xs, ys):
    for x, y in zip(xs, ys):
        sig = _ext(sig, x, y)
        if sig is None:
            return None
    return sig


def _psd_match(fac, sig, depth):
    if not fac:
        return True
    a, e = fac[0]
    rest = fac[1:]
    if a.kind == "A" and a.args[0].psd and e == 1:
        s2 = _ext(sig, a.args[1][-2], a.args[1][-1])
        if s2 is not None and _psd_match(rest, s2, depth):
            return True
        return False
    if a.kind == "seg" and e == 1:
        t, us, vs, dims, body, lo, hi, i, j = open_seg(a)
        if len(us) == 2 and psd_form(body, {us[0]: us[1], vs[0]: vs[1]}, depth + 1):
            s2 = _extall(sig, (i[0], j[0]), (i[1], j[1]))
            return s2 is not None and _psd_match(rest, s2, depth)
    if atom_sign(a, e) in ("pos", "nonneg") and not (a.fv & sig.keys()):
        return _psd_match(rest, sig, depth)
    if a.kind == "A" and e > 0:
        sym, idx, cj = a.args
        # pair with the conjugate entry at the mirrored index
        if e == int(e) and int(e) % 2 == 0 and not sym.cplx:
            s2 = _extall(sig, idx, idx)
            if s2 is not None and _psd_match(rest, s2, depth):
                return True
        for q, (b, eb) in enumerate(rest):
            if b.kind == "A" and b.args[0] is sym and eb == e and b.args[2] == ((not cj) if sym.cplx else cj):
                s2 = _extall(sig, idx, b.args[1])
                if s2 is not None and _psd_match(rest[:q] + rest[q + 1:], s2, depth):
                    return True
        return False
    if a.kind == "seg" and e == 1:
        for q, (b, eb) in enumerate(rest):
            if b.kind == "seg" and eb == 1 and len(b.args[1]) == len(a.args[1]):
                i, j, i2, j2 = a.args[7], a.args[8], b.args[7], b.args[8]
                s2 = _extall(sig, i + j, i2 + j2)
                if s2 is not None and a.args[5] == b.args[5] and a.args[6] == b.args[6]:
                    cb = pconj(P(a))
                    if len(cb.d) == 1:
                        (mm, c2), = cb.d.items()
                        if c2 == 1 and len(mm) == 1 and mm[0][0].kind == "seg" and mm[0][0].args[4].d == b.args[4].d and _psd_match(rest[:q] + rest[q + 1:], s2, depth):
                            return True
    return False


def factor_common(p):
    """(common monomial of positive/nonzero-safe atoms, rest) with p = mono*rest"""
    if not p.d:
        return (), p
    it = iter(p.d)
    common = dict(next(it))
    for m in it:
        dm = dict(m)
        for a in list(common):
            if a not in dm:
                del common[a]
            else:
                e1, e2 = common[a], dm[a]
                if (e1 > 0) != (e2 > 0):
                    del common[a]
                else:
                    common[a] = min(e1, e2) if e1 > 0 else max(e1, e2)
        if not common:
            break
    if not common:
        return (), p
    g = tuple(sorted(common.items(), key=lambda x: x[0].key))
    inv = {a: -e for a, e in g}
    d = {}
    for m, c in p.d.items():
        dm = dict(m)
        for a, e in inv.items():
            v = dm.get(a, 0) + e
            if v == 0:
                dm.pop(a, None)
            else:
                dm[a] = v
        d[tuple(sorted(dm.items(), key=lambda x: x[0].key))] = c
    return g, Poly(d)


def lead_coeff(p):
    m = min(p.d, key=_mk)
    return p.d[m]


def mkreq(p):
    """condition p == 0"""
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    # strip factors known to be nonzero
    g, q = factor_common(p)
    if g:
        keep = [(a, e) for a, e in g if atom_sign(a) != "pos"]
        p = mono_poly(tuple(keep)) * q if len(keep) != len(g) else p
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    p = Poly({m: co / lead_coeff(p) for m, co in p.d.items()})
    return mkreal("req", (p,))


def mkrlt(p):
    """condition p < 0"""
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    l = abs(lead_coeff(p))
    p = Poly({m: co / l for m, co in p.d.items()})
    if sign(p) is not None:
        return FALSE
    if sign(-p) == "pos":
        return TRUE
    return mkreal("rlt", (p,))


# ------------------------------------------------------------------ nonlinear functions
def _key_fn(kind, p):
    return P(_at(kind, (p,), kind + p.key, p))


def mkval(p):
    return _at("val", (p,), "val" + p.key, p)


def pabs(p):
    if not p.d:
        return ZERO
    r = split_ind(p, pabs)
    if r is not None:
        return r
    if len(p.d) == 1:
        (m, c), = p.d.items()
        out = P(abs(c))
        for a, e in m:
            out = out * _abs_atom(a, e)
        return out
    if sign(p) is not None:
        return p
    g, q = factor_common(p)
    out = ONE
    if g:
        for a, e in g:
            out = out * _abs_atom(a, e)
    if len(q.d) == 1:
        return out * pabs(q)
    l = lead_coeff(q)
    q = Poly({m: c / l for m, c in q.d.items()})
    return out * P(abs(l)) * _key_fn("abs", q)


def _abs_atom(a, e):
    k = a.kind
    if k == "j":
        return ONE
    s = atom_sign(a, 1)
    if s is not None:
        return mono_poly(((a, e),))
    if k == "E":
        m = mono_poly(a.args[0])
        re2 = m + pconj(m)
        return pexp(re2 * P(Fraction(1, 2)) * P(e))
    if k == "A" and a.args[2]:
        a = list(entry(a.args[0], a.args[1], False).d)[0][0][0]
    return ppow(_key_fn("abs", P(a)), e)


def plog(p):
    r = split_ind(p, plog)
    if r is not None:
        return r
    if not p.d:
        return P(_at("log", (p,), "log" + p.key, p))
    g, q = factor_common(p)
    out = ZERO
    for a, e in g:
        out = out + P(e) * _log_atom(a)
    if len(q.d) == 1:
        (m, c), = q.d.items()
        assert not m
        if c != 1:
            out = out + _log_const(c)
        return out
    l = abs(lead_coeff(q))
    if l != 1:
        out = out + _log_const(l)
        q = Poly({m: c / l for m, c in q.d.items()})
    return out + _key_fn("log", q)


def _log_const(c):
    c = Fraction(c)
    if c == 1:
        return ZERO
    if c < 0:
        return _key_fn("log", P(c))
    out = ZERO
    if c.numerator != 1:
        out = out + _log_int(c.numerator)
    if c.denominator != 1:
        out = out - _log_int(c.denominator)
    return out


def _log_int(n):
    out = ZERO
    f = 2
    while f * f <= n and f < 2000:
        while n % f == 0:
            out = out + _key_fn("log", P(f))
            n //= f
        f += 1
    if n > 1:
        out = out + _key_fn("log", P(n))
    return out


def _log_atom(a):
    if a.kind == "E":
        return mono_poly(a.args[0])
    if a.kind == "val":
        return _key_fn("log", a.args[0])
    return _key_fn("log", P(a))


def pexp(p):
    r = split_ind(p, pexp)
    if r is not None:
        return r
    out = ONE
    for m, c in p.d.items():
        if len(m) == 1 and m[0][0].kind == "log" and m[0][1] == 1:
            q = m[0][0].args[0]
            out = out * ppow(q, c)
        else:
            key = "E(" + _mk(m) + ")"
            deps = [a for a, _ in m]
            out = out * mono_poly(((_at("E", (m,), key, *deps), c if c.denominator != 1 else int(c)),))
    return out


def pinv(p):
    return ppow(p, -1)


def ppow(p, e):
    e = Fraction(e)
    if e.denominator == 1:
        e = int(e)
        if e == 1:
            return p
        if e == 0:
            return ONE
        if e > 0:
            r = ONE
            for _ in range(e):
                r = r * p
            return r
    if not p.d:
        if e > 0:
            return ZERO
        raise Unsupported("division by the constant zero")
    r = split_ind(p, lambda x: ppow(x, e) if (x.d or e > 0) else ZERO)
    if r is not None:
        return r
    g, q = factor_common(p)
    if isinstance(e, int):
        out = ONE
        for a, ex in g:
            out = out * _atom_pow(a, ex * e)
    else:
        out = ONE
        rest = []
        for a, ex in g:
            if atom_sign(a) is not None:
                out = out * _atom_pow(a, ex * e)
            else:
                rest.append((a, ex))
        if rest:
            q = mono_poly(tuple(rest)) * q
    if len(q.d) == 1:
        (m, c), = q.d.items()
        if not m:
            return out * _const_pow(c, e)
        # fractional power of atoms of unknown sign
        if all(ex % 2 == 0 for _, ex in m) and e == Fraction(1, 2) and all(is_real(P(a)) for a, _ in m):
            return out * _const_pow(c, e) * pabs(mono_poly(tuple((a, ex // 2) for a, ex in m)))
    l = abs(lead_coeff(q))
    if l != 1:
        q = Poly({m: c / l for m, c in q.d.items()})
        out = out * _const_pow(l, e)
    return out * mono_poly(((mkval(q), e),))


def _atom_pow(a, e):
    if e == int(e):
        e = int(e)
    if a.kind == "j":
        return [ONE, J, -ONE, -J][int(e) % 4]
    if a.kind == "ind":
        raise Unsupported("power of indicator")
    return mono_as_poly(((a, e),)) if e else ONE


def _const_pow(c, e):
    c = Fraction(c)
    if isinstance(e, int):
        return P(c ** e)
    if c < 0:
        return mono_poly(((mkval(P(c)), e),))
    # rational root if exact
    import math
    n, d = e.numerator, e.denominator
    num = round(c.numerator ** (1.0 / d)) if c.numerator < 10**30 else 0
    den = round(c.denominator ** (1.0 / d)) if c.denominator < 10**30 else 0
    if num ** d == c.numerator and den ** d == c.denominator:
        return P(Fraction(num, den) ** n)
    out = ONE
    for base, sg in ((c.numerator, 1), (c.denominator, -1)):
        f = 2
        x = base
        fac = {}
        while f * f <= x and f < 5000:
            while x % f == 0:
                fac[f] = fac.get(f, 0) + 1
                x //= f
            f += 1
        if x > 1:
            fac[x] = fac.get(x, 0) + 1
        for f, k in fac.items():
            ex = Fraction(k * sg) * e
            ip = ex.numerator // ex.denominator
            fr = ex - ip
            out = out * P(Fraction(f) ** ip)
            if fr:
                out = out * mono_poly(((mkval(P(f)), fr),))
    return out


def psqrt(p):
    return ppow(p, Fraction(1, 2))


def ppowi(p, e):
    """p ** e with symbolic integer e >= 0"""
    e = I(e)
    c = e.const()
    if c is not None:
        return ppow(p, c)
    c0 = e.c0()
    return P(_at("powi", (p, e), "powi(" + p.key + "," + e.key + ")", p, e))


def fn(name, args, real=True, nonneg=False):
    key = name + "(" + ",".join(a.key for a in args) + ")"
    return P(_at("fn", (name, tuple(args), real, nonneg), key, *args))


# ------------------------------------------------------------------ sums
def open_S(a):
    """fresh binders and body poly of a sum atom"""
    bs, mono = a.args
    mp = {}
    out = []
    for n, lo, hi in bs:
        lo, hi = lo.subst(mp), hi.subst(mp)
        f = C.fresh(lo, hi)
        mp[n] = ivar(f)
        out.append((f, lo, hi))
    body = ONE
    p = mono_poly(mono)
    return out, psubst(p, mp)


def ssum(name, lo, hi, p):
    return msum([(name, I(lo), I(hi))], p)


def msum(binders, p):
    if not binders or not p.d:
        return p
    out = ZERO
    for m, c in p.d.items():
        r = msum_mono(binders, m)
        out = out + (r * P(c) if c != 1 else r)
    return out


EXPAND_LIMIT = 3


def msum_mono(binders, mono):
    names = {n for n, _, _ in binders}
    bd = {n: (lo, hi) for n, lo, hi in binders}
    order = [n for n, _, _ in binders]
    # trivially empty
    for n in order:
        lo, hi = bd[n]
        d = (hi - lo).const()
        if d is not None and d <= 0:
            return ZERO
    inside, outside = [], []
    opened = ONE
    flat = False
    for a, e in mono:
        if a.fv & names:
            if a.kind == "S" and e == int(e) and e > 0:
                for _ in range(int(e)):
                    nb, body = open_S(a)
                    for n, lo, hi in nb:
                        bd[n] = (lo, hi)
                        order.append(n)
                    opened = opened * body
                flat = True
            else:
                inside.append((a, e))
        else:
            outside.append((a, e))
    outp = mono_poly(tuple(outside))
    if flat:
        body = mono_poly(tuple(inside)) * opened
        return outp * msum([(n,) + bd[n] for n in order], body)
    names = set(order)
    # small constant ranges are expanded
    for n in order:
        lo, hi = bd[n]
        d = (hi - lo).const()
        if d is not None and d <= EXPAND_LIMIT:
            rest = [x for x in order if x != n]
            tot = ZERO
            ip = mono_poly(tuple(inside))
            for k in range(d):
                v = lo + k
                tot = tot + msum([(x, bd[x][0].subst({n: v}), bd[x][1].subst({n: v})) for x in rest], psubst(ip, {n: v}))
            return outp * tot
    # indicators
    for a, e in inside:
        if a.kind != "ind":
            continue
        c = a.args[0]
        if c.kind == "eq":
            for x in sorted(c.fv & names, key=lambda n: -order.index(n)):
                co = c.args[0].lincoeff(x)
                if co not in (1, -1):
                    continue
                ex = ivar(x) - c.args[0] if co == 1 else c.args[0] + ivar(x)
                lo, hi = bd[x]
                # binder ranges must not depend on variables bound later in terms of x
                if any(x in (bd[y][0].fv | bd[y][1].fv) for y in order if y != x and (y in ex.fv)):
                    continue
                rest = [(y, bd[y][0].subst({x: ex}), bd[y][1].subst({x: ex})) for y in order if y != x]
                ip = mono_poly(tuple(z for z in inside if z[0] is not a))
                body = psubst(ip, {x: ex})
                g = ind(le(lo, ex)) * ind(lt(ex, hi))
                return outp * msum(rest, g * body)
        elif c.kind == "le":
            p = c.args[0]
            for x in sorted(c.fv & names):
                co = p.lincoeff(x)
                if co not in (1, -1):
                    continue
                r = p - ivar(x) * co
                if r.fv & names:
                    continue
                lo, hi = bd[x]
                ip = tuple(z for z in inside if z[0] is not a)
                if co == 1:      # x <= -r  -> x < 1-r
                    e2 = I(1) - r
                    if C.entails(le(e2, hi)) and C.entails(le(lo, e2)):
                        bd[x] = (lo, e2)
                    elif C.entails(le(hi, e2)):
                        pass
                    elif C.entails(le(e2, lo)):
                        return ZERO
                    else:
                        continue
                else:            # x >= r
                    if C.entails(le(lo, r)) and C.entails(le(r, hi)):
                        bd[x] = (r, hi)
                    elif C.entails(le(r, lo)):
                        pass
                    elif C.entails(le(hi, r)):
                        return ZERO
                    else:
                        continue
                for n in order:
                    C.RNG[n] = bd[n]
                return outp * msum([(n,) + bd[n] for n in order], mono_poly(ip))
            # indicator known from the binder ranges
    # unused binders
    used = set()
    for a, e in inside:
        used |= a.fv & names
    for n in order:
        used |= (bd[n][0].fv | bd[n][1].fv) & names
    for n in order:
        if n not in used:
            rest = [(y,) + bd[y] for y in order if y != n]
            lo, hi = bd[n]
            return outp * ipoly(hi - lo) * msum(rest, mono_poly(tuple(inside)))
    # distribute: 1-[c] style factors were already expanded by Poly arithmetic
    comps = _components(order, bd, inside)
    res = outp
    for bs, fs in comps:
        res = res * P(_canon_sum(bs, bd, fs))
    return res


def _components(order, bd, inside):
    par = {n: n for n in order}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    names = set(order)
    for a, e in inside:
        vs = list(a.fv & names)
        for v in vs[1:]:
            par[find(v)] = find(vs[0])
    for n in order:
        for v in (bd[n][0].fv | bd[n][1].fv) & names:
            par[find(v)] = find(n)
    groups = {}
    for n in order:
        groups.setdefault(find(n), []).append(n)
    out = []
    for g in groups.values():
        gs = set(g)
        out.append((g, [(a, e) for a, e in inside if a.fv & gs]))
    return out


def _index_exprs(a):
    """(label, IP) index expressions of an atom usable for shift normalisation"""
    out = []
    if a.kind == "A":
        for pos, ip in enumerate(a.args[1]):
            out.append(("%s/%d" % (a.args[0].name, pos), ip))
            for m, c in ip.t:
                for ia in m:
                    if ia.kind == "app":
                        for q, x in enumerate(ia.args[1:]):
                            if isinstance(x, IP):
                                out.append(("%s/%d>%s/%d" % (a.args[0].name, pos, ia.args[0], q), x))
    elif a.kind == "seg":
        for pos, ip in enumerate((a.args[5], a.args[6]) + a.args[7] + a.args[8]):
            out.append(("seg%s/%d" % (a.args[4].key, pos), ip))
        out.extend(_poly_index_exprs(a.args[4]))
    elif a.kind == "S":
        for b, _ in a.args[1]:
            out.extend(_index_exprs(b))
    elif a.kind in ("abs", "log", "val"):
        for m in a.args[0].d:
            for b, _ in m:
                out.extend(_index_exprs(b))
    elif a.kind == "E":
        for b, _ in a.args[0]:
            out.extend(_index_exprs(b))
    elif a.kind == "fn":
        for x in a.args[1]:
            if isinstance(x, Poly):
                out.extend(_poly_index_exprs(x))
            elif isinstance(x, IP):
                out.append(("fn" + a.args[0], x))
    elif a.kind == "iv" and a.args[0].kind == "app":
        ia = a.args[0]
        for q, x in enumerate(ia.args[1:]):
            if isinstance(x, IP):
                out.append(("iv>%s/%d" % (ia.args[0], q), x))
    elif a.kind == "ind" and a.args[0].kind in ("le", "eq"):
        pass
    return out


def _poly_index_exprs(p):
    out = []
    for m in p.d:
        for b, _ in m:
            out.extend(_index_exprs(b))
    return out


def _best_shift(name, exprs, forbidden):
    """choose canonical reparametrisation e = s*name + r ; returns (s, r) or None"""
    cands = []
    for lab, ip in exprs:
        if name not in ip.fv:
            continue
        co = ip.lincoeff(name)
        if co not in (1, -1):
            continue
        r = ip - ivar(name) * co
        if r.fv & forbidden:
            continue
        cands.append((lab, co != 1, r.key, co, r))
    if not cands:
        return None
    # shift invariant choice: among the labels present take the smallest label; among its
    # occurrences pick one in a shift invariant way (smallest relative offset)
    lab = min(c[0] for c in cands)
    cs = [c for c in cands if c[0] == lab]
    sgn = cs[0][3]
    cs = [c for c in cs if c[3] == sgn] or cs
    base = cs[0][4]
    best = cs[0]
    for c in cs[1:]:
        d = (c[4] - base).const()
        if d is not None and d * sgn < 0:
            base, best = c[4], c
    return best[3], best[4]


def _canon_sum(bs, bd, fs):
    # shift normalisation of single binders
    if len(bs) == 1 or True:
        names = set(bs)
        for n in bs:
            ex = []
            for a, e in fs:
                if n in a.fv:
                    ex.extend(_index_exprs(a))
            sh = _best_shift(n, ex, names - {n})
            if sh is None or (sh[0] == 1 and sh[1].const() == 0):
                continue
            if any(n in (bd[y][0].fv | bd[y][1].fv) for y in bs):
                continue
            s, r = sh
            lo, hi = bd[n]
            if s == 1:
                nlo, nhi = lo + r, hi + r
                repl = lambda f: ivar(f) - r
            else:
                nlo, nhi = r - hi + 1, r - lo + 1
                repl = lambda f: r - ivar(f)
            f = C.fresh(nlo, nhi)
            body = psubst(mono_poly(tuple(fs)), {n: repl(f)})
            if len(body.d) != 1:
                continue
            (m, c), = body.d.items()
            if c != 1:
                continue
            fs = list(m)
            bs = [f if x == n else x for x in bs]
            bd = dict(bd)
            bd[f] = (nlo, nhi)
            names = set(bs)
    h = 1 + max([a.ht for a, _ in fs], default=0)
    assign = _canon_order(bs, bd, fs)
    best = None
    for perm in assign:
        mp = {n: ivar("$%d_%d" % (h, k)) for k, n in enumerate(perm)}
        mono = _rename_mono(fs, mp)
        binders = tuple((mp[n].key, bd[n][0].subst(mp), bd[n][1].subst(mp)) for n in perm)
        key = "S<" + ";".join("%s:%s:%s" % (n, lo.key, hi.key) for n, lo, hi in binders) + "|" + _mk(mono) + ">"
        if best is None or key < best[0]:
            best = (key, binders, mono)
    key, binders, mono = best
    fv = frozenset()
    apps = frozenset()
    for a, _ in mono:
        fv |= a.fv
        apps |= a.apps
    for n, lo, hi in binders:
        fv |= lo.fv | hi.fv
    fv -= {n for n, _, _ in binders}
    return Atom("S", (binders, mono), key, fv, apps)


def _rename_mono(fs, mp):
    """pure renaming of variables inside the factors (no simplification can trigger)"""
    out = []
    for a, e in fs:
        if a.fv & mp.keys():
            r = arename(a, mp)
            out.append((r, e))
        else:
            out.append((a, e))
    return tuple(sorted(out, key=lambda x: x[0].key))


def arename(a, mp):
    k = a.kind
    if not (a.fv & mp.keys()):
        return a
    if k == "A":
        sym, idxs, cj = a.args
        idxs = tuple(i.subst(mp) for i in idxs)
        if sym.psd:
            idxs, cj = _herm(sym, idxs, cj)
        key = sym.key + ("'" if cj else "") + "[" + ",".join(i.key for i in idxs) + "]"
        return _at("A", (sym, idxs, cj), key, *idxs)
    if k == "iv":
        p = isubst_atom(a.args[0], mp)
        (m, c), = p.t
        return ivatom(m[0])
    if k == "ind":
        c = brename(a.args[0], mp)
        return _at("ind", (c,), "[" + c.key + "]", c)
    if k == "S":
        binders, mono = a.args
        mono2 = _rename_mono(mono, mp)
        b2 = tuple((n, lo.subst(mp), hi.subst(mp)) for n, lo, hi in binders)
        key = "S<" + ";".join("%s:%s:%s" % (n, lo.key, hi.key) for n, lo, hi in b2) + "|" + _mk(mono2) + ">"
        fv = frozenset()
        apps = frozenset()
        for x, _ in mono2:
            fv |= x.fv
            apps |= x.apps
        for n, lo, hi in b2:
            fv |= lo.fv | hi.fv
        fv -= {n for n, _, _ in b2}
        return Atom("S", (b2, mono2), key, fv, apps)
    if k == "seg":
        t, us, vs, dims, body, lo, hi, i, j = a.args
        return _seg_atom(t, us, vs, tuple(d.subst(mp) for d in dims), prename(body, mp), lo.subst(mp), hi.subst(mp),
                         tuple(x.subst(mp) for x in i), tuple(x.subst(mp) for x in j))
    if k in ("abs", "log", "val"):
        p = prename(a.args[0], mp)
        return _at(k, (p,), k + p.key, p)
    if k == "E":
        m = _rename_mono(a.args[0], mp)
        return _at("E", (m,), "E(" + _mk(m) + ")", *[x for x, _ in m])
    if k == "fn":
        args = tuple(prename(x, mp) if isinstance(x, Poly) else x.subst(mp) for x in a.args[1])
        return list(fn(a.args[0], args, a.args[2], a.args[3]).d)[0][0][0]
    if k == "powi":
        p, e = prename(a.args[0], mp), a.args[1].subst(mp)
        return _at("powi", (p, e), "powi(" + p.key + "," + e.key + ")", p, e)
    raise Unsupported("rename " + k)


def prename(p, mp):
    if not (p.fv & mp.keys()):
        return p
    d = {}
    for m, c in p.d.items():
        m2 = _rename_mono(m, mp)
        d[m2] = d.get(m2, 0) + c
    return Poly({m: c for m, c in d.items() if c})


def brename(c, mp):
    if not (c.fv & mp.keys()):
        return c
    if c.kind in ("rlt", "req", "bapp"):
        return BC(c.kind, tuple(prename(x, mp) if isinstance(x, Poly) else (x.subst(mp) if hasattr(x, "subst") else x) for x in c.args))
    return c.subst(mp)


def _canon_order(bs, bd, fs):
    """candidate canonical orders of the binders"""
    if len(bs) == 1:
        return [bs]
    names = set(bs)

    def sig(n, done):
        def rep(mt):
            s = mt.group(0)
            if s == n:
                return "@"
            if s in done:
                return "#%d" % done[s]
            if s in names:
                return "_"
            return s
        fsig = sorted("%s^%s" % (_FRE.sub(rep, a.key), e) for a, e in fs if n in a.fv)
        rs = "%s..%s" % (_FRE.sub(rep, bd[n][0].key), _FRE.sub(rep, bd[n][1].key))
        return rs + "|" + "|".join(fsig)

    results = []

    def rec(done, left):
        if not left:
            results.append(sorted(done, key=lambda x: done[x]))
            return
        if len(results) > 120:
            return
        sg = {}
        for n in left:
            sg.setdefault(sig(n, done), []).append(n)
        k = min(sg)
        for n in sg[k]:
            d2 = dict(done)
            d2[n] = len(done)
            rec(d2, [x for x in left if x != n])
    rec({}, list(bs))
    return results


# ------------------------------------------------------------------ ordered matrix products
def _seg_rng(t, us, vs, dims, lo, hi):
    C.RNG[t] = (lo, hi)
    for u, d in zip(us, dims):
        C.RNG[u] = (I(0), d.subst({"$t": ivar(t)}))
    for v, d in zip(vs, dims):
        C.RNG[v] = (I(0), d.subst({"$t": ivar(t) + 1}))


def open_seg(a):
    t, us, vs, dims, body, lo, hi, i, j = a.args
    ft = C.fresh(lo, hi)
    mp = {t: ivar(ft)}
    fu, fv_ = [], []
    for k, u in enumerate(us):
        f = C.fresh(0, dims[k].subst({"$t": ivar(ft)}))
        mp[u] = ivar(f)
        fu.append(f)
    for k, v in enumerate(vs):
        f = C.fresh(0, dims[k].subst({"$t": ivar(ft) + 1}))
        mp[v] = ivar(f)
        fv_.append(f)
    return ft, tuple(fu), tuple(fv_), dims, prename(body, mp), lo, hi, i, j


def _seg_atom(t, us, vs, dims, body, lo, hi, i, j):
    key = "seg<%s;%s;%s;%s|%s>(%s,%s;%s;%s)" % (
        t, ",".join(us), ",".join(vs), ",".join(d.key for d in dims), body.key, lo.key, hi.key,
        ",".join(x.key for x in i), ",".join(x.key for x in j))
    fv = body.fv - ({t} | set(us) | set(vs))
    apps = body.apps
    for d in dims:
        fv |= d.fv - {"$t"}
    for x in (lo, hi) + i + j:
        fv |= x.fv
        apps |= x.apps
    return Atom("seg", (t, us, vs, dims, body, lo, hi, i, j), key, fv, apps)


def delta(i, j):
    r = ONE
    for a, b in zip(i, j):
        r = r * ind(eq(a, b))
    return r


def seg_apply(t, us, vs, body, pos, i, j):
    mp = {t: I(pos)}
    for u, x in zip(us, i):
        mp[u] = x
    for v, x in zip(vs, j):
        mp[v] = x
    return psubst(body, mp)


def seg_dim(dims, pos):
    return tuple(d.subst({"$t": I(pos)}) for d in dims)


def _two(lo, hi):
    """a product of exactly two matrices, as far as pinned-down lengths tell"""
    n = hi - lo
    return n.const() is None and "fd(" in n.key and bool(n.fv & C.PINNED) and C.entails(eq(lo + 2, hi))


def mkseg(t, us, vs, dims, body, lo, hi, i, j):
    """ordered product over t in [lo,hi) of the matrices body(t; us -> vs), entry (i, j)

    dims: dimensions of the bond components as functions of the position variable "$t"
    """
    lo, hi = I(lo), I(hi)
    i = tuple(I(x) for x in i)
    j = tuple(I(x) for x in j)
    one = [q for q, d in enumerate(dims) if d.const() == 1]
    if one:
        # bond components of dimension 1 carry no information
        body = psubst(body, {x: I(0) for q in one for x in (us[q], vs[q])})
        us, vs, dims, i, j = [tuple(x for q, x in enumerate(l) if q not in one) for l in (us, vs, dims, i, j)]
    n = (hi - lo).const()
    if n is None and C.entails(eq(lo, hi)):
        n = 0
    if n is None and C.entails(eq(lo + 1, hi)):
        n = 1
    if n is None and _two(lo, hi):
        n = 2
    if n is not None and n <= 3:
        if n <= 0:
            return delta(i, j)
        cur = seg_apply(t, us, vs, body, lo, i, [ivar(x) for x in vs]) if n > 1 else seg_apply(t, us, vs, body, lo, i, j)
        vsn = vs
        for k in range(1, n):
            # cur is a function of vs
            ws = []
            dm = seg_dim(dims, lo + k)
            for d in dm:
                ws.append(C.fresh(0, d))
            cur_w = psubst(cur, {v: ivar(w) for v, w in zip(vs, ws)})
            last = k == n - 1
            nxt = seg_apply(t, us, vs, body, lo + k, [ivar(w) for w in ws], j if last else [ivar(x) for x in vs])
            cur = msum([(w, I(0), d) for w, d in zip(ws, dm)], cur_w * nxt)
        return cur
    if not body.d:
        return ind(eq(lo, hi)) * delta(i, j)
    dl = delta([ivar(u) for u in us], [ivar(v) for v in vs])
    if body.d == dl.d:
        return delta(i, j)
    # shift / reversal normalisation
    if t in body.fv:
        sh = _best_shift(t, _poly_index_exprs(body), set(us) | set(vs))
        if sh is not None and not (sh[0] == 1 and sh[1].const() == 0):
            s, r = sh
            if s == 1:
                nlo, nhi = lo + r, hi + r
                f = C.fresh(nlo, nhi)
                nd = tuple(d.subst({"$t": ivar("$t") - r}) for d in dims)
                C.RNG[f] = (nlo, nhi)
                return mkseg(f, us, vs, nd, psubst(body, {t: ivar(f) - r}), nlo, nhi, i, j)
            else:
                nlo, nhi = r - hi + 1, r - lo + 1
                f = C.fresh(nlo, nhi)
                # position p (old) = r - f ; bond position q(old) = r + 1 - q(new)
                nd = tuple(d.subst({"$t": r + 1 - ivar("$t")}) for d in dims)
                # swap roles of us and vs
                return mkseg(f, vs, us, nd, psubst(body, {t: r - ivar(f)}), nlo, nhi, j, i)
    else:
        if lo.const() != 0 and not any("$t" in d.fv for d in dims):
            hi, lo = hi - lo, I(0)
    # canonical renaming, with the best component permutation
    h = 1 + max([int(x) for x in _HT.findall(body.key)], default=0)
    best = None
    for perm in itertools.permutations(range(len(us))):
        mp = {t: ivar("$%d_t" % h)}
        for k, p in enumerate(perm):
            mp[us[p]] = ivar("$%d_u%d" % (h, k))
            mp[vs[p]] = ivar("$%d_v%d" % (h, k))
        b = prename(body, mp)
        key = ",".join(dims[p].key for p in perm) + "|" + b.key
        if best is None or key < best[0]:
            best = (key, perm, b)
    _, perm, b = best
    m = len(us)
    at = _seg_atom("$%d_t" % h, tuple("$%d_u%d" % (h, k) for k in range(m)), tuple("$%d_v%d" % (h, k) for k in range(m)),
                   tuple(dims[p] for p in perm), b, lo, hi, tuple(i[p] for p in perm), tuple(j[p] for p in perm))
    return P(at)


def seg_family(a):
    t, us, vs, dims, body, lo, hi, i, j = a.args
    return (t, us, ",".join(d.key for d in dims), body.key)


def seg_split(a, m):
    """seg(lo,hi) = sum_w seg(lo,m) seg(m,hi) (requires lo<=m<=hi)"""
    t, us, vs, dims, body, lo, hi, i, j = open_seg(a)
    ws = []
    dm = seg_dim(dims, m)
    for d in dm:
        ws.append(C.fresh(0, d))
    w = [ivar(x) for x in ws]
    l = mkseg(t, us, vs, dims, body, lo, I(m), i, w)
    t, us, vs, dims, body, lo, hi, i, j = open_seg(a)
    r = mkseg(t, us, vs, dims, body, I(m), hi, w, j)
    # specialise both pieces before they meet (equal kernels would be joined again)
    return msum([(x, I(0), d) for x, d in zip(ws, dm)], resimplify(l) * resimplify(r))


# ------------------------------------------------------------------ traversal
def walk_atoms(p, out=None, inside=True):
    """all atoms occurring in p, including inside sums and nonlinear functions"""
    if out is None:
        out = {}
    for m in p.d:
        for a, _ in m:
            _walk(a, out)
    return out


def _walk(a, out):
    if a.key in out:
        return
    out[a.key] = a
    k = a.kind
    if k == "S":
        for b, _ in a.args[1]:
            _walk(b, out)
    elif k in ("abs", "log", "val", "powi"):
        walk_atoms(a.args[0], out)
    elif k == "E":
        for b, _ in a.args[0]:
            _walk(b, out)
    elif k == "seg":
        walk_atoms(a.args[4], out)
    elif k == "fn":
        for x in a.args[1]:
            if isinstance(x, Poly):
                walk_atoms(x, out)
    elif k == "ind":
        for x in a.args[0].args:
            if isinstance(x, Poly):
                walk_atoms(x, out)


def rewrite(p, f):
    """bottom-up rewriting: f(atom) -> Poly or None, applied to atoms everywhere except inside seg kernels"""
    def g(a):
        r = f(a)
        if r is not None:
            return r
        k = a.kind
        if k == "S":
            bs, body = open_S(a)
            nb = rewrite(body, f)
            return None if nb.d == body.d else msum(bs, nb)
        if k in ("abs", "log", "val"):
            q = rewrite(a.args[0], f)
            if q.d == a.args[0].d:
                return None
            return {"abs": pabs, "log": plog, "val": lambda z: z if len(z.d) <= 1 else P(mkval(z))}[k](q)
        if k == "E":
            m = mono_poly(a.args[0])
            q = rewrite(m, f)
            return None if q.d == m.d else pexp(q)
        if k == "powi":
            q = rewrite(a.args[0], f)
            return None if q.d == a.args[0].d else ppowi(q, a.args[1])
        if k == "fn":
            args = tuple(rewrite(x, f) if isinstance(x, Poly) else x for x in a.args[1])
            if all((x.key == y.key) for x, y in zip(args, a.args[1])):
                return None
            return fn(a.args[0], args, a.args[2], a.args[3])
        if k == "ind":
            c = rewrite_bc(a.args[0], f)
            return None if c is a.args[0] else ind(c)
        return None
    return pmap(p, g)


def rewrite_bc(c, f):
    if c.kind in ("req", "rlt"):
        q = rewrite(c.args[0], f)
        if q.d == c.args[0].d:
            return c
        return mkreq(q) if c.kind == "req" else mkrlt(q)
    if c.kind in ("not", "and", "or"):
        args = [rewrite_bc(x, f) for x in c.args]
        if all(x is y for x, y in zip(args, c.args)):
            return c
        return {"not": bnot, "and": band, "or": bor}[c.kind](*args)
    return c


def resimplify(p):
    """simplify indicators under the current facts, everywhere"""
    def f(a):
        if a.kind == "ind":
            c = rewrite_bc(a.args[0], f)
            r = ind(c)
            if r.d == P(a).d:
                return None
            return r
        if a.kind == "val" and len(a.args[0].d) == 1:
            (m, _), = a.args[0].d.items()
            if m and all(x.kind == "iv" and atom_sign(x) is not None for x, _ in m):
                return a.args[0]
        if a.kind == "seg":
            lo, hi = a.args[5], a.args[6]
            if C.entails(eq(lo, hi)) or C.entails(eq(lo + 1, hi)) or _two(lo, hi):
                t, us, vs, dims, body, lo, hi, i, j = open_seg(a)
                return mkseg(t, us, vs, dims, body, lo, hi, i, j)
            inds = [x for x in top_inds(a.args[4])]
            if inds:
                t, us, vs, dims, body, lo, hi, i, j = open_seg(a)
                nb = resimplify(body)
                if nb.d != body.d:
                    return mkseg(t, us, vs, dims, nb, lo, hi, i, j)
        return None
    return rewrite(p, f)


def subst_facts(p):
    """substitute variables determined by equality facts"""
    for _ in range(6):
        done = True
        for c in list(C.FACTS):
            if c.kind == "eq" and (c.fv & p.fv):
                best = None
                for v in sorted(c.fv):
                    co = c.args[0].lincoeff(v)
                    if co in (1, -1):
                        e = ivar(v) - c.args[0] if co == 1 else c.args[0] + ivar(v)
                        rank = (not v.startswith("?"), len(e.fv), v)
                        if best is None or rank > best[0]:
                            best = (rank, v, e)
                if best and best[1] in p.fv:
                    q = psubst(p, {best[1]: best[2]})
                    if q.d != p.d:
                        p = q
                        done = False
        mp = {}
        for v in p.fv:
            r = C.RNG.get(v)
            if r is None or r[0] is None or r[1] is None:
                continue
            n = (r[1] - r[0]).const()
            if n == 1 or (n is None and C.PINNED and (r[1].fv & C.PINNED) and C.entails(eq(r[1], r[0] + 1))):
                mp[v] = r[0]
        if mp:
            p = psubst(p, mp)
            done = False
        if done:
            break
    return p
