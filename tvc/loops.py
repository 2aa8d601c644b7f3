"""Loop rule.

Loops whose trip count is a concrete number are executed.  A loop with a symbolic trip count is cut by an
invariant: three kinds of paths are explored
  trial : one iteration from the entry state, then one iteration from a havocked state at a generic
          position k; the invariant is read off and *verified* against the havocked iteration
          (so it is inductive), then the path ends
  check : the body is executed from the invariant at a generic k (obligations of the body, early exits)
  exit  : the invariant at k = n (or at n-1 followed by one execution of the body) and on with the code
"""
import itertools
from .ints import *
from .terms import *
from .values import *
from .seqs import *
from .tensor import Tensor, conv, esub, fresh_ix, mk_forall, Storage, ite_k
from . import ctx as C
from .prove import prove_eq


class _Unb:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unb()


def ex_monitor():
    return X().loop_monitor


class Poison:
    """value of a loop-local temporary after havoc"""

    def __init__(self, name):
        self.__dict__["n"] = name

    def _bad(self, *a, **k):
        raise Unsupported("use of loop-carried value %s that has no recognised invariant" % self.__dict__["n"])

    __getattr__ = __call__ = __add__ = __radd__ = __mul__ = __rmul__ = __getitem__ = __iter__ = __bool__ = __sub__ = __rsub__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __truediv__ = __matmul__ = __setitem__ = __len__ = __index__ = __neg__ = __setattr__ = __and__ = _bad
    __eq__ = __ne__ = _bad
    __hash__ = object.__hash__


class Bad(Exception):
    """no invariant recognised"""


def same_value(a, b):
    if a is b:
        return True
    if is_int(a) and is_int(b) and not isinstance(a, bool):
        return as_ip(a) == as_ip(b) or C.entails(eq(as_ip(a), as_ip(b)))
    if isinstance(a, (bool, str, float)) and type(a) is type(b):
        return a == b
    if isinstance(a, SBool) and isinstance(b, SBool):
        return a.bc is b.bc
    if isinstance(a, SReal) and isinstance(b, SReal):
        return a.p.d == b.p.d
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, Tensor) and isinstance(b, Tensor):
        if a.st is b.st and a.vm is None and b.vm is None and len(a.dims) == len(b.dims):
            return True
        if a._dtype is not b._dtype or len(a.dims) != len(b.dims) or not all(same_value(mk_int(x), mk_int(y)) for x, y in zip(a.dims, b.dims)):
            return False
        if a.kind not in "fc":
            return False
        ix = [ivar(x) for x in fresh_ix(a.dims)]
        return a.pel(*ix).d == b.pel(*ix).d
    return False


def serial():
    ex = X()
    ex.nstor = getattr(ex, "nstor", 0) + 1
    return ex.nstor


def anti_unify(a, b, k):
    """pattern g with g(0)=a and g(1)=b, replacing integer constants that grow by one"""
    if a == b:
        return a
    ta, tb = dict(a.t), dict(b.t)
    if len(ta) != len(tb):
        # constants may vanish: try adding k
        d = b - a
        return a + ivar(k) * d if d.const() is not None else None
    d = b - a
    if d.const() is not None:
        return a + ivar(k) * d
    out = I(0)
    la, lb = sorted(a.t, key=lambda z: [repr(x.key) for x in z[0]]), sorted(b.t, key=lambda z: [repr(x.key) for x in z[0]])
    for (ma, ca), (mb, cb) in zip(la, lb):
        if ca != cb or len(ma) != len(mb):
            return None
        t = I(ca)
        for x, y in zip(ma, mb):
            if x is y:
                t = t * IP({(x,): 1})
                continue
            if x.kind != y.kind or x.kind != "app" or x.args[0] != y.args[0]:
                return None
            args = [anti_unify(p, q, k) for p, q in zip(x.args[1:], y.args[1:])]
            if any(z is None for z in args):
                return None
            t = t * iapp(x.args[0], *args)
        out = out + t
    return out


class Table:
    def __init__(self):
        self.plans = []
        self.peel = False
        self.fail = None
        self.n = None
        self.items = {}
        self.pair = False
        self.same = []


class Loop:
    def __init__(self, site, names):
        self.site, self.names = site, names
        self.rebind = False
        self.vals = {}
        self.state = "init"
        self.segs = None
        self.sname = {}

    # ---------------------------------------------------------------- interface used by transformed code
    def has(self, n):
        return n in self.vals

    def val(self, n):
        return self.vals[n]

    def item(self):
        return self.cur

    # ---------------------------------------------------------------- trial bookkeeping
    def _enter(self, loc):
        self.S0 = {n: loc.get(n, UNBOUND) for n in self.names}
        self.mark = len(X().mutlog)
        self.ser = serial()

    def _heap(self, mark):
        """pre-existing storages and lists mutated since mark"""
        st, ls = [], []
        for e in X().mutlog[mark:]:
            if e[0] == "store":
                if (e[1].sid or 0) <= self.ser and e[1] not in st:
                    st.append(e[1])
            elif e[0] == "list":
                if getattr(e[1], "ser", 0) <= self.ser and not any(e[1] is x for x, _ in ls):
                    ls.append((e[1], e[2]))
            elif e[0] in ("attr", "dict"):
                if not e[2] and X().objser(e[1]) <= self.ser:
                    raise Bad("attribute or dict mutated in a loop with symbolic trip count")
        return st, ls

    def _skeleton(self, S0, S1):
        plan = {}
        for n in self.names:
            a, b = S0[n], S1.get(n, UNBOUND)
            if a is UNBOUND:
                plan[n] = ("tmp",)
            elif b is UNBOUND:
                raise Bad("variable deleted in loop")
            elif isinstance(a, Tensor) and isinstance(b, Tensor) and a is not b and not same_value(a, b):
                if a.kind not in "fc" or b.kind not in "fc":
                    plan[n] = ("tmp",)
                    continue
                if a._dtype is not b._dtype or a.ndim != b.ndim:
                    return None
                dims = []
                for x, y in zip(a.dims, b.dims):
                    if x == y or C.entails(eq(x, y)):
                        dims.append(_norm1(x))
                    else:
                        if x.const() is not None or y.const() is not None:
                            return None
                        g = anti_unify(x, y, "$k")
                        if g is None:
                            return None
                        dims.append(g)
                plan[n] = ("ten", dims, a._dtype)
            elif same_value(a, b):
                plan[n] = ("same", a)
            elif is_int(a) and is_int(b):
                d = as_ip(b) - as_ip(a)
                plan[n] = ("int", as_ip(a), d)
            elif _ghost(a) and type(a) is type(b):
                plan[n] = ("obj", None, tuple((as_ip(x), as_ip(y) - as_ip(x)) for x, y in zip(a._tvc_ints(), b._tvc_ints())))
            elif isinstance(a, (SReal, float, int)) and isinstance(b, (SReal, float, int)):
                plan[n] = ("real",)
            elif isinstance(a, (VList, SSeq, tuple)) and isinstance(b, (VList, SSeq, tuple)):
                pa, pb = SSeq.of(a).p, SSeq.of(b).p
                if len(pb) > len(pa) and _grown(pa, pb):
                    plan[n] = ("list", a, len(pb) - len(pa))
                elif any(isinstance(x, Tensor) for _, x in [z for z in pa if not isinstance(z, Run)]):
                    plan[n] = ("tmp",)
                else:
                    plan[n] = ("tmp",)
            else:
                plan[n] = ("tmp",)
        return plan

    def _havoc(self, plan, kv):
        """abstract state at position kv"""
        self.sym = {}
        self.psd = {n for n, pl in plan.items() if pl[0] == "ten" and self._psd_entry(self.S0[n], pl)}
        vals = {}
        for n, pl in plan.items():
            if pl[0] == "tmp":
                vals[n] = Poison(n)
            elif pl[0] == "same":
                vals[n] = pl[1]
            elif pl[0] == "int":
                vals[n] = mk_int(pl[1] + pl[2] * kv)
            elif pl[0] == "obj":
                vals[n] = self.S0[n]._tvc_make(*[x + d * kv for x, d in pl[2]])
            elif pl[0] == "ten":
                dims = [d.subst({"$k": kv}) for d in pl[1]]
                s = "%s@%s" % (n, serial())
                t = Tensor.sym(s, dims, pl[2], psd=n in self.psd)
                t.st.lin = self.S0[n].lin
                self.sym[n] = s
                vals[n] = t
            elif pl[0] == "real":
                s = "%s@%s" % (n, serial())
                self.sym[n] = s
                vals[n] = mk_real(entry(Sym(s), []))
            elif pl[0] == "list":
                v = self._listval(pl[1], kv, None, pl[2])
                vals[n] = v
        return vals

    def _psd_entry(self, t, pl):
        if len(pl[1]) != 2 or pl[1][0] != pl[1][1] or pl[1][0].const() is not None:
            return False
        x, y = C.fresh(0, pl[1][0]), C.fresh(0, pl[1][0])
        return psd_form(t.pel(ivar(x), ivar(y)), {x: y})

    def _listval(self, v0, kv, gen, m):
        if gen is None:
            def gen(i):
                raise Unsupported("reading back an item appended in the same symbolic loop")
        pc = SSeq.of(v0).p + [blocks(kv, m, gen)]
        if isinstance(v0, VList):
            r = VList()
            r.p = pc
            return r
        return SSeq(pc)

    # ---------------------------------------------------------------- analysis of the generic iteration
    def _analyse(self, plan, H, loc, kn, stores, lists):
        """closed forms; raises Bad.  kn: name of the position variable"""
        k = ivar(kn)
        out = {}
        syms = {s: n for n, s in self.sym.items()}

        def havocs(p):
            if self._reads(p):
                raise Bad("value depends on what the loop writes in place")
            return {syms[a.args[0].name] for a in walk_atoms(p).values() if a.kind == "A" and a.args[0].name in syms}

        tens = {}
        for n, pl in plan.items():
            b = loc.get(n, UNBOUND)
            if pl[0] == "tmp":
                out[n] = ("tmp",)
            elif pl[0] == "same":
                if not same_value(pl[1], b):
                    raise Bad("variable %s is not invariant" % n)
                out[n] = pl
            elif pl[0] == "int":
                if not (is_int(b) and same_value(mk_int(pl[1] + pl[2] * (k + 1)), b)):
                    raise Bad("counter %s is not affine" % n)
                if pl[2].fv & {kn}:
                    raise Bad("counter %s is not affine" % n)
                out[n] = pl
            elif pl[0] == "obj":
                if type(b) is not type(self.S0[n]) or any((d.fv & {kn}) or not same_value(mk_int(x + d * (k + 1)), mk_int(as_ip(y))) for (x, d), y in zip(pl[2], b._tvc_ints())):
                    raise Bad("%s does not change uniformly" % n)
                out[n] = pl
            elif pl[0] == "ten":
                if not isinstance(b, Tensor) or b._dtype is not pl[2] or b.ndim != len(pl[1]):
                    raise Bad("tensor %s changes type" % n)
                for d, e in zip(pl[1], b.dims):
                    if not same_value(mk_int(d.subst({"$k": k + 1})), mk_int(e)):
                        raise Bad("shape of %s is not recognised: %s" % (n, e))
                ix = tuple(C.fresh(0, d.subst({"$k": k + 1})) for d in pl[1])
                tens[n] = (ix, b.pel(*[ivar(x) for x in ix]), b.lin)
            elif pl[0] == "real":
                tens[n] = ((), rp(b), frozenset())
            elif pl[0] == "list":
                pa = SSeq.of(H[n]).p
                pb = SSeq.of(b).p
                if len(pb) != len(pa) + pl[2] or any(isinstance(x, Run) for x in pb[-pl[2]:]):
                    raise Bad("list %s does not grow by the same number of items in every iteration" % n)
                out[n] = ("list", pl[1], pl[2])
        # temporaries: overwritten before being read
        while True:
            live = set()
            for n, (ix, Y, lin) in tens.items():
                live |= havocs(Y)
            dead = [n for n in tens if n not in live]
            for n in dead:
                out[n] = ("tmp",)
                del tens[n]
            if not dead:
                break
        logs = {}
        for n, (ix, Y, lin) in tens.items():
            A = entry(Sym(self.sym[n], self._cplx(plan[n]), False, n in self.psd), [I(0) if C.RNG[x][1].const() == 1 else ivar(x) for x in ix])
            G = Y - A
            if n not in havocs(G):
                logs[n] = (ix, G)
        used = {}
        why_of = {}
        for n, (ix, Y, lin) in list(tens.items()):
            if not havocs(Y) and n not in logs:
                out[n] = ("tmp",)
                del tens[n]
                logs.pop(n, None)
        for n, (ix, Y, lin) in tens.items():
            cands = [None]
            if n not in logs or havocs(logs[n][1]):
                cands += [l for l in logs if l != n and is_real(logs[l][1])]
            elif not havocs(logs[n][1]):
                # plain accumulator, unless it serves as a log scale
                continue
            done = None
            why = None
            for c in cands:
                try:
                    done = self._linear(n, plan[n], ix, Y, lin, c, logs, plan, kn, havocs)
                    break
                except Bad as e:
                    why_of[n] = str(e)
            if done is not None:
                out[n] = done
                if done[5] is not None:
                    used[done[5]] = True
        for n, (ix, Y, lin) in tens.items():
            if n in used:
                out[n] = ("log", plan[n], lin)
            elif n in out:
                pass
            elif n in logs and not havocs(logs[n][1]):
                out[n] = ("acc", plan[n], ix, logs[n][1], lin)
            else:
                raise Bad("no invariant recognised for %s (%s)" % (n, why_of.get(n)))
        for n in out:
            if out[n][0] == "lin" and out[n][5] is not None and out[out[n][5]][0] != "log":
                raise Bad("companion %s" % n)
        st_out = []
        for st, before in stores:
            st_out.append(self._store_plan(st, before, kn, havocs))
        ls_out = []
        for l, before, m in lists:
            if len(l.p) != len(before) + 1 + m or any(isinstance(x, Run) for x in l.p[-m:]) or not _grown(before, l.p):
                raise Bad("list object does not grow by the same number of items in every iteration")
            ls_out.append((l, list(before), m))
        return out, st_out, ls_out

    def _cplx(self, pl):
        return pl[0] == "ten" and pl[2].kind == "c"

    def _linear(self, n, pl, ix, Y, lin, comp, logs, plan, kn, havocs):
        s = self.sym[n]
        cpl = self._cplx(pl)
        if n in self.psd and not psd_form(Y, {ix[0]: ix[1]}):
            raise Bad("update of %s does not preserve positive semidefiniteness" % n)
        dims = pl[1] if pl[0] == "ten" else []
        one = [q for q in range(len(dims)) if dims[q].const() == 1]
        jd = [I(0) if q in one else ivar(x) for q, x in enumerate(ix)]
        if one:
            Y = psubst(Y, {ix[q]: I(0) for q in one})
        if comp is not None:
            lix, G = logs[comp]
            G = G.subst(dict(zip(lix, self._lmap(plan[n], plan[comp], jd))))
            Y = Y * pexp(G)
            Y = resimplify(Y)
        if havocs(Y) - {n}:
            raise Bad("update of %s depends on other loop-carried values" % n)
        occ = [a for a in walk_atoms(Y).values() if a.kind == "A" and a.args[0].name == s]
        for a in occ:
            if a.args[2] and cpl:
                raise Bad("conjugated occurrence of %s" % n)
        dims = pl[1] if pl[0] == "ten" else []
        cs = []
        for q in range(len(dims)):
            if any(a.args[1][q] != jd[q] for a in occ) or ("$k" in dims[q].fv):
                if dims[q].const() == 1:
                    continue
                cs.append(q)
        k = ivar(kn)
        us = tuple(C.fresh(0, dims[q].subst({"$k": k})) for q in cs)
        symb = Sym(s, cpl, False, n in self.psd)

        def f(a):
            if a.kind == "A" and a.args[0] is symb:
                r = ONE
                for q, u in zip(cs, us):
                    r = r * ind(eq(a.args[1][q], ivar(u)))
                return r
            return None
        F = rewrite(Y, f)
        if n in self.psd and not cpl and len(cs) == 2:
            # a symmetric state leaves the order of its two indices open: take the straight pairing
            nm = dict(zip(us + tuple(ix[q] for q in cs), map(ivar, ("$u0", "$u1", "$v0", "$v1"))))
            G = psubst(F, {us[0]: ivar(us[1]), us[1]: ivar(us[0])})
            if psubst(G, nm).key < psubst(F, nm).key:
                F = G
        if havocs(F):
            raise Bad("nonlinear update of %s" % n)
        arg = [jd[q] for q in range(len(dims))]
        for q, u in zip(cs, us):
            arg[q] = ivar(u)
        for q in range(len(dims)):
            if dims[q].const() == 1:
                arg[q] = I(0)
        back = msum([(u, I(0), dims[q].subst({"$k": k})) for q, u in zip(cs, us)], entry(symb, arg) * F)
        r = prove_eq(Y, back)
        if r is not True:
            C.DEBUG and print("NOTLIN", n, Y.key, "\nBACK", back.key, "\nRES", r)
            raise Bad("update of %s is not linear" % n)
        bodyvs = tuple(ix[q] for q in cs)
        return ("lin", pl, ix, cs, (us, bodyvs, F, tuple(dims[q].subst({"$k": ivar("$t")}) for q in cs), kn), comp, lin)

    def _lmap(self, pX, pL, jd):
        """index of the log scale that belongs to entry jd of the tensor"""
        dl = pL[1] if pL[0] == "ten" else []
        dx = pX[1] if pX[0] == "ten" else []
        if len(dl) == len(dx):
            return [I(0) if d.const() == 1 else j for d, j in zip(dl, jd)]
        if len(dl) < len(dx):
            if all(same_value(mk_int(a), mk_int(b)) for a, b in zip(dl, dx)):
                return [jd[q] for q in range(len(dl))]
        raise Bad("log scale has an unexpected shape")

    def _store_plan(self, st, before, kn, havocs):
        """in-place writes: cells solving `coordinate == a*k + b` for the iteration k that writes them.
        plan: (storage, [(condition, iteration, value)], lin) with conditions free of k and pairwise exclusive"""
        new = st.body
        kind = st.kind
        if kind == "b":
            raise Bad("boolean tensor written in a loop")
        if kind == "i":
            return self._store_plan_int(st, before, kn)
        if self._havocs0(new):
            raise Bad("in-place update depends on loop-carried values")
        cands, sel = {}, {}
        for a in walk_atoms(new).values():
            if a.kind == "ind":
                z = self._solve_cell(a.args[0], st, kn)
                if z is not None:
                    cands[z[0].key] = z
                elif kn not in a.args[0].fv and set(a.args[0].fv) & set(st.ix):
                    sel[a.args[0].key] = a.args[0]
        if not cands:
            raise Bad("in-place write pattern not recognised")
        cands = list(cands.values())

        def same(p, q):
            return resimplify(p).d == resimplify(q).d or prove_eq(p, q) is True
        if len(cands) == 1:
            # one equation for all writes: everything else stays in the value
            c, e, div = cands[0]
            with C.assume(bnot(c)):
                if not same(new, before):
                    raise Bad("in-place write pattern not recognised")
            with C.assume(c):
                val = resimplify(new)
            return self._finish_cells(st, [(div, e, psubst(val, {kn: e}))], before)
        # several equations: split on the other conditions on the cell
        if len(sel) > 4:
            raise Bad("in-place write pattern not recognised")
        cells = []
        for bits in itertools.product((True, False), repeat=len(sel)):
            asg = [c if t else bnot(c) for c, t in zip(sel.values(), bits)]
            if C.entails(bnot(band(*asg))):
                continue
            with C.assume(*asg):
                mine = []
                for c, e, div in cands:
                    with C.assume(c, *[bnot(z[0]) for z in cands if z[0] is not c]):
                        if same(new, before):
                            continue
                    with C.assume(c):
                        val = resimplify(new)
                        mine.append((band(div, *asg), e, psubst(val, {kn: e}), c))
                with C.assume(*[bnot(z[3]) for z in mine]):
                    if not same(new, before):
                        raise Bad("in-place write pattern not recognised")
                self._exclusive(mine)
            cells += [z[:3] for z in mine]
        return self._finish_cells(st, cells, before)

    def _havocs0(self, p):
        nms = set(self.sym.values())
        return any(a.kind == "A" and a.args[0].name in nms for a in walk_atoms(p).values())

    def _opaque(self, st):
        """arbitrary contents of a storage written in the loop"""
        nm = "store@%d" % serial()
        if st.kind == "b":
            raise Bad("boolean tensor written in a loop")
        ix = [ivar(x) for x in st.ix]
        if st.kind == "i":
            return iapp(nm, *ix), nm
        return entry(Sym(nm, st.kind == "c"), ix), nm

    def _reads(self, p):
        """the polynomial depends on the contents of a storage written in the loop"""
        nms = set(self.sname.values())
        return any(x.args[0] in nms for x in p.apps) or any(a.kind == "A" and a.args[0].name in nms for a in walk_atoms(p).values())

    def _finish_cells(self, st, cells, before):
        """values may use the previous content of the cell they replace, and nothing else of what the loop writes"""
        me = None
        if st.kind != "i":
            me, = walk_atoms(before)
        for c, e, val in cells:
            left = rewrite(val, lambda a: ZERO if a.key == me else None) if me else val
            if (self._reads(left) if me else set(self.sname.values()) & {x.args[0] for x in left.apps}):
                raise Bad("in-place update reads other cells written by the loop")
        return (st, cells, frozenset(st.lin), me)

    def _exclusive(self, cells):
        for i, x in enumerate(cells):
            for y in cells[:i]:
                if not C.entails(bnot(band(x[0], y[0]))):
                    raise Bad("different iterations may write the same cell: %s" % band(x[0], y[0]).key)

    def _solve_cell(self, cond, st, kn):
        """(condition, position of the iteration that writes a cell, divisibility condition)"""
        for c in _conj(cond):
            if c.kind == "eq" and kn in c.fv:
                co = c.args[0].lincoeff(kn)
                if not co:
                    continue
                num = (ivar(kn) * co - c.args[0]) * (1 if co > 0 else -1)
                if not set(num.fv) & set(st.ix) or kn in num.fv:
                    continue
                co = abs(co)
                return (c, num // co, eq(num % co, 0) if co > 1 else TRUE)
        return None

    def _store_plan_int(self, st, before, kn):
        cells = []
        x = st.body
        while x != before:
            if len(x.t) != 1 or x.t[0][1] != 1 or len(x.t[0][0]) != 1 or x.t[0][0][0].kind != "ite":
                raise Bad("integer tensor written in a loop")
            cond, val, x = x.t[0][0][0].args
            z = self._solve_cell(cond, st, kn)
            rest = [y for y in _conj(cond) if z is None or y is not z[0]]
            if z is None or any(kn in y.fv for y in rest):
                raise Bad("in-place write pattern not recognised")
            c, e, div = z
            cells.append((band(div, *rest), e, val.subst({kn: e})))
        self._exclusive(cells)
        return self._finish_cells(st, cells, before)

    # ---------------------------------------------------------------- closed forms
    def _closed(self, plan, k):
        """values of all loop variables at position k"""
        out, st_out, ls_out = plan
        vals = {}
        tag = serial()
        for n, pl in out.items():
            if pl[0] == "log":
                sk = pl[1]
                if sk[0] == "ten":
                    dims = [d.subst({"$k": k}) for d in sk[1]]
                    t = Tensor.sym("%s@%d" % (n, tag), dims, sk[2])
                    t.st.lin = self.S0[n].lin | pl[2]
                    vals[n] = t
                else:
                    vals[n] = mk_real(entry(Sym("%s@%d" % (n, tag)), []))
        for n, pl in out.items():
            if pl[0] == "tmp":
                vals[n] = Poison(n)
            elif pl[0] == "same":
                vals[n] = pl[1]
            elif pl[0] == "int":
                vals[n] = mk_int(pl[1] + pl[2] * k)
            elif pl[0] == "obj":
                vals[n] = self.S0[n]._tvc_make(*[x + d * k for x, d in pl[2]])
            elif pl[0] == "list":
                vals[n] = self._listval(pl[1], k, self._itemgen(("v", n)), pl[2])
            elif pl[0] in ("lin", "acc"):
                sk = pl[1]
                ten = sk[0] == "ten"
                x0 = self.S0[n]
                dims = [d.subst({"$k": k}) for d in sk[1]] if ten else []
                if pl[0] == "lin":
                    _, _, ix, cs, (us, vs, F, sd, kn), comp, lin = pl

                    def f(*idx, n=n, ix=ix, cs=cs, us=us, vs=vs, F=F, sd=sd, kn=kn, comp=comp, sk=sk, x0=x0, ten=ten):
                        mp = {ix[q]: idx[q] for q in range(len(ix)) if q not in cs}
                        fus = tuple(C.fresh(0, d.subst({"$t": I(0)})) for d in sd)
                        t = C.fresh(0, k)
                        bu = tuple(C.fresh(0, d.subst({"$t": ivar(t)})) for d in sd)
                        bv = tuple(C.fresh(0, d.subst({"$t": ivar(t) + 1})) for d in sd)
                        m2 = dict(mp)
                        m2[kn] = ivar(t)
                        m2.update({a: ivar(b) for a, b in zip(us, bu)})
                        m2.update({a: ivar(b) for a, b in zip(vs, bv)})
                        body = psubst(F, m2)
                        sg = mkseg(t, bu, bv, sd, body, I(0), k, [ivar(u) for u in fus], [idx[q] for q in cs])
                        arg = list(idx)
                        for q, u in zip(cs, fus):
                            arg[q] = ivar(u)
                        base = x0.pel(*arg) if ten else rp(x0)
                        r = msum([(u, I(0), d.subst({"$t": I(0)})) for u, d in zip(fus, sd)], base * sg)
                        if comp is not None:
                            lm = self._lmap(sk, out[comp][1], list(idx))
                            L0, Lk = self.S0[comp], vals[comp]
                            l0 = L0.pel(*_bidx(L0, lm)) if isinstance(L0, Tensor) else rp(L0)
                            lk = Lk.pel(*lm) if isinstance(Lk, Tensor) else rp(Lk)
                            r = r * pexp(l0 - lk)
                        return r
                else:
                    _, _, ix, G, lin = pl

                    def f(*idx, ix=ix, G=G, x0=x0, ten=ten):
                        t = C.fresh(0, k)
                        mp = dict(zip(ix, idx))
                        mp[self.kn] = ivar(t)
                        return (x0.pel(*idx) if ten else rp(x0)) + ssum(t, I(0), k, psubst(G, mp))
                if ten:
                    vals[n] = Tensor.make(dims, sk[2], f, lin=self.S0[n].lin | lin)
                else:
                    vals[n] = mk_real(f())
        for st, cells, lin, me in st_out:
            body = old = self.store0[st.sid]
            for c, e, val in reversed(cells):
                if me is not None:
                    val = rewrite(val, lambda a: old if a.key == me else None)
                body = ite_k(st.kind, band(le(0, e), lt(e, k), c), val, body)
            st.body = body
            st.lin = st.lin | lin
            X().mutlog.append(("store", st))
        for l, before, m in ls_out:
            l.p = list(before) + [blocks(k, m, self._itemgen(("h", self._lid(l))))]
        return vals

    def _lid(self, l):
        return getattr(l, "ser", 0)

    def _itemgen(self, key):
        tb = self.tb

        def gen(i):
            if key not in tb.items:
                raise Unsupported("reading back an item appended in the same symbolic loop")
            v, kn = tb.items[key]
            return subst_value(v, {kn: I(i)})
        return gen

    def _record_items(self, loc, kn):
        out, st_out, ls_out = self.plan
        tb = self.tb
        for n, pl in out.items():
            if pl[0] == "list":
                v = tuple(x[1] for x in SSeq.of(loc[n]).p[-pl[2]:])
                self._put(("v", n), v, kn)
        for l, before, m in ls_out:
            self._put(("h", self._lid(l)), tuple(x[1] for x in l.p[-m:]), kn)

    def _put(self, key, v, kn):
        if key in self.tb.items:
            old = self.tb.items[key]
            if old[2] != X().prefix()[:self.plen]:
                pass
            raise_if = not same_value(subst_value(old[0], {old[1]: ivar(kn)}), v)
            if raise_if:
                raise Unsupported("item appended in a symbolic loop depends on a branch in the body")
        freeze(v, self.ser)
        self.tb.items[key] = Item(v, kn)

    # ---------------------------------------------------------------- driver for one symbolic run
    def _begin(self, loc, n, at, depth=0):
        """start a symbolic segment; returns True when the body is to be executed, False when skipped"""
        ex = X()
        self.n, self.at = n, at
        self.plen = len(ex.prefix())
        key = (self.site, ex.prefix(), depth)
        self.depth = depth
        self.tb = ex.tables.setdefault(key, Table())
        self._enter(loc)
        c = ex.choose(3, "loop@%s" % self.site)
        if c == 0:
            ex.muted += 1
            self.phase = "probe"
            self.cur = at(I(0)) if at else None
            self.rebind = False
            return True
        tb = self.tb
        if tb.peel:
            if c == 2:
                raise Infeasible()
            self.phase = "peeled"
            self.cur = at(I(0)) if at else None
            self.rebind = False
            return True
        if tb.fail is not None:
            if c == 2:
                raise Infeasible()
            raise Unsupported("loop %s: %s" % (self.site, tb.fail))
        if not tb.plans:
            if c == 2:
                raise Infeasible()
            # no path completes an iteration
            self.phase = "first-only"
            self.cur = at(I(0)) if at else None
            self.rebind = False
            return True
        plan = tb.plans[0]
        self._load_plan(plan)
        if c == 1:
            kn = C.fresh(0, self.n)
            self.kc = kn
            k = ivar(kn)
            self._forall(plan, k)
            self.vals = self._closed(self.plan, k)
            self.phase = "check"
            self.cur = self._item(k)
            self.rebind = True
            self.facts0 = len(C.FACTS)
            return True
        ex.note("loop@" + self.site)
        if ex.loop_exit == "last":
            k = self.n - 1
            self._forall(plan, k)
            self.vals = self._closed(self.plan, k)
            self.cur = self._item(k)
            self.phase = "last"
            self.rebind = True
            return True
        self._forall(plan, self.n)
        self.vals = self._closed(self.plan, self.n)
        self.rebind = True
        self.phase = "done"
        return False

    def _item(self, k):
        return self.at(k) if self.at else None

    def _load_plan(self, plan):
        """plans are stored with descriptions of heap objects by serial; re-bind them to this path's objects"""
        out, stp, lsp, cont, kn, n = plan
        self.kn = kn
        C.RNG.setdefault(kn, (I(0), self.n))
        if n is not None:
            self.n = n
        objs = X().heap
        st_out = [(objs[z[0]],) + tuple(z[1:]) for z in stp]
        self.store0 = {z[0].sid: z[0].body for z in st_out}
        ls_out = [(objs[ser], list(objs[ser].p), m) for ser, m in lsp]
        o2 = {}
        for nme, pl in out.items():
            if pl[0] == "same":
                o2[nme] = ("same", self.S0[nme])
            elif pl[0] == "list":
                o2[nme] = ("list", self.S0[nme], pl[2])
            else:
                o2[nme] = pl
        self.plan = (o2, st_out, ls_out)

    def _forall(self, plan, k):
        cont, kn = plan[3], plan[4]
        for f in cont:
            v = C.fresh(0, k)
            b = f.subst({kn: ivar(v)})
            C.add_fact(mk_forall(v, k, b))

    def _step(self, loc):
        """called at the loop head while a symbolic segment is active; True = execute body, False = segment over"""
        ex = X()
        ph = self.phase
        if ph == "probe":
            try:
                S1 = {n: loc.get(n, UNBOUND) for n in self.names}
                st, ls = self._heap(self.mark)
                plan = self._skeleton(self.S0, S1)
                if plan is None:
                    if self.depth >= 2:
                        raise Bad("shapes of loop-carried tensors keep changing")
                    self.tb.peel = True
                    raise PathEnd()
                kn = C.fresh(0, self.n)
                self.kn = kn
                self.skel = plan
                # storages written in the loop restart from their body before the iteration
                self.sname = {}
                self.stores = []
                for s in st:
                    s.body, nm = self._opaque(s)
                    self.sname[s.sid] = nm
                    self.stores.append((s, s.body))
                self.lists = [(l, before, len(l.p) - len(before)) for l, before in ls]
                for l, before, m in self.lists:
                    if m < 1 or not _grown(before, l.p) or any(isinstance(x, Run) for x in l.p[-m:]):
                        raise Bad("list object does not grow by the same number of items in every iteration")
                for l, before, m in self.lists:
                    l.p = before + [blocks(ivar(kn), m, _noread)]
                self.vals = self._havoc(plan, ivar(kn))
                for n2, pl in plan.items():
                    if pl[0] == "ten":
                        self.vals[n2].st.lin = self.S0[n2].lin | S1[n2].lin
                self.H = dict(self.vals)
                self.mark2 = len(ex.mutlog)
                self.cur = self.at(ivar(kn)) if self.at else None
                self.rebind = True
                self.phase = "generic"
                self.facts2 = len(C.FACTS)
                return True
            except Bad as e:
                self.tb.fail = self.tb.fail or str(e)
                raise PathEnd()
        if ph == "generic":
            try:
                st, ls = self._heap(self.mark2)
                for s in st:
                    if not any(s is x for x, _ in self.stores):
                        raise Bad("tensor modified irregularly")
                out, so, lo = self._analyse(self.skel, self.H, loc, self.kn, self.stores, self.lists)
                cont = [f for f in C.FACTS[self.facts2:] if self.kn in f.fv and not self._mentions_havoc(f)]
                plan = (out, [(z[0].sid,) + tuple(z[1:]) for z in so], [(l.ser, m) for l, _, m in lo], cont, self.kn, getattr(self, "nfix", None))
                if self.tb.plans:
                    # several paths through the body: they must agree (facts are then dropped)
                    if not _plans_agree(self.tb.plans[0], plan):
                        raise Bad("different branches of the loop body need different invariants")
                    p0 = self.tb.plans[0]
                    self.tb.plans[0] = p0[:3] + ([],) + p0[4:]
                else:
                    self.tb.plans.append(plan)
                ex.inv_ok = getattr(ex, "inv_ok", 0) + 1
            except Bad as e:
                self.tb.fail = self.tb.fail or str(e)
            raise PathEnd()
        if ph in ("check", "last", "peeled") and ex.loop_monitor is not None:
            # state after an arbitrary iteration (the last one, the first one)
            ex.loop_monitor(self.site, {n: loc[n] for n in self.names if n in loc and (ph == "peeled" or not isinstance(self.vals.get(n), Poison))})
        if ph == "check":
            self._record_items(loc, self.kc)
            raise PathEnd()
        if ph == "last":
            self.rebind = False
            self.phase = "done"
            return False
        if ph == "peeled":
            n1 = self.n - 1
            if not decide(le(1, n1)):
                self.phase = "done"
                self.rebind = False
                return False
            at0 = self.at
            return self._begin(loc, n1, (lambda i: at0(i + 1)) if at0 else None, self.depth + 1)
        if ph == "first-only":
            raise Unsupported("loop %s: body reached the next iteration unexpectedly" % self.site)
        raise AssertionError(ph)

    def _mentions_havoc(self, f):
        names = set(self.sym.values()) | set(self.sname.values())
        return any(a.kind == "A" and a.args[0].name in names for a in _fact_atoms(f)) or any(x.args[0] in names for x in f.apps)

    def brk(self):
        """a break leaves the loop"""
        if self.state == "sym" and self.phase in ("probe", "generic"):
            raise PathEnd()


def _grown(pa, pb):
    """the pieces pb continue the pieces pa"""
    return len(pb) >= len(pa) and all(x is y or (not isinstance(x, Run) and not isinstance(y, Run) and x[1] is y[1]) for x, y in zip(pa, pb))


class Item(tuple):
    def __new__(cls, v, kn):
        return tuple.__new__(cls, (v, kn))


def _noread(i):
    raise Unsupported("reading back an item appended in the same symbolic loop")


def _ghost(v):
    """ghost objects of the contracts whose state is a tuple of integers"""
    return hasattr(type(v), "_tvc_ints")


def _norm1(d):
    """dimensions that are 1 on this path become constant"""
    return I(1) if d.const() is None and C.entails(eq(d, 1)) else d


def _conj(c):
    return c.args if c.kind == "and" else (c,)


def _fact_atoms(f):
    out = {}
    for x in f.args:
        if isinstance(x, Poly):
            walk_atoms(x, out)
        elif isinstance(x, BC):
            for a in _fact_atoms(x):
                out[a.key] = a
    return list(out.values())


def _bidx(t, lm):
    return [I(0) if d.const() == 1 else i for d, i in zip(t.dims, lm)]


def _plans_agree(p, q):
    o1, o2 = p[0], q[0]
    if set(o1) != set(o2):
        return False
    for n in o1:
        a, b = o1[n], o2[n]
        if a[0] != b[0]:
            return False
        if a[0] == "int" and (a[1] != b[1] or a[2] != b[2]):
            return False
        if a[0] == "obj" and a[2] != b[2]:
            return False
        if a[0] == "lin":
            mp = {x: ivar(y) for x, y in zip(a[2], b[2])}
            mp.update({x: ivar(y) for x, y in zip(a[4][0], b[4][0])})
            mp[a[4][4]] = ivar(b[4][4])
            if a[3] != b[3] or a[5] != b[5] or psubst(a[4][2], mp).d != b[4][2].d:
                return False
        if a[0] == "acc":
            mp = {x: ivar(y) for x, y in zip(a[2], b[2])}
            mp[p[4]] = ivar(q[4])
            if psubst(a[3], mp).d != b[3].d:
                return False
    if [x[0] for x in p[1]] != [x[0] for x in q[1]] or p[2] != q[2]:
        return False
    for x, y in zip(p[1], q[1]):
        if len(x[1]) != len(y[1]):
            return False
        for (c1, e1, v1), (c2, e2, v2) in zip(x[1], y[1]):
            if c1 is not c2 or e1 != e2 or (v1 != v2 if isinstance(v1, IP) else v1.d != v2.d):
                return False
    return True


class For(Loop):
    def __init__(self, it, site, names):
        super().__init__(site, names)
        self.native = None
        if isinstance(it, VList) and not any(isinstance(x, Run) for x in it.p):
            self.native = it._live_iter()
        elif isinstance(it, Tensor) or hasattr(it, "_vc_seq") or isinstance(it, (SSeq, VList)):
            s = SSeq.of(it)
            s = s.settle() if s.clen() is None else s
            if s.clen() is not None:
                self.native = iter(s.concrete())
            else:
                self.pieces = list(s.p)
        else:
            self.native = iter(it)

    inblocks, block, sub = False, None, 0

    def _open(self):
        """an iteration over a block executes the body once per item"""
        self.block = None
        if self.inblocks:
            self.block, self.sub = self.cur, 1
            self.cur = self.block[0]

    def head(self, loc):
        if self.native is not None:
            try:
                self.cur = next(self.native)
                return True
            except StopIteration:
                return False
        upd = {}
        if self.state == "sym":
            if self.block is not None and self.sub < len(self.block):
                # next item of the current block
                self.cur = self.block[self.sub]
                self.sub += 1
                self.rebind = False
                return True
            if self._step(loc):
                self._open()
                return True
            self.state = "between"
            if self.rebind:
                upd.update(self.vals)
        merged = dict(loc)
        merged.update(upd)
        while self.pieces:
            p = self.pieces.pop(0)
            if not isinstance(p, Run):
                self.cur = p[1]
                self.vals, self.rebind = upd, bool(upd)
                return True
            if not decide(le(1, p.n)):
                continue
            self.state = "sym"
            self.inblocks = isinstance(p, BRun)
            r = self._begin(merged, p.nb, p.block) if self.inblocks else self._begin(merged, p.n, p.at)
            if r:
                self._open()
                if not self.rebind:
                    self.vals, self.rebind = upd, bool(upd)
                return True
            upd.update(self.vals)
            merged.update(self.vals)
            self.state = "between"
        self.vals, self.rebind = upd, bool(upd)
        return False


class While(Loop):
    """while loops: executed while the condition is concrete, cut by an invariant otherwise"""

    def head(self, loc):
        self.loc = loc
        if self.state == "sym":
            if self.fold is not None:
                return self._fold_step(loc)
            if self.pair is not None:
                return self._pair_step(loc)
            self._pending = self._step(loc)
            return True
        return True

    def __init__(self, site, names):
        super().__init__(site, names)
        self.pair = None
        self.fold = None
        self._pending = None
        self.count = 0

    def test(self, cond):
        """called with the value of the condition; returns whether the body is to be executed"""
        loc = self.loc
        if self.state != "sym":
            self.rebind = False
            if not isinstance(cond, SBool):
                if hasattr(cond, "_as_bc"):
                    cond = mk_bool(cond._as_bc())
                if not isinstance(cond, SBool):
                    return bool(cond)
            bc = C.simp_bc(cond.bc)
            if bc is FALSE:
                return False
            if not decide(bc):
                return False
            return self._start(loc, cond)
        if self.fold is not None:
            return self._fold_test(cond)
        if self.pair is not None:
            return self._pair_test(cond)
        ph = self.phase
        if ph in ("generic",) and self._pending is not None:
            # generic iteration: find the trip count from the condition at k
            self._pending = None
            bc = as_bc(cond)
            n = self._solve(bc, self.kn)
            if n is None:
                self.tb.fail = self.tb.fail or "loop condition not recognised"
                raise PathEnd()
            self.nfix = n
            C.RNG[self.kn] = (I(0), n)
            C.add_fact(bc) if bc is not TRUE else None
            self.facts2 = len(C.FACTS)
            return True
        if ph == "done":
            # condition at the exit state must be false
            bc = as_bc(cond)
            if bc is FALSE or C.entails(bnot(bc)):
                return False
            raise Unsupported("loop %s: condition not refuted at exit" % self.site)
        if ph in ("check", "last", "first-only", "peeled", "probe"):
            bc = as_bc(cond)
            if bc is TRUE or C.entails(bc) or ph in ("probe", "peeled"):
                return decide(bc)
            raise Unsupported("loop %s: condition not implied" % self.site)
        return decide(as_bc(cond))

    def _solve(self, bc, kn):
        if bc.kind == "not" and bc.args[0].kind == "eq":
            p = bc.args[0].args[0]
            co = p.lincoeff(kn)
            if co in (1, -1):
                r = p - ivar(kn) * co
                return -r * co
            return None
        if bc.kind != "le":
            return None
        p = bc.args[0]
        co = p.lincoeff(kn)
        if not co or co < 0:
            return None
        r = p - ivar(kn) * co
        if kn in r.fv:
            return None
        return (-r) // co + 1

    def _start(self, loc, cond):
        ex = X()
        m = self._pair_candidate(loc, cond)
        self.state = "sym"
        if m is None:
            l = self._fold_candidate(loc)
            if l is not None:
                return self._fold_begin(loc, l)
        if m is not None:
            return self._pair_begin(loc, m)
        self._enter(loc)
        # trip count unknown until the generic iteration; position variable ranges over naturals
        big = None
        self.n = None
        self.at = None
        self.depth = 0
        self.plen = len(ex.prefix())
        key = (self.site, ex.prefix(), 0)
        self.tb = ex.tables.setdefault(key, Table())
        c = ex.choose(3, "loop@%s" % self.site)
        if c == 0:
            ex.muted += 1
            self.phase = "probe"
            self.rebind = False
            return True
        tb = self.tb
        if tb.fail is not None or tb.peel:
            if c == 2:
                raise Infeasible()
            raise Unsupported("loop %s: %s" % (self.site, tb.fail or "shape changes in while loop"))
        if not tb.plans:
            if c == 2:
                raise Infeasible()
            self.phase = "first-only"
            self.rebind = False
            return True
        plan = tb.plans[0]
        self.n = plan[5]
        self._load_plan(plan)
        if c == 1:
            kn = C.fresh(0, self.n)
            self.kc = kn
            k = ivar(kn)
            self._forall(plan, k)
            self.vals = self._closed(self.plan, k)
            self.phase = "check"
            self.rebind = True
            return self.AGAIN
        if ex.loop_exit == "last":
            k = self.n - 1
            self._forall(plan, k)
            self.vals = self._closed(self.plan, k)
            self.phase = "last"
            self.rebind = True
            return self.AGAIN
        self._forall(plan, self.n)
        self.vals = self._closed(self.plan, self.n)
        self.rebind = True
        self.phase = "done"
        return self.AGAIN

    AGAIN = "again"

    # -------------------------------------------------------------- a list of words folded into one
    # Ghost items are words [a, b); invariant: the items of the list are consecutive words covering
    # what they covered before the loop.  One iteration from an arbitrary such list must restore it
    # with fewer items; at the exit the list is an arbitrary such list that refutes the condition.
    def _fold_candidate(self, loc):
        ls = []
        for v in loc.values():
            if isinstance(v, VList) and any(isinstance(x, Run) for x in v.p) and not any(v is z for z in ls):
                if all(_ghost(x.at(I(0)) if isinstance(x, Run) else x[1]) for x in v.p):
                    ls.append(v)
        return ls[0] if len(ls) == 1 else None

    def _cover(self, l):
        """(start, end, count) of a list of consecutive words"""
        pos = start = None
        cnt = I(0)
        for x in l.p:
            if isinstance(x, Run):
                if not decide(le(1, x.n)):
                    continue
                a = as_ip(x.at(I(0))._tvc_ints()[0])
                if not C.entails(le(x.n, 1)):
                    i = ivar(C.fresh(0, x.n - 1))
                    if not C.entails(eq(as_ip(x.at(i)._tvc_ints()[1]), as_ip(x.at(i + 1)._tvc_ints()[0]))):
                        return None
                b, n = as_ip(x.at(x.n - 1)._tvc_ints()[1]), x.n
            else:
                if not _ghost(x[1]):
                    return None
                (a, b), n = [as_ip(z) for z in x[1]._tvc_ints()], I(1)
            if pos is None:
                start = a
            elif not C.entails(eq(a, pos)):
                return None
            pos, cnt = b, cnt + n
        return None if pos is None else (start, pos, cnt)

    def _fold_begin(self, loc, l):
        ex = X()
        self.fold = l
        self._enter(loc)
        g = next(x.at(I(0)) if isinstance(x, Run) else x[1] for x in l.p)
        cov = self._cover(l)
        if cov is None:
            raise Unsupported("loop %s: list of words is not consecutive" % self.site)
        self.cov = cov
        c = ex.choose(2, "loop@%s" % self.site)
        m = ivar(C.fresh(1, None))
        nm = "cut@%s" % serial()
        q = lambda i: iapp(nm, I(i))
        C.add_fact(eq(q(0), cov[0]))
        C.add_fact(eq(q(m), cov[1]))
        l._mut()
        l.p = [Run(m, lambda i: g._tvc_make(q(i), q(i + 1)))]
        self.m = m
        self.vals = {n: (v if v is l else Poison(n)) for n, v in self.S0.items() if v is not UNBOUND}
        self.rebind = bool(self.vals)
        self.phase = "fold" if c == 0 else "folded"
        if c:
            ex.note("loop@" + self.site)
        return self.AGAIN

    def _fold_test(self, cond):
        bc = as_bc(cond)
        if self.phase == "fold":
            if not decide(bc):
                raise PathEnd()
            self.mark2 = len(X().mutlog)
            return True
        if decide(bc):
            raise PathEnd()
        return False

    def _fold_step(self, loc):
        st, ls = self._heap(self.mark2)
        if st or any(x is not self.fold for x, _ in ls) or any(loc.get(n, UNBOUND) is not self.S0[n] and self.S0[n] is self.fold for n in self.names):
            raise Unsupported("loop %s: more than one list is changed" % self.site)
        cov = self._cover(self.fold)
        if cov is None or not C.entails(band(eq(cov[0], self.cov[0]), eq(cov[1], self.cov[1]))):
            raise Unsupported("loop %s: the words do not stay consecutive" % self.site)
        if not C.entails(lt(cov[2], self.m)):
            raise Unsupported("loop %s: the list does not get shorter" % self.site)
        X().inv_ok = getattr(X(), "inv_ok", 0) + 1
        raise PathEnd()

    # -------------------------------------------------------------- pairwise products
    def _pair_candidate(self, loc, cond):
        """int variable n and a tensor with an axis of that length, both assigned in the loop"""
        bc = cond.bc
        if bc.kind != "le":
            return None
        for n in self.names:
            v = loc.get(n)
            if isinstance(v, SInt) and bc is lt(1, v.ip):
                for t in self.names:
                    w = loc.get(t)
                    if isinstance(w, Tensor) and w.kind in "fc":
                        for q in range(w.ndim - 2):
                            if w.dims[q] == v.ip and q == w.ndim - 3:
                                return (n, t, q)
        # the condition may use the size of the tensor directly
        for t in self.names:
            w = loc.get(t)
            if isinstance(w, Tensor) and w.kind in "fc" and w.ndim >= 3 and bc is lt(1, w.dims[w.ndim - 3]):
                return (None, t, w.ndim - 3)
        return None

    def _pair_begin(self, loc, m):
        ex = X()
        self.pair = m
        n, t, q = m
        self._enter(loc)
        key = (self.site, ex.prefix(), "pair")
        self.tb = ex.tables.setdefault(key, Table())
        w = loc[t]
        if w.dims[-1] != w.dims[-2]:
            raise Unsupported("pairwise product of non-square matrices")
        c = ex.choose(2, "pair loop@%s" % self.site)
        logs = []
        names = [x for x in self.names if loc.get(x, UNBOUND) is not UNBOUND]
        self.W0 = w
        ints = [x for x in names if is_int(loc[x]) and not isinstance(loc[x], bool)]
        fl = [x for x in names if isinstance(loc[x], Tensor) and x != t and loc[x].kind == "f"]
        if c == 0:
            # generic iteration at a generic length
            par = ex.choose(2, "parity@%s" % self.site)
            mv = C.fresh(1, None)
            self.par = par
            self.len = ivar(mv) * 2 + par
            dims = list(w.dims)
            dims[q] = self.len
            tag = serial()
            W = Tensor.sym("%s@%d" % (t, tag), dims, w._dtype)
            W.st.lin = w.st.lin | w.lin
            self.vals = {x: Poison(x) for x in names}
            self.vals[t] = W
            if n is not None:
                self.vals[n] = mk_int(self.len)
            for x in names:
                if x in (t, n):
                    continue
                if x in fl:
                    L = Tensor.sym("%s@%d" % (x, tag), loc[x].dims, loc[x]._dtype)
                    L.st.lin = loc[x].lin
                    self.vals[x] = L
                elif is_int(loc[x]) and x != n:
                    # another copy of the length, or unrelated
                    if as_ip(loc[x]) == w.dims[q]:
                        self.vals[x] = mk_int(self.len)
            self.H = dict(self.vals)
            self.mv, self.tag, self.fl = mv, tag, fl
            self.rebind = True
            self.phase = "pgen"
            return self.AGAIN
        tb = self.tb
        if tb.fail is not None or not tb.plans:
            raise Unsupported("loop %s: %s" % (self.site, tb.fail or "no iteration completes"))
        lname, linx = tb.plans[0]
        tag = serial()
        dims = list(w.dims)
        n0 = w.dims[q]
        dims[q] = I(1)
        self.vals = {x: Poison(x) for x in names}
        lk = None
        if lname is not None:
            L0 = loc[lname]
            Lk = Tensor.sym("%s@%d" % (lname, tag), L0.dims, L0._dtype)
            Lk.st.lin = L0.lin | linx
            self.vals[lname] = Lk
            lk = (L0, Lk)
        D = w.dims[-1]

        def f(*idx):
            tt = C.fresh(0, n0)
            u, v = C.fresh(0, D), C.fresh(0, D)
            arg = list(idx)
            arg[q] = ivar(tt)
            arg[-2], arg[-1] = ivar(u), ivar(v)
            r = mkseg(tt, (u,), (v,), (D,), w.pel(*arg), I(0), n0, [idx[-2]], [idx[-1]])
            if lk is not None:
                lm = self._pmap(lk[0], idx, q)
                r = r * pexp(lk[0].pel(*lm) - lk[1].pel(*lm))
            return r
        self.vals[t] = Tensor.make(dims, w._dtype, f, lin=w.lin | linx)
        if n is not None:
            self.vals[n] = 1
        for x in names:
            if is_int(loc[x]) and x != n and as_ip(loc[x]) == n0:
                self.vals[x] = 1
            elif same_value(loc[x], loc[x]) and x in tb.same:
                self.vals[x] = loc[x]
        ex.note("pair-loop@" + self.site)
        if ex.loop_exit == "last":
            # state after the last iteration: a generic pair (2 matrices whose product times e^L is the total)
            self.phase = "plast"
            dims2 = list(w.dims)
            dims2[q] = I(2)
            W = Tensor.sym("%s@%d" % (t, tag), dims2, w._dtype)
            W.st.lin = w.lin | linx
            self.vals[t] = W
            if n is not None:
                self.vals[n] = 2
            for x in names:
                if is_int(loc[x]) and x != n and as_ip(loc[x]) == n0:
                    self.vals[x] = 2
            self.rebind = True
            return self.AGAIN
        self.rebind = True
        self.phase = "pdone"
        return self.AGAIN

    def _pmap(self, L, idx, q):
        """log-scale index for a matrix-tensor index: batch axes left of q, trailing singletons"""
        b = list(idx[:q])
        out = []
        for d_i, d in enumerate(L.dims):
            if d_i < len(b) and d.const() != 1:
                out.append(b[d_i])
            elif d.const() == 1 or C.entails(eq(d, 1)):
                out.append(I(0))
            elif d_i < len(b):
                out.append(b[d_i])
            else:
                raise Bad("log scale shape")
        return out

    def _pair_test(self, cond):
        ph = self.phase
        bc = as_bc(cond)
        if ph == "pgen":
            if not (bc is TRUE or C.entails(bc)):
                self.tb.fail = self.tb.fail or "loop condition not implied by length >= 2"
                raise PathEnd()
            self.rebind = False
            return True
        if ph == "plast":
            if bc is TRUE or C.entails(bc):
                self.rebind = False
                self.phase = "plast2"
                return True
            raise Unsupported("loop condition at length 2")
        if ph in ("plast2", "pdone"):
            if bc is FALSE or C.entails(bnot(bc)):
                return False
            raise Unsupported("loop %s: condition not refuted at length 1" % self.site)
        raise AssertionError(ph)

    def _pair_step(self, loc):
        if self.phase in ("plast2",):
            return True
        if self.phase == "pgen":
            if ex_monitor() is not None:
                # a round of a generic length, with an even or odd number of matrices
                ex_monitor()(self.site, {n: loc[n] for n in self.names if n in loc and not isinstance(self.H.get(n), Poison)})
            try:
                self._pair_verify(loc)
            except Bad as e:
                self.tb.fail = self.tb.fail or str(e)
            raise PathEnd()
        return True

    def _pair_verify(self, loc):
        n, t, q = self.pair
        h, par = ivar(self.mv), self.par
        m = self.len
        W, V = self.H[t], loc[t]
        if not isinstance(V, Tensor) or V.ndim != W.ndim or V._dtype is not W._dtype:
            raise Bad("matrix tensor changes type")
        half = h + par
        for d in range(V.ndim):
            want = half if d == q else W.dims[d]
            if not same_value(mk_int(V.dims[d]), mk_int(want)):
                raise Bad("shape after one round: axis %d is %s" % (d, V.dims[d]))
        if n is not None and not same_value(loc[n], mk_int(half)):
            raise Bad("length counter does not follow the number of matrices")
        for x in self.H:
            if is_int(self.H[x]) and x != n and not (is_int(loc.get(x)) and same_value(loc[x], mk_int(half))):
                raise Bad("length counter")
        # rescaling
        lname = None
        for x in self.fl:
            if not same_value(self.H[x], loc[x]):
                if lname is not None:
                    raise Bad("several accumulators")
                lname = x
        linx = V.lin
        bix = [C.fresh(0, d) for d in W.dims[:q]]
        b = [ivar(x) for x in bix]
        D = W.dims[-1]
        i, j = ivar(C.fresh(0, D)), ivar(C.fresh(0, D))
        resc = None
        if lname is not None:
            L, L2 = self.H[lname], loc[lname]
            linx = linx | L2.lin
            if not all(same_value(mk_int(x), mk_int(y)) for x, y in zip(L.dims, L2.dims)) or L.ndim != L2.ndim:
                raise Bad("log scale changes shape")
            lm = self._pmap(L, b + [I(0)], q)
            G = L2.pel(*lm) - L.pel(*lm)
            resc = _sum_log(G, self.mv, par)
            if resc is None:
                C.DEBUG and print("PAIRLOG", G.key)
                raise Bad("log scale is not increased by a sum of logarithms over the matrices")
        else:
            resc = lambda s: ONE
        s = C.fresh(0, h)
        lhs = V.pel(*(b + [ivar(s), i, j])) * resc(ivar(s))
        u = C.fresh(0, D)
        rhs = ssum(u, I(0), D, W.pel(*(b + [ivar(s) * 2, i, ivar(u)])) * W.pel(*(b + [ivar(s) * 2 + 1, ivar(u), j])))
        r = prove_eq(lhs, rhs)
        if r is not True:
            raise Bad("pair product not recognised: " + r[:500])
        if par:
            lhs = V.pel(*(b + [h, i, j])) * resc(None)
            r = prove_eq(lhs, W.pel(*(b + [m - 1, i, j])))
            if r is not True:
                raise Bad("left-over matrix not preserved: " + r[:500])
        self.tb.same = [x for x in self.H if x not in (t, n, lname) and not isinstance(self.H[x], Poison) and same_value(self.H[x], loc.get(x))]
        pl = (lname, linx)
        if self.tb.plans and self.tb.plans[0][0] != lname:
            raise Bad("branches differ")
        self.tb.plans.append(pl)
        X().inv_ok = getattr(X(), "inv_ok", 0) + 1


def _sum_log(G, hv, par):
    """G = sum_{s<h} log r(s) (+ log r_last)  ->  r as a function of s (None: the left-over matrix)"""
    h = ivar(hv)
    parts = []
    rest = ZERO
    for mo, c in G.d.items():
        done = False
        Ss = [(z, e) for z, e in mo if z.kind == "S" and (hv in z.fv)]
        if len(Ss) == 1 and Ss[0][1] == 1:
            bs, body = open_S(Ss[0][0])
            oth = Poly({tuple(z for z in mo if z[0] is not Ss[0][0]): c})
            if hv in oth.fv:
                return None
            n = bs[0][2] - bs[0][1]
            if len(bs) == 1 and (n == h or (par and n == h + 1)):
                x = C.fresh(0, h)
                parts.append((x, resimplify(psubst(body, {bs[0][0]: ivar(x) + bs[0][1]})) * oth))
                if n != h:
                    rest = rest + resimplify(psubst(body, {bs[0][0]: h + bs[0][1]})) * oth
                done = True
            elif any(hv in x[1].fv or hv in x[2].fv for x in bs):
                return None
        elif Ss:
            return None
        if not done:
            hs = [(a, e) for a, e in mo if a.kind == "iv" and hv in _iv_fv(a)]
            if hs:
                if len(hs) != 1 or hs[0][1] != 1 or hs[0][0].args[0].key != h.key:
                    return None
                parts.append((None, Poly({tuple(z for z in mo if z[0] is not hs[0][0]): c})))
            else:
                rest = rest + Poly({mo: c})
    if not par and rest.d:
        return None

    def r(s):
        if s is None:
            return pexp(rest)
        e = ZERO
        for x, body in parts:
            e = e + (psubst(body, {x: I(s)}) if x else body)
        return pexp(e)
    return r


def _iv_fv(a):
    return a.args[0].fv
