"""Adaptive MPS with an arbitrary number of inputs (C03, C10, C12, C13)."""
from .spec import *
from tvc.seqs import Run, SSeq, VList
from tvc.values import rp, mk_real
from .c_adapt import MP, CT, need, FN, build
from .c_sup import frozen


def chain(m):
    """the cores of the current merge state, from the left: ("run", count, f(s, i, j, x)) / ("one", f(i, j, x, o))"""
    tm = m.tm
    out = []
    t = I(0)
    for mod in m.lr.module_list:
        T_ = frozen(mod.tensor)
        if isinstance(mod, tm.MergedInput):
            k = mod.tensor.dims[0]
            out.append(("run", k, lambda s, i, j, x, T_=T_, t=t: total(m.d, lambda p: total(m.d, lambda q: T_(s, i, j, p, q) * x(t + s * 2, p) * x(t + s * 2 + 1, q)))))
            t = t + k * 2
        elif isinstance(mod, tm.InputSite):
            out.append(("one", lambda i, j, x, o, T_=T_, t=t: total(m.d, lambda p: T_(i, j, p) * x(t, p))))
            t = t + 1
        elif isinstance(mod, tm.MergedOutput):
            out.append(("one", lambda i, j, x, o, T_=T_, t=t: total(m.d, lambda p: T_(o, i, j, p) * x(t, p))))
            t = t + 1
        elif isinstance(mod, tm.OutputSite):
            out.append(("one", lambda i, j, x, o, T_=T_: T_(o, i, j)))
        else:
            raise Unsupported("module %s in a merged region" % type(mod).__name__)
    holds("every input has a core", eq(t, as_ip(m.n)))
    return out


def contraction(m, ch, x, o):
    def f(c, i, j):
        if c[0] == "one":
            return c[1](i, j, x, o)
        return product(mk_int(c[1]), lambda s, a, b: c[2](s, a, b, x), i, j, m.D)

    def seg(k, i, j):
        if k == len(ch) - 1:
            return f(ch[k], i, j)
        return total(m.D, lambda a: f(ch[k], i, a) * seg(k + 1, a, j))
    return total(m.D, lambda i: seg(0, i, i)) if m.periodic else seg(0, I(0), I(0))


def _value(p, q, periodic, parallel, off):
    def f(w):
        a, b = dim(0), dim(0)
        L, R = 2 * a + p, 2 * b + q
        n = L + R
        if not decide(lt(0, as_ip(n))):
            return
        m = build(w, n, L, periodic, parallel)
        if off:
            # the other merge state (cores arbitrary, as any shift would leave them)
            need(m.lr, "module_list_1", "offset")
            m.lr.offset = 1
            m.lr.module_list = m.lr.module_list_1
        for k, mod in enumerate(m.lr.module_list):
            havoc(mod.tensor, "c%d" % k, view=True)
        ch = chain(m)
        x = sym("x", dim(), n, m.d)
        m.lr.input_counter = 0
        out = m.obj(x)
        if muted():
            return
        tensor_is("contraction of the merged cores", out, [x.shape[0], m.o], lambda b, o: contraction(m, ch, lambda t, k: x.pel(b, t, k), o))
    return f


PAR = ("even", "odd")
for _p in (0, 1):
    for _q in (0, 1):
        for _per in (False, True):
            for _par in (False, True):
                for _off in (0, 1):
                    unit(["C10", "C03"], "adaptive any length[%s left %s right %s %s offset %d]" % (PAR[_p], PAR[_q], "periodic" if _per else "open", "parallel" if _par else "serial", _off), FN)(_value(_p, _q, _per, _par, _off))


# ------------------------------------------------------------------ shifts (C13)
AS2 = ("svd_flex by its proved contract (C14), applied to cores whose splitting discards no non-zero singular value",)


class Fam:
    """a family of merged pairs: `count` pairs, the s-th at position pos + 2s; factors lf(s, ...), rf(s, ...)"""

    def __init__(self, **k):
        self.__dict__.update(k)
        self.bond = lambda s: iapp("bond" + self.nm, I(s))
        C.APPAX["bond" + self.nm] = lambda s: [le(1, self.bond(s)), le(self.bond(s), I(as_ip(self.D)))]
        self.svec = Sym("sv" + self.nm)


class SymCores:
    """the cores of the current merge state: arbitrary single cores, arbitrary factorizations of merged ones"""

    def __init__(self, m, tag):
        self.m = m
        self.fams, self.singles = [], []
        self.chain = []             # ("pair", count, left, right) / ("one", f): site functions (s, i, j, x, o)
        tm, D = m.tm, m.D

        def inp(f, t):
            return lambda s, i, j, x, o: total(m.d, lambda k: f(s, i, j, k) * x(t(s), k))

        def out(f):
            return lambda s, i, j, x, o: f(s, o, i, j)
        pos, inq = I(0), I(0)
        for k, mod in enumerate(m.lr.module_list):
            nm = "%s%d" % (tag, k)
            t = mod.tensor
            L, R = Sym(nm + "L"), Sym(nm + "R")
            if isinstance(mod, tm.MergedInput):
                lf = lambda s, l, u, i, L=L: entry(L, [s, l, u, i])
                rf = lambda s, u, r, j, R=R: entry(R, [s, u, r, j])
                self.set(t, lambda s, l, r, i, j, lf=lf, rf=rf: total(D, lambda u: lf(s, l, u, i) * rf(s, u, r, j)))
                n = t.dims[0]
                self.chain.append(("pair", n, inp(lf, lambda s, b=inq: b + s * 2), inp(rf, lambda s, b=inq: b + s * 2 + 1)))
                self.fams.append(Fam(nm=nm, D=D, n=n, pos=pos, whole="lrij", ll="lui", rl="urj", lf=lf, rf=rf, L=L, R=R))
                pos, inq = pos + n * 2, inq + n * 2
            elif isinstance(mod, tm.MergedOutput):
                if mod.left_output:
                    lf, rf, ll, rl = (lambda s, o, l, u, L=L: entry(L, [s, o, l, u])), (lambda s, u, r, i, R=R: entry(R, [s, u, r, i])), "olu", "uri"
                    self.set(t, lambda o, l, r, i, lf=lf, rf=rf: total(D, lambda u: lf(I(0), o, l, u) * rf(I(0), u, r, i)))
                else:
                    lf, rf, ll, rl = (lambda s, l, u, i, L=L: entry(L, [s, l, u, i])), (lambda s, o, u, r, R=R: entry(R, [s, o, u, r])), "lui", "our"
                    self.set(t, lambda o, l, r, i, lf=lf, rf=rf: total(D, lambda u: lf(I(0), l, u, i) * rf(I(0), o, u, r)))
                one = inp(rf if mod.left_output else lf, lambda s, b=inq: b)
                self.chain.append(("pair", I(1), out(lf), one) if mod.left_output else ("pair", I(1), one, out(rf)))
                self.fams.append(Fam(nm=nm, D=D, n=I(1), pos=pos, whole="olri", ll=ll, rl=rl, lf=lf, rf=rf, L=L, R=R))
                pos, inq = pos + 2, inq + 1
            elif isinstance(mod, tm.InputSite) or isinstance(mod, tm.OutputSite):
                self.set(t, lambda *ix, nm=nm: entry(Sym(nm), list(ix)))
                self.singles.append(pos)
                g = lambda s, *ix, nm=nm: entry(Sym(nm), list(ix))
                self.chain.append(("one", inp(g, lambda s, b=inq: b) if isinstance(mod, tm.InputSite) else out(g)))
                pos = pos + 1
                inq = inq + (1 if isinstance(mod, tm.InputSite) else 0)
            else:
                raise Unsupported("module %s in a merged region" % type(mod).__name__)
        holds("merge plan covers every core", band(eq(pos, I(as_ip(m.n)) + 1), eq(inq, as_ip(m.n))))

    def set(self, t, f):
        t.data[:] = Tensor.make(list(t.dims), F32, f)

    def plan(self, off):
        n = I(as_ip(self.m.n))
        for f in self.fams:
            holds("merged pairs have the parity of the offset", eq((f.pos - off) % 2, 0))
        for p in self.singles:
            holds("only the ends stay unmerged", bor(lt(p, off), band(eq(p, n), eq((n - off) % 2, 0))))


class SymSplit:
    """svd_flex by contract, on the registered families"""

    def __init__(self, cores):
        self.cores, self.m = cores, cores.m

    def install(self):
        ut = self.m.w.module("torchmps.utils")
        if not hasattr(ut, "svd_flex"):
            raise Unsupported("no function svd_flex")
        for mod in (ut, self.m.tm):
            if hasattr(mod, "svd_flex"):
                mod.svd_flex = self
        return self

    def __call__(self, tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec=None):
        m = self.m
        init, post = svd_string.replace(" ", "").split("->")
        a, b = post.split(",")
        bond = (set(a) & set(b)).pop()
        if max_D is None or not C.entails(eq(as_ip(max_D), as_ip(m.D))):
            raise Unsupported("splitting with another maximal bond dimension")
        ix = [idx(d) for d in tensor.dims]
        got = tensor.pel(*ix)
        for f in self.cores.fams:
            if len(f.whole) != len(init):
                continue
            ss = {I(x.args[1][0]).key: I(x.args[1][0]) for x in TT.walk_atoms(got).values() if x.kind == "A" and x.args[0] is f.L}
            if len(ss) != 1:
                continue
            s, = ss.values()
            maps = [dict(zip(init, f.whole))]
            if set(init) == set(f.whole) and init != f.whole:
                maps.insert(0, {c: c for c in init})
            for ren in maps:
                ren = dict(ren)
                ren[bond] = "u"
                ra, rb = [ren[c] for c in a], [ren[c] for c in b]
                if set(ra) == set(f.ll) and set(rb) == set(f.rl):
                    first, second = "l", "r"
                elif set(ra) == set(f.rl) and set(rb) == set(f.ll):
                    first, second = "r", "l"
                else:
                    continue
                e = dict(zip([ren[c] for c in init], ix))
                pick = lambda ll, u: [u if c == "u" else e[c] for c in ll]
                want = total(m.D, lambda u: f.lf(s, *pick(f.ll, u)) * f.rf(s, *pick(f.rl, u)))
                if prove_eq(got, want) is not True:
                    continue
                sizes = {ren[c]: d for c, d in zip(init, tensor.dims)}
                sizes["u"] = I(as_ip(m.D))

                def mk(letters, which):
                    g, ll = (f.lf, f.ll) if which == "l" else (f.rf, f.rl)
                    return Tensor.make([sizes[c] for c in letters], F32, lambda *i: g(s, *[dict(zip(letters, i))[c] for c in ll]))
                if m.cut is not None:
                    equal("cutoff of the model", rp(cutoff), m.cut)
                if sv_vec is None:
                    true("singular values are requested", False)
                else:
                    if not C.entails(eq(sv_vec.dims[0], I(as_ip(m.D)))):
                        raise TypeError("sv_vec must be vector with dimension max_D")
                    sv_vec[:] = Tensor.make([I(as_ip(m.D))], F32, lambda i: entry(f.svec, [s, i]))
                return mk(ra, first), mk(rb, second), mk_int(f.bond(s))
        raise Unsupported("splitting of a tensor that is not one of the merged cores")


def _sizes(p, q):
    a, b = dim(0), dim(0)
    L, R = 2 * a + p, 2 * b + q
    if not decide(lt(0, as_ip(L + R))):
        return None
    return L, L + R


def _state(m, off):
    need(m.lr, "input_counter", "merge_threshold", "module_list")
    if off:
        need(m.lr, "module_list_1", "offset")
        m.lr.offset = 1
        m.lr.module_list = m.lr.module_list_1


def identity(m):
    return {id(p): [d.key for d in p.dims] for _, p in m.obj.named_parameters()}


def _books(p, q, periodic, off):
    """an evaluation from an arbitrary counter, threshold, history of recorded bonds"""
    def f(w):
        z = _sizes(p, q)
        if z is None:
            return
        L, n = z
        m = build(w, n, L, periodic, cutoff=rfn("cutoff", (), nonneg=True))
        _state(m, off)
        cores = SymCores(m, "c")
        cores.plan(off)
        split = SymSplit(cores).install()
        need(m.obj, "bond_list", "sv_list")
        c = dim(0)
        m.lr.input_counter = c
        N = I(as_ip(n))
        b0 = Tensor.sym("bonds", (N + 2,), I64, rng=(I(1), I(as_ip(m.D)) + 1))
        s0 = sym("svs", N + 2, m.D)
        if not (shape("one bond dimension per bond", m.obj.bond_list, [N + 2]) and shape("one vector of singular values per bond", m.obj.sv_list, [N + 2, m.D])):
            return
        m.obj.bond_list[:] = b0
        m.obj.sv_list[:] = s0
        ids = identity(m)
        x = sym("x", dim(), n, m.d)
        B = x.shape[0]
        # the bookkeeping holds whatever the norms of the cores are: both outcomes, independently of the values
        w.torch.isfinite = lambda t: mk_bool(eq(ivar(C.fresh(0, 2)), 0))
        m.obj(x)
        if muted():
            return
        if X().svds:
            raise Unsupported("cores are factorized without svd_flex")
        now = identity(m)
        true("parameters keep their identity", set(ids) == set(now), "parameters replaced")
        true("parameters keep their shapes", all(ids[i] == now[i] for i in ids if i in now), "shapes changed")
        reached = le(as_ip(m.thr), as_ip(c))
        j = idx(m.D)
        if C.entails(reached):
            SymCores(m, "z").plan(1 - off)
            cnt = I(as_ip(c)) - I(as_ip(m.thr)) + I(as_ip(B))
            for k, g in enumerate(cores.fams):
                if not decide(le(1, g.n)):
                    continue
                s = idx(g.n)
                at = g.pos + s * 2 + 1
                equal("recorded bond dimensions of split cores", m.obj.bond_list.pel(at), P(g.bond(s)))
                equal("recorded singular values of split cores", m.obj.sv_list.pel(at, j), entry(g.svec, [s, j]))
            i = ivar(C.fresh(0, N + 2))
            with C.assume(eq((i - off) % 2, 0)):
                # bonds that were not merged: positions of the parity of the offset, and the two ends
                equal("other bond dimensions are kept", m.obj.bond_list.pel(i), b0.pel(i))
                equal("other singular values are kept", m.obj.sv_list.pel(i, j), s0.pel(i, j))
            for i in (I(0), N + 1):
                equal("end bond dimensions are kept", m.obj.bond_list.pel(i), b0.pel(i))
                equal("end singular values are kept", m.obj.sv_list.pel(i, j), s0.pel(i, j))
        else:
            holds("shifts exactly when the threshold is reached", bnot(reached))
            SymCores(m, "z").plan(off)
            cnt = I(as_ip(c)) + I(as_ip(B))
            tensor_is("bond dimensions are kept", m.obj.bond_list, [N + 2], lambda i: b0.pel(i))
            tensor_is("singular values are kept", m.obj.sv_list, [N + 2, m.D], lambda i, k: s0.pel(i, k))
        holds("inputs seen since", eq(as_ip(m.lr.input_counter), cnt))
        for t in m.obj.parameters():
            true("parameters stay trainable", t.requires_grad)
    return f


for _p in (0, 1):
    for _q in (0, 1):
        for _per in (False, True):
            for _off in (0, 1):
                unit("C13", "bookkeeping any length[%s left %s right %s offset %d]" % (PAR[_p], PAR[_q], "periodic" if _per else "open", _off), FN, assumes=AS2)(_books(_p, _q, _per, _off))


def _fresh(p, q, periodic):
    def f(w):
        z = _sizes(p, q)
        if z is None:
            return
        L, n = z
        m = build(w, n, L, periodic)
        need(m.obj, "bond_list", "sv_list")
        need(m.lr, "input_counter")
        SymCores(m, "c").plan(0)
        holds("no inputs seen", eq(as_ip(m.lr.input_counter), 0))
        N = I(as_ip(n))
        if shape("one bond dimension per bond", m.obj.bond_list, [N + 2]):
            j = ivar(C.fresh(0, N + 2))
            end = bor(eq(j, 0), eq(j, N + 1)) if not periodic else FALSE
            equal("initial bond dimensions", m.obj.bond_list.pel(j), rite(end, ONE, P(I(as_ip(m.D)))))
        tensor_is("initial singular values", m.obj.sv_list, [N + 2, m.D], lambda i, k: P(-1))
    return f


def _agrad(p, q, periodic, parallel, off, shift):
    """gradients reach the merged cores in use, also in the evaluation that shifts"""
    def f(w):
        from .c_sup import connected
        z = _sizes(p, q)
        if z is None:
            return
        L, n = z
        m = build(w, n, L, periodic, parallel)
        _state(m, off)
        if shift:
            SymSplit(SymCores(m, "c")).install()
            w.torch.isfinite = lambda t: mk_bool(eq(ivar(C.fresh(0, 2)), 0))
        else:
            for k, mod in enumerate(m.lr.module_list):
                havoc(mod.tensor, "c%d" % k, view=True)
        ch = None if shift else chain(m)
        m.lr.input_counter = m.thr if shift else 0
        x = sym("x", dim(), n, m.d)
        x.requires_grad = True
        with stopgrad() as sg:
            out = m.obj(x)
        if muted():
            return
        use = [("core %d" % k, mod.tensor) for k, mod in enumerate(m.lr.module_list)]
        ps = list(m.obj.parameters())
        true("cores in use are parameters", all(any(t is p for p in ps) for _, t in use))
        connected("evaluation", out, use + [("input", x)])
        if sg.used and not shift:
            tensor_is("no gradient is cut off", out, [x.shape[0], m.o], lambda b, o: contraction(m, ch, lambda t, k: x.pel(b, t, k), o))
    return f


for _p in (0, 1):
    for _q in (0, 1):
        for _per in (False, True):
            _nm = "%s left %s right %s" % (PAR[_p], PAR[_q], "periodic" if _per else "open")
            unit("C13", "fresh adaptive any length[%s]" % _nm, FN)(_fresh(_p, _q, _per))
            for _off in (0, 1):
                for _sh in (False, True):
                    unit("C19", "adaptive gradients any length[%s offset %d%s]" % (_nm, _off, " shift" if _sh else ""), FN, assumes=AS2 if _sh else ())(_agrad(_p, _q, _per, False, _off, _sh))


# ------------------------------------------------------------------ shifts preserve the function (C12)
def mul(D, f, g):
    return lambda s, i, j, x, o: total(D, lambda a: f(s, i, a, x, o) * g(s, a, j, x, o))


def at(f, k):
    return lambda s, i, j, x, o: f(I(k), i, j, x, o)


def nxt(f):
    return lambda s, i, j, x, o: f(s + 1, i, j, x, o)


def elements(m, cores, regrouped):
    """ordered product of the cores: pairs in the order L0 R0 | L1 R1 | ..., or regrouped as L0 | R0 L1 | ... | R(k-1)"""
    out = []
    for c in cores.chain:
        if c[0] == "one":
            out.append(("one", at(c[1], 0)))
            continue
        _, k, l, r = c
        if not decide(le(1, k)):
            continue
        if not regrouped:
            out.append(("run", k, mul(m.D, l, r)))
        else:
            out.append(("one", at(l, 0)))
            if decide(le(2, k)):
                out.append(("run", k - 1, mul(m.D, r, nxt(l))))
            out.append(("one", at(r, k - 1)))
    return out


def ordered(m, els, x, o):
    def f(c, i, j):
        if c[0] == "one":
            return c[1](I(0), i, j, x, o)
        return product(mk_int(c[1]), lambda s, a, b: c[2](s, a, b, x, o), i, j, m.D)

    def seg(k, i, j):
        if k == len(els) - 1:
            return f(els[k], i, j)
        return total(m.D, lambda a: f(els[k], i, a) * seg(k + 1, a, j))
    return total(m.D, lambda i: seg(0, i, i)) if m.periodic else seg(0, I(0), I(0))


class Rescale:
    """rescale_norm by its contract (core i is multiplied by scale i): the factors are collected, the cores kept.
    The contraction is linear in every core, so the rescaled cores give it times the product of the factors."""

    def __init__(self, m):
        self.calls = []
        self.m = m

    def install(self):
        for c in ("InputRegion", "MergedInput", "InputSite", "OutputSite", "MergedOutput"):
            cls = getattr(self.m.tm, c, None)
            if cls is not None and hasattr(cls, "rescale_norm"):
                cls.rescale_norm = lambda core, scales, me=self: me.calls.append((core, scales))
        return self

    def check(self):
        tm = self.m.tm
        tot, cnt = ZERO, I(0)
        seen = []
        for core, scales in self.calls:
            true("each core is rescaled once", not any(core is z for z in seen))
            seen.append(core)
            n = core.tensor.dims[0] if isinstance(core, (tm.InputRegion, tm.MergedInput)) else I(1)
            if isinstance(scales, (list, tuple, VList, SSeq)):
                sc = SSeq.of(scales)
                holds("one factor per core", eq(as_ip(sc.length()), n))
                for pc in sc.p:
                    if isinstance(pc, Run):
                        t = C.fresh(0, pc.nb if hasattr(pc, "nb") else pc.n)
                        items = pc.block(ivar(t)) if hasattr(pc, "block") else (pc.at(ivar(t)),)
                        for v in items:
                            tot = tot + TT.ssum(t, I(0), C.RNG[t][1], plog(rp(v)))
                    else:
                        tot = tot + plog(rp(pc[1]))
            else:
                tot = tot + plog(rp(scales))
            cnt = cnt + n
        holds("all cores are rescaled", eq(cnt, I(as_ip(self.m.n)) + 1))
        equal("the rescaling factors multiply to one", tot, ZERO)


def _shift(p, q, periodic, off):
    def f(w):
        z = _sizes(p, q)
        if z is None:
            return
        L, n = z
        m = build(w, n, L, periodic)
        _state(m, off)
        cores = SymCores(m, "c")
        SymSplit(cores).install()
        rs = Rescale(m).install()
        fin = eq(ivar(C.fresh(0, 2)), 0)
        w.torch.isfinite = lambda t: mk_bool(fin)
        x = sym("x", dim(), n, m.d)
        m.lr.input_counter = 0
        out = m.obj(x)
        xs = lambda b: (lambda t, k: x.pel(b, t, k))
        if muted():
            return
        els = elements(m, cores, False)
        tensor_is("contraction of the merged cores", out, [x.shape[0], m.o], lambda b, o: ordered(m, els, xs(b), o))
        m.lr.input_counter = m.thr
        out = m.obj(x)
        if muted():
            return
        if X().svds:
            raise Unsupported("cores are factorized without svd_flex")
        els = elements(m, cores, True)
        if C.entails(fin):
            if not rs.calls:
                raise Unsupported("rescaling without rescale_norm")
            rs.check()
        else:
            true("no rescaling of zero cores", not rs.calls)
        tensor_is("function preserved by the shift", out, [x.shape[0], m.o], lambda b, o: ordered(m, els, xs(b), o))
    return f


for _p in (0, 1):
    for _q in (0, 1):
        for _per in (False, True):
            for _off in (0, 1):
                unit("C12", "shift any length[%s left %s right %s offset %d]" % (PAR[_p], PAR[_q], "periodic" if _per else "open", _off), FN, assumes=AS2)(_shift(_p, _q, _per, _off))


# ------------------------------------------------------------------ the contract of rescale_norm
def _core(w, cls, n):
    """a core container with arbitrary entries"""
    tm = w.module("torchmps.torchmps")
    w.module("torchmps.contractables")
    need(tm, cls)
    D, d, o = dim(), dim(), dim()
    sh = {"InputRegion": (n, D, D, d), "MergedInput": (n, D, D, d, d), "InputSite": (D, D, d), "OutputSite": (o, D, D), "MergedOutput": (o, D, D, d)}[cls]
    t = sym("t", *sh)
    c = getattr(tm, cls)(t, *([True] if cls == "MergedOutput" else []))
    need(c, "rescale_norm", "tensor")
    return c, frozen(t), sh


def _rescaled(cls, how):
    def f(w):
        n = dim()
        c, t, sh = _core(w, cls, n)
        v = lambda s: mk_real(rfn("scale", (I(s),)))
        many = cls in ("InputRegion", "MergedInput")
        if many:
            c.rescale_norm(VList(SSeq([Run(I(as_ip(n)), v)])))
        elif how == "list":
            c.rescale_norm([v(0)])
        else:
            c.rescale_norm(v(0))
        tensor_is("each core is multiplied by its factor", c.tensor, list(sh), lambda *i: rfn("scale", (i[0] if many else I(0),)) * t(*i))
        true("the core stays a trainable parameter", c.tensor.requires_grad and any(p is c.tensor for p in c.parameters()))
    return f


for _c in ("InputRegion", "MergedInput", "InputSite", "OutputSite", "MergedOutput"):
    for _h in (("list",) if _c in ("InputRegion", "MergedInput") else ("list", "number")):
        unit("C12", "rescale_norm[%s %s]" % (_c, _h), FN)(_rescaled(_c, _h))
