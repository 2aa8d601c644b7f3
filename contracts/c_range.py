"""Log-scale splitting keeps running products in range (C05)."""
from .spec import *
from . import c_matseq as CM

FN = CM.FN + ("torchmps.mps_base.slim_eval_fun", "torchmps.mps_base.get_log_norm")


def norm1(f, dims):
    """entrywise 1-norm"""
    if not dims:
        return TT.pabs(f())
    return total(dims[0], lambda i: norm1(lambda *r: f(i, *r), dims[1:]))


def monitor(want):
    """ghost obligation at the end of an arbitrary iteration of every loop: some
    loop-carried tensor is the normalized running product; want(tensor) gives the
    list of terms that must vanish (None: not such a tensor)"""
    def f(site, state):
        if muted():
            return
        cand = []
        for n, t in state.items():
            if isinstance(t, Tensor) and t.kind in "fc":
                z = want(t)
                if z is not None:
                    cand.append((n, z))
        if not cand:
            return
        res = [[prove_eq(x, ZERO) for x in z] for _, z in cand]
        if any(all(r is True for r in rs) for rs in res):
            X().oblige("every iteration", True)
        else:
            d = cand[0][1][0]
            v, m = triage(d, d.fv)
            X().oblige("every iteration", False, detail("running product %s of the loop at %s is not normalized: %s" % (cand[0][0], site, res[0]), v, m))
    X().loop_monitor = f


def targets(r, c):
    """the fixed 1-norms accepted for a product with r rows and c columns"""
    r, c = TT.ipoly(I(as_ip(r))), TT.ipoly(I(as_ip(c)))
    return [TT.psqrt(r * c), c, r, r * c, ONE]


def mats_normalized(t):
    """every matrix of a batch has a fixed entrywise 1-norm, or vanishes"""
    if t.ndim < 2 or (t.dims[-1].const() == 1 and t.dims[-2].const() == 1):
        return None
    b = [idx(x) for x in t.dims[:-2]]
    r, c = t.dims[-2:]
    s = norm1(lambda i, j: t.pel(*b, i, j), [mk_int(r), mk_int(c)])
    for x in targets(r, c):
        z = s * (s - x)
        if prove_eq(z, ZERO) is True:
            return [z]
    return [s * (s - targets(r, c)[0])]


def unit_trace(t):
    if t.ndim != 2 or not C.entails(eq(t.dims[0], t.dims[1])):
        return None
    return [total(mk_int(t.dims[0]), lambda i: t.pel(i, i)) - ONE]


def normalized(name, f, dims, r, c):
    """the entrywise 1-norm is the fixed target, or every entry is zero"""
    s = norm1(f, dims)
    for x in targets(r, c)[1:]:
        if prove_eq(s * (s - x), ZERO) is True:
            return true(name, True)
    return equal(name, s * (s - targets(r, c)[0]), ZERO)


def _seq(cplx, nb, shape_kind):
    def f(w):
        from tvc.seqs import Run
        mb = w.module("torchmps.mps_base")
        L = dim(2)
        n = I(as_ip(L))
        B = [dim() for _ in range(nb)]
        M = Sym("M", cplx)
        if shape_kind == "square":
            D = dim()
            dd = lambda k: I(as_ip(D))
        else:
            C.APPAX["dm"] = lambda a: [le(1, iapp("dm", a))]
            dd = lambda k: iapp("dm", I(k))
        mk = lambda k: Tensor.make([I(as_ip(b)) for b in B] + [dd(k), dd(I(k) + 1)], C64 if cplx else F32, lambda *i: entry(M, (k,) + tuple(i)))
        monitor(mats_normalized)
        out = mb.mat_reduce_seq(VList(SSeq([Run(n, mk)])))
        if muted():
            return
        v, ls = out
        b = [idx(x) for x in B]
        r, c = mk_int(dd(I(0))), mk_int(dd(n))
        if not shape("shape", v, B + [r, c]):
            return
        true("log scale real", ls.dtype.kind == "f")
        normalized("normalized", lambda i, j: v.pel(*b, i, j), [r, c], r, c)
    return f


for _c in (False, True):
    for _b in (0, 1):
        for _s in ("square", "ragged"):
            unit("C05", "mat_reduce_seq range[%s%s b%d]" % (_s, " complex" if _c else "", _b), FN, loop_exit="last")(_seq(_c, _b, _s))


def _par(cplx, nb):
    def f(w):
        mb = w.module("torchmps.mps_base")
        L, D = dim(2), dim()
        B = [dim() for _ in range(nb)]
        m = sym("M", *B, L, D, D, cplx=cplx)
        monitor(mats_normalized)
        v, ls = mb.mat_reduce_par(m)
        if muted():
            return
        b = [idx(x) for x in B]
        if not shape("shape", v, B + [D, D]):
            return
        true("log scale real", ls.dtype.kind == "f")
        normalized("normalized", lambda i, j: v.pel(*b, i, j), [D, D], D, D)
    return f


for _c in (False, True):
    for _b in (0, 1):
        unit("C05", "mat_reduce_par range[%sb%d]" % ("complex " if _c else "", _b), FN, loop_exit="last")(_par(_c, _b))


def _ms(kind, par, nb):
    """sequential contraction with boundary vectors; the parallel one multiplies them onto a normalized product"""
    def f(w):
        mb = w.module("torchmps.mps_base")
        L, D = dim(1 if len(kind) else 2), dim()
        B = [dim() for _ in range(nb)]
        m = sym("M", *B, L, D, D)
        l, r = CM._vecs(kind, D, False, [])
        monitor(mats_normalized)
        out = mb.contract_matseq(m, l, r, par, True)
        if muted():
            return
        v, ls = out
        b = [idx(x) for x in B]
        want = {"": [D, D], "l": [D], "r": [D], "lr": []}[kind]
        if not shape("shape", v, B + want):
            return
        true("log scale real", ls.dtype.kind == "f")
        rc = {"": (D, D), "l": (1, D), "r": (D, 1), "lr": (1, 1)}[kind]
        normalized("normalized", lambda *i: v.pel(*b, *i), want, *rc)
    return f


for _k in ("", "l", "r", "lr"):
    for _b in (0, 1):
        unit("C05", "contract_matseq range[%s b%d]" % (_k or "-", _b), FN, loop_exit="last")(_ms(_k, False, _b))


def _slim(uni, cplx):
    def f(w):
        mb = w.module("torchmps.mps_base")
        n, d, D, B = dim(), dim(), dim(), dim()
        core = sym("A", d, D, D, cplx=cplx) if uni else sym("A", n, d, D, D, cplx=cplx)
        # the right vector is a basis vector: the contraction shows one entry of the running product
        k = idx(D)
        e = Sym("e", cplx)
        bv = Tensor.make([I(2), I(as_ip(D))], C64 if cplx else F32, lambda i, j: rite(eq(i, 0), entry(e, (j,)), ind(eq(j, k))))
        x = indices("x", [B, n], d)
        monitor(mats_normalized)
        out = mb.slim_eval_fun(x, core, bv)
        if muted():
            return
        v, ls = out
        if not (shape("shape", v, [B]) and shape("scale shape", ls, [B])):
            return
        true("log scale real", ls.dtype.kind == "f")
        b = idx(B)
        p = v.pel(b)
        vec = lambda j: p.subst({list(k.fv)[0]: j}) if hasattr(p, "subst") else TT.psubst(p, {list(k.fv)[0]: j})
        normalized("normalized", vec, [D], 1, D)
    return f


def _ln(uni, kind, cplx):
    from .c_norm import mklam

    def f(w):
        mb = w.module("torchmps.mps_base")
        amplitudes_nonzero()
        n, D, d = dim(), dim(), dim()
        core = sym("A", d, D, D, cplx=cplx) if uni else sym("A", n, d, D, D, cplx=cplx)
        bv = sym("e", 2, D, cplx=cplx)
        lam, lf, rank = mklam(kind, d, False)
        seen = []
        monitor(unit_trace)
        mb.get_log_norm(core, bv, lamb_mat=lam, **({"length": n} if uni else {}))
        if muted():
            return
    return f


for _u in (False, True):
    for _c in (False, True):
        unit("C05", "slim_eval range[%s%s]" % ("uniform" if _u else "fixed", " complex" if _c else ""), FN, loop_exit="last")(_slim(_u, _c))
        for _k in (None, 0, 1, 2):
            unit("C05", "log_norm range[%s lam=%s%s]" % ("uniform" if _u else "fixed", _k, " complex" if _c else ""), FN, loop_exit="last",
                 assumes=("amplitudes not all zero (partial traces positive)",))(_ln(_u, _k, _c))
