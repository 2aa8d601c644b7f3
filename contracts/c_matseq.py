"""contract_matseq, mat_reduce_par, mat_reduce_seq, slim_eval_fun (C04, C05)."""
from .spec import *

FN = ("torchmps.mps_base.contract_matseq", "torchmps.mps_base.mat_reduce_par", "torchmps.mps_base.mat_reduce_seq",
      "torchmps.utils2.bundle_tensors", "torchmps.utils2.batch_broadcast", "torchmps.utils2.batch_to", "torchmps.utils2.shape_broadcast")


def _vecs(kind, D, cplx, batch):
    l = sym("l", *batch, D, cplx=cplx) if "l" in kind else None
    r = sym("r", *batch, D, cplx=cplx) if "r" in kind else None
    return l, r


def _ref(kind, m, l, r, L, D):
    """reference entries of [l] M_0 ... M_{L-1} [r]; m(t, i, j), l(i), r(j)"""
    pr = lambda i, j: product(L, m, i, j, D)
    if kind == "":
        return pr
    if kind == "l":
        return lambda j: total(D, lambda i: l(i) * pr(i, j))
    if kind == "r":
        return lambda i: total(D, lambda j: pr(i, j) * r(j))
    return lambda: total(D, lambda i: total(D, lambda j: l(i) * pr(i, j) * r(j)))


def _mk(kind, par, log, cplx, nb):
    def f(w):
        mb = w.module("torchmps.mps_base")
        D = dim()
        L = dim(0)
        batch = [dim() for _ in range(nb)]
        m = sym("M", *batch, L, D, D, cplx=cplx)
        # boundary vectors carry no batch index, or the same one
        vb = batch if nb and kind == "lr" else []
        l, r = _vecs(kind, D, cplx, vb)
        out = mb.contract_matseq(m, l, r, par, log)
        if muted():
            return
        b = [idx(x) for x in batch]
        kb = b if vb else []
        ref = _ref(kind, lambda t, i, j: m.pel(*b, t, i, j), (lambda i: l.pel(*kb, i)) if l is not None else None,
                   (lambda j: r.pel(*kb, j)) if r is not None else None, L, D)
        want = batch + {"": [D, D], "l": [D], "r": [D], "lr": []}[kind]
        if log:
            true("pair", isinstance(out, tuple) and len(out) == 2, "log format must return two tensors")
            v, s = out
            true("log-scale-real", s.dtype.kind == "f", "log scale must be real")
            s = T.Tensor.expand(s, *[mk_int(I(as_ip(d))) for d in want])
            val = lambda *i: v.pel(*i) * pexp(s.pel(*i))
        else:
            v, val = out, out.pel
        if not shape("shape", v, want):
            return
        k = len(want) - nb
        ix = [idx(d) for d in want[nb:]]
        equal("value", val(*b, *ix), ref(*ix))
    return f


for _k in ("", "l", "r", "lr"):
    for _p in (False, True):
        if _k == "" and _p:
            continue
        for _l in (False, True):
            for _c in (False, True):
                for _b in (0, 1):
                    if _b and (_c or not _l):
                        continue
                    if not _l and _c:
                        continue
                    unit("C04", "matseq[%s%s%s%s b%d]" % (_k or "-", " par" if _p else "", " log" if _l else "", " complex" if _c else "", _b), FN)(_mk(_k, _p, _l, _c, _b))


def _list(kind, log, case):
    """case: `square' (equal square shapes), `ragged' (at least two matrices, shapes not all equal),
    `single' (one matrix of any shape)"""
    def f(w):
        from tvc.seqs import Run
        mb = w.module("torchmps.mps_base")
        L = dim(2) if case == "ragged" else 1 if case == "single" else dim()
        n = I(as_ip(L))
        if case == "square":
            D = dim()
            dd = lambda t: I(as_ip(D))
        elif case == "single":
            d01 = [dim(), dim()]
            dd = lambda t: I(as_ip(d01[1])) if I(t).const() == 1 else I(as_ip(d01[0]))
        else:
            C.APPAX["dm"] = lambda a: [le(1, iapp("dm", a))]
            dd = lambda t: iapp("dm", I(t))
            p = ivar(C.fresh(1, n + 1))
            C.add_fact(bnot(eq(dd(p), dd(0))))
        M = Sym("M")
        mk = lambda k: Tensor.make([dd(k), dd(I(k) + 1)], F32, lambda i, j: entry(M, (k, i, j)))
        seq = VList(SSeq([("i", mk(I(0)))] if case == "single" else [Run(n, mk)]))
        d0, dL = dd(I(0)), dd(n)
        l = sym("l", mk_int(d0)) if "l" in kind else None
        r = sym("r", mk_int(dL)) if "r" in kind else None
        out = mb.contract_matseq(seq, l, r, False, log)
        if muted():
            return
        if case == "single":
            pr = lambda i, j: entry(M, (0, i, j))
        else:
            tt = C.fresh(0, n)
            u, v_ = C.fresh(0, dd(ivar(tt))), C.fresh(0, dd(ivar(tt) + 1))
            body = entry(M, (ivar(tt), ivar(u), ivar(v_)))
            pr = lambda i, j: mkseg(tt, (u,), (v_,), (dd(ivar("$t")),), body, I(0), n, (I(i),), (I(j),))
        sm = lambda d, g: total(mk_int(d), g)
        if kind == "":
            want, ref = [d0, dL], pr
        elif kind == "l":
            want, ref = [dL], lambda j: sm(d0, lambda i: l.pel(i) * pr(i, j))
        elif kind == "r":
            want, ref = [d0], lambda i: sm(dL, lambda j: pr(i, j) * r.pel(j))
        else:
            want, ref = [], lambda: sm(d0, lambda i: sm(dL, lambda j: l.pel(i) * pr(i, j) * r.pel(j)))
        if log:
            v, s = out
            s = T.Tensor.expand(s, *[mk_int(d) for d in want])
            val = lambda *i: v.pel(*i) * pexp(s.pel(*i))
        else:
            v, val = out, out.pel
        want = [mk_int(d) for d in want]
        if not shape("shape", v, want):
            return
        ix = [idx(d) for d in want]
        equal("value", val(*ix), ref(*ix))
    return f


for _k in ("", "l", "r", "lr"):
    for _l in (False, True):
        for _s in ("square", "ragged", "single"):
            unit("C04", "matseq list[%s%s %s]" % (_k or "-", " log" if _l else "", _s), FN)(_list(_k, _l, _s))


def _nomat(kind):
    def f(w):
        mb = w.module("torchmps.mps_base")
        D = dim()
        l = sym("l", D) if "l" in kind else None
        r = sym("r", D) if "r" in kind else None
        out = mb.contract_matseq([], l, r)
        if muted():
            return
        if kind == "lr":
            tensor_is("value", out, [], lambda: total(D, lambda i: l.pel(i) * r.pel(i)))
        else:
            tensor_is("value", out, [D], (l if kind == "l" else r).pel)
    return f


for _k in ("l", "r", "lr"):
    unit("C04", "matseq only vectors[%s]" % _k, FN)(_nomat(_k))


@unit("C04", "matseq empty list", FN)
def _empty(w):
    mb = w.module("torchmps.mps_base")
    raises("ValueError", lambda: mb.contract_matseq([]), ValueError)
