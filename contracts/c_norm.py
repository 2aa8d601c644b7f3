"""get_log_norm (C07, C05, C01): log Z is the transfer contraction with Lambda inserted at every site."""
from .spec import *

FN = ("torchmps.mps_base.get_log_norm", "torchmps.utils2.hermitian_trace", "torchmps.utils2.realify", "torchmps.utils2.einsum")


def transfer(n, core, lam, d, D, i, j):
    """entry ((a,a'),(b,b')) of the product over sites of sum_{x,y} lam(x,y) core(t,x,a,b) conj core(t,y,a',b')"""
    def body(t, u, v):
        return total(d, lambda x: total(d, lambda y: lam(x, y) * core(t, x, u[0], v[0]) * pconj(core(t, y, u[1], v[1]))))
    return product2(n, body, i, j, D)


def transfer_diag(n, core, lam, d, D, i, j):
    def body(t, u, v):
        return total(d, lambda x: lam(x) * core(t, x, u[0], v[0]) * pconj(core(t, x, u[1], v[1])))
    return product2(n, body, i, j, D)


def zval(n, core, lam, rank, d, D, l, r):
    """the normalization constant of the property statement"""
    t4 = (lambda i, j: transfer(n, core, lam, d, D, i, j)) if rank == 2 else (lambda i, j: transfer_diag(n, core, lam, d, D, i, j))
    return total(D, lambda a: total(D, lambda a2: total(D, lambda b: total(D, lambda b2:
                 l(a) * pconj(l(a2)) * t4((a, a2), (b, b2)) * r(b) * pconj(r(b2))))))


def mklam(kind, d, cplx):
    """symbolic Lambda matrix of the given rank, its entries as a function, and the rank used by the reference"""
    if kind is None:
        return None, (lambda x: ONE), 1
    if kind == 0:
        t = sym("lam", nonneg=True)
        return t, (lambda x: t.pel()), 1
    if kind == 1:
        t = sym("lam", d, nonneg=True)
        return t, (lambda x: t.pel(x)), 1
    t = sym("lam", d, d, cplx=cplx, psd=True)
    return t, (lambda x, y: t.pel(x, y)), 2


def _mk(uni, kind, cplx, lcplx):
    def f(w):
        mb = w.module("torchmps.mps_base")
        amplitudes_nonzero()
        n = dim(0)
        D = dim()
        d = dim()
        core = sym("A", d, D, D, cplx=cplx) if uni else sym("A", n, d, D, D, cplx=cplx)
        bv = sym("e", 2, D, cplx=cplx)
        lam, lf, rank = mklam(kind, d, lcplx)
        out = mb.get_log_norm(core, bv, lamb_mat=lam, **({"length": n} if uni else {}))
        if muted():
            return
        cf = (lambda t, x, a, b: core.pel(x, a, b)) if uni else core.pel
        if not shape("shape", out, []):
            return
        true("real", out.dtype.kind == "f", "log norm must be real")
        z = zval(n, cf, lf, rank, d, D, lambda i: bv.pel(0, i), lambda i: bv.pel(1, i))
        equal("value", pexp(out.pel()), z)
        unchanged("cores unchanged", core, (lambda *i: entry(Sym("A", cplx), i)), ([d, D, D] if uni else [n, d, D, D]))
    return f


for _u in (False, True):
    for _k in (None, 0, 1, 2):
        for _c in (False, True):
            for _lc in ((False, True) if _k == 2 and _c else (False,)):
                unit(["C07", "C01"], "log_norm[%s lam=%s%s%s]" % ("uniform" if _u else "fixed", {None: "none", 0: "scalar", 1: "diag", 2: "full"}[_k], " complex" if _c else "", " complex-lam" if _lc else ""),
                     FN, assumes=("amplitudes not all zero (partial traces positive)",))(_mk(_u, _k, _c, _lc))
