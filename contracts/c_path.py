"""Paths, feature maps and input checks of the supervised and the sequence MPS (C20)."""
from .spec import *
from tvc.seqs import Run
from . import c_sup, c_ti
from .c_sup import M, contraction, MP, FN

FP = tuple(MP + x for x in ("MPS.forward", "MPS.embed_input", "MPS.register_feature_map", "MPS.__init__"))
FT = tuple(MP + x for x in ("TI_MPS.forward", "TI_MPS.format_input", "TI_MPS.embed_input", "TI_MPS.register_feature_map"))


def paths(kind, n, N):
    """an arbitrary path: n site numbers below N"""
    C.APPAX["site"] = lambda a: [le(0, iapp("site", a)), lt(iapp("site", a), I(as_ip(N)))]
    at = lambda t: iapp("site", I(t))
    if kind == "list":
        return VList(SSeq([Run(I(as_ip(n)), lambda t: mk_int(at(t)))])), at
    return Tensor.make([I(as_ip(n))], I64, lambda t: at(t)), at


def _path(kind, where, periodic, parallel, data):
    def f(w):
        n = dim(2) if where == "mid" else dim(1)
        N = dim()
        p, at = paths(kind, n, N)
        m = c_sup.build(w, where, periodic, parallel, False, path=p, n=n, d=mk_int(I(2)) if data == "raw" else None)
        B = dim()
        x = sym("x", B, N) if data == "raw" else sym("x", B, N, m.d)
        out = m.obj(x)
        if muted():
            return
        if data == "raw":
            e = lambda b: lambda t, k: rite(eq(k, 0), x.pel(b, at(t)), ONE - x.pel(b, at(t)))
        else:
            e = lambda b: lambda t, k: x.pel(b, at(t), k)
        tensor_is("routed", out, [B, m.o], lambda b, o: contraction(m, e(b), o))
    return f


for _k in ("list", "tensor"):
    for _w in ("left", "mid", "right"):
        for _p, _e, _d in ((False, False, "raw"), (True, True, "raw"), (False, True, "embedded"), (True, False, "embedded")):
            unit("C20", "path[%s label %s %s%s %s]" % (_k, _w, "periodic" if _p else "open", " parallel" if _e else "", _d), FP)(_path(_k, _w, _p, _e, _d))


def _path_len(kind):
    def f(w):
        tm = w.module("torchmps.torchmps")
        n, q = dim(), dim()
        C.add_fact(bnot(eq(I(as_ip(n)), I(as_ip(q)))))
        p, at = paths(kind, q, dim())
        rejects("path of the wrong length", lambda: tm.MPS(n, dim(), dim(), path=p))
    return f


for _k in ("list", "tensor"):
    unit("C20", "path length[%s]" % _k, FP)(_path_len(_k))


def _map(where, periodic, path):
    """a registered feature map replaces the default one"""
    def f(w):
        n = dim(2) if where == "mid" else dim(1)
        N, at, p = n, (lambda t: t), None
        if path:
            N = dim()
            p, at = paths("list", n, N)
        m = c_sup.build(w, where, periodic, False, False, path=p, n=n)
        fm = emb_real("phi", m.d)
        m.obj.register_feature_map(emb_real("other", m.d))
        m.obj.register_feature_map(fm)
        B = dim()
        x = sym("x", B, N)
        out = m.obj(x)
        if muted():
            return
        tensor_is("mapped", out, [B, m.o], lambda b, o: contraction(m, lambda t, k: fm.entry(x.pel(b, at(t)), k), o))
    return f


def _map_reset(w):
    m = c_sup.build(w, "mid", False, False, False, d=mk_int(I(2)))
    m.obj.register_feature_map(emb_real("phi", m.d))
    m.obj.register_feature_map(None)
    B = dim()
    x = sym("x", B, m.n)
    out = m.obj(x)
    if muted():
        return
    tensor_is("default again", out, [B, m.o], lambda b, o: contraction(m, lambda t, k: rite(eq(k, 0), x.pel(b, t), ONE - x.pel(b, t)), o))


def _map_unused(w):
    m = c_sup.build(w, "mid", False, False, False)
    m.obj.register_feature_map(emb_real("phi", m.d))
    B = dim()
    x = sym("x", B, m.n, m.d)
    out = m.obj(x)
    if muted():
        return
    tensor_is("embedded input as is", out, [B, m.o], lambda b, o: contraction(m, lambda t, k: x.pel(b, t, k), o))


for _w in ("left", "mid", "right"):
    for _p in (False, True):
        for _q in (False, True):
            unit("C20", "feature map[label %s%s%s]" % (_w, " periodic" if _p else "", " path" if _q else ""), FP)(_map(_w, _p, _q))
unit("C20", "feature map reset", FP)(_map_reset)
unit("C20", "feature map unused", FP)(_map_unused)


def _bad_map(cls, kind):
    def f(w):
        if cls == "MPS":
            m = c_sup.build(w, "mid", False, False, False)
        else:
            m = c_ti.build(w, "fixed bias", False, False)
        q = dim()
        if kind == "size":
            C.add_fact(bnot(eq(I(as_ip(q)), I(as_ip(m.d)))))
            fm = emb_real("phi", q)
        elif kind == "scalar":
            fm = lambda t: t
        elif kind == "matrix":
            fm = lambda t: Tensor.make(list(t.dims) + [I(as_ip(m.d)), I(as_ip(q))], F32, lambda *i: rfn("psi", (t.pel(*i[:-2]), I(i[-2]), I(i[-1])), real=True))
        rejects("rejected", lambda: m.obj.register_feature_map(fm))
        true("not registered", m.obj.feature_map is None)
    return f


for _c in ("MPS", "TI_MPS"):
    for _k in ("size", "scalar", "matrix"):
        unit("C20", "bad feature map[%s %s]" % (_c, _k), FP + FT)(_bad_map(_c, _k))


def _bad_input(cls, kind, fmap):
    def f(w):
        if cls == "MPS":
            m = c_sup.build(w, "mid", False, False, False)
        else:
            m = c_ti.build(w, "fixed bias", False, False)
        if fmap:
            m.obj.register_feature_map(emb_real("phi", m.d))
        B, q = dim(), dim()
        n = m.n if cls == "MPS" else dim()
        ne = lambda a, b: C.add_fact(bnot(eq(I(as_ip(a)), I(as_ip(b)))))
        if kind == "rank 1":
            x = sym("x", n)
        elif kind == "rank 4":
            x = sym("x", B, n, m.d, q)
        elif kind == "sites embedded":
            ne(q, n)
            x = sym("x", B, q, m.d)
        elif kind == "sites raw":
            ne(q, n)
            x = sym("x", B, q)
        elif kind == "features":
            ne(q, m.d)
            x = sym("x", B, n, q)
        elif kind == "features of raw":
            ne(2, m.d)
            x = sym("x", B, n)
        elif kind == "features in list":
            ne(q, m.d)
            x = [sym("x", n, q), sym("y", n, q)]
        elif kind == "features of one in list":
            ne(q, m.d)
            x = [sym("x", n, m.d), sym("y", n, q)]
        elif kind == "mixed list":
            x = [sym("x", n, m.d), sym("y", n)]
        rejects("rejected", lambda: m.obj(x))
    return f


for _c, _ks in (("MPS", ("rank 1", "rank 4", "sites embedded", "sites raw", "features", "features of raw")),
                ("TI_MPS", ("rank 1", "rank 4", "features", "features of raw", "features in list", "features of one in list", "mixed list"))):
    for _k in _ks:
        for _f in (False, True):
            if not (_f and _k == "features of raw"):
                unit("C20", "bad input[%s %s%s]" % (_c, _k, " with map" if _f else ""), FP + FT)(_bad_input(_c, _k, _f))


def _ti_map(form, bias):
    def f(w):
        m = c_ti.build(w, bias, False, False)
        fm = emb_real("phi", m.d)
        m.obj.register_feature_map(fm)
        B, n = dim(), dim()
        if form == "raw":
            x = sym("x", B, n)
            out = m.obj(x)
        elif form == "embedded":
            x = sym("x", B, n, m.d)
            out = m.obj(x)
        else:
            x = [sym("x%d" % k, n) for k in range(2)]
            out = m.obj(list(x))
            B = 2
        if muted():
            return
        if form == "list":
            if shape("shape", out, [2, m.o]):
                o = idx(m.o)
                for k in range(2):
                    equal("mapped %d" % k, out.pel(k, o), c_ti.contraction(m, n, lambda t, j: fm.entry(x[k].pel(t), j), o))
            return
        e = (lambda b: lambda t, k: fm.entry(x.pel(b, t), k)) if form == "raw" else (lambda b: lambda t, k: x.pel(b, t, k))
        tensor_is("mapped", out, [B, m.o], lambda b, o: c_ti.contraction(m, n, e(b), o))
    return f


for _f in ("raw", "embedded", "list"):
    for _b in ("no bias", "fixed bias"):
        unit("C20", "sequence feature map[%s %s]" % (_f, _b), FT)(_ti_map(_f, _b))
