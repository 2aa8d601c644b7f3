"""Embeddings: Lambda matrices (C07), trainable embeddings (C08), built-in embedding functions (C09)."""
import math
from .spec import *
from tvc import torchlib as TL
from tvc.values import mk_real

LAM = ("torchmps.embeddings.FixedEmbedding.__init__", "torchmps.embeddings.FixedEmbedding.make_lambda", "torchmps.embeddings.TrainableEmbedding.__init__",
       "torchmps.embeddings.TrainableEmbedding.make_lambda", "torchmps.embeddings.TrainableEmbedding.emb_fun", "torchmps.embeddings.bias_extend", "torchmps.embeddings.DataDomain.__init__")


def user_module(phi, d):
    """an arbitrary torch module with one parameter, mapping (..., 1) to (..., d)"""
    class UserModule(TL.Module):
        def __init__(self):
            super().__init__()
            self.weight = TL.Parameter(sym("uw", 1))

        def forward(self, x):
            holds("module input has a trailing singleton axis", eq(x.dims[-1], I(1)))
            g = self.weight
            return Tensor.make(list(x.dims[:-1]) + [I(as_ip(d))], F32,
                               lambda *i: phi((x.el if x.dtype.kind == "i" else x.pel)(*i[:-1], I(0)), i[-1], g.pel(I(0))), deps=(g, x))
    return UserModule()


def lam_reference(v, cont, N, K, a, b):
    """(x, y) -> sum or trapezoidal integral of v(., x) conj v(., y)"""
    if not cont:
        return lambda x, y: total(K, lambda k: v(k, x) * pconj(v(k, y)))
    n = as_ip(N)
    pt = lambda i: a + (b - a) * TT.ipoly(i) * TT.pinv(TT.ipoly(I(n) - 1))

    def f(x, y):
        g = lambda i: v(pt(i), x) * pconj(v(pt(i), y))
        return total(mk_int(I(n) - 1), lambda i: (pt(i + 1) - pt(i)) * (g(i) + g(i + 1)) * P(TT.Fraction(1, 2)))
    return f


def _lam(trainable, cont, cplx, again):
    def f(w):
        em = w.module("torchmps.embeddings")
        d, K = dim(), dim()
        N = 1000
        if cont:
            a, b = entry(Sym("dom_a"), ()), entry(Sym("dom_b"), ())
            try:
                dom = em.DataDomain(continuous=True, max_val=mk_real(b), min_val=mk_real(a))
            except AssertionError:
                raise PathEnd()     # precondition: min_val < max_val
        else:
            a = b = None
            dom = em.DataDomain(continuous=False, max_val=K)
        if trainable:
            phi = lambda x, j, g: rfn("mod", (P(x) if cont else TT.ipoly(x), I(j), g), real=True)
            m = user_module(phi, d)
            e = em.TrainableEmbedding(m, dom)
            e.make_lambda()
            g = havoc_params(e)
            g = [entry(s, (0,)) for s in g.values()][0]
            vec = lambda x, j: phi(x, j, g)
        else:
            fun = (emb_real if cont else emb_index)("phi", d, cplx)
            e = em.FixedEmbedding(fun, dom)
            vec = fun.entry
        if again:
            N = dim(2)
            e.make_lambda(N)
        elif trainable:
            e.make_lambda()
        if muted():
            return
        lam = e.lamb_mat
        ref = lam_reference(vec, cont, N, K, a, b)
        dd = I(as_ip(d))
        if lam.ndim == 2:
            tensor_is("full", lam, [d, d], ref)
        elif lam.ndim == 1:
            x, y = idx(d), idx(d)
            if shape("diag.shape", lam, [d]):
                equal("diag", rite(eq(x, y), lam.pel(x), ZERO), ref(x, y))
        else:
            x, y = idx(d), idx(d)
            if shape("scalar.shape", lam, []):
                equal("scalar", rite(eq(x, y), lam.pel(), ZERO), ref(x, y))
        ext = lambda k, j: rite(lt(j, dd), vec(k, j), ONE)
        d1 = mk_int(dd + 1)
        tensor_is("bias", e.bias_lamb_mat, [d1, d1], lam_reference(ext, cont, N, K, a, b))
    return f


for _t in (False, True):
    for _c in (False, True):
        for _x in ((False, True) if not _t else (False,)):
            unit(["C07", "C08"] if _t else "C07", "make_lambda[%s %s%s]" % ("trainable" if _t else "fixed", "continuous" if _c else "discrete", " complex" if _x else ""), LAM)(_lam(_t, _c, _x, False))
            if _c:
                unit(["C07", "C08"] if _t else "C07", "make_lambda[%s %s%s any grid]" % ("trainable" if _t else "fixed", "continuous" if _c else "discrete", " complex" if _x else ""), LAM)(_lam(_t, _c, _x, True))


def _lam_grad(cont, again):
    def f(w):
        em = w.module("torchmps.embeddings")
        d, K = dim(), dim()
        if cont:
            try:
                dom = em.DataDomain(continuous=True, max_val=mk_real(entry(Sym("dom_b"), ())), min_val=mk_real(entry(Sym("dom_a"), ())))
            except AssertionError:
                raise PathEnd()
        else:
            dom = em.DataDomain(continuous=False, max_val=K)
        m = user_module(lambda x, j, g: rfn("mod", (P(x) if cont else TT.ipoly(x), I(j), g), real=True), d)
        with stopgrad() as sg:
            e = em.TrainableEmbedding(m, dom)
            e.make_lambda()
            if again:
                e.make_lambda()
        if muted():
            return
        p = m.weight._pid
        true("Lambda matrix is differentiable in the module's parameters", p in e.lamb_mat.lin)
        true("extended Lambda matrix is differentiable in the module's parameters", p in e.bias_lamb_mat.lin)
        if sg.used:
            raise Unsupported("part of the computation is cut off from differentiation")
    return f


for _c in (False, True):
    for _a in (False, True):
        unit("C19", "make_lambda gradients[%s%s]" % ("continuous" if _c else "discrete", " again" if _a else ""), LAM)(_lam_grad(_c, _a))


# ------------------------------------------------------------------ C09
EMB = ("torchmps.embeddings.onehot_embed", "torchmps.embeddings.trig_embed", "torchmps.embeddings.init_mlp_embed", "torchmps.embeddings.DataDomain.__init__")


def _onehot(r):
    def f(w):
        em = w.module("torchmps.embeddings")
        d = dim()
        sh = [dim(0) for _ in range(r)]
        t = indices("t", sh, d)
        out = em.onehot_embed(t, d)
        if muted():
            return
        tensor_is("onehot", out, sh + [d], lambda *i: ind(eq(t.el(*i[:-1]), i[-1])))
        ix = [idx(x) for x in sh]
        if r:
            holds("input unchanged", eq(t.el(*ix), indices("t", sh, d).el(*ix)))
    return f


for _r in range(6):
    unit("C09", "onehot[rank %d]" % _r, EMB, bounded="rank of the index tensor as listed")(_onehot(_r))


def _trig(r, d):
    def f(w):
        em = w.module("torchmps.embeddings")
        n = dim() if d is None else d
        sh = [dim(0) for _ in range(r)]
        x = sym("x", *sh)
        out = em.trig_embed(x, n) if d != "sincos" else em.sincos_embed(x)
        if d == "sincos":
            n = 2
        if muted():
            return
        N = I(as_ip(n))
        ang = lambda i: x.pel(*i) * TT.PI * P(TT.Fraction(1, 2))

        def ref(*i):
            j = i[-1]
            c, s = T.trigfn("cos", ang(i[:-1])), T.trigfn("sin", ang(i[:-1]))
            b = P(as_ip(TL._comb(mk_int(N - 1), mk_int(j))))
            return TT.ppow(b, TT.Fraction(1, 2)) * TT.ppowi(c, N - 1 - j) * TT.ppowi(s, j)
        if N.const() is None:
            tensor_is("trig", out, sh + [n], ref)
            return
        if shape("trig.shape", out, sh + [n]):
            i = [idx(a) for a in sh]
            c, s = T.trigfn("cos", ang(i)), T.trigfn("sin", ang(i))
            for j in range(N.const()):
                want = TT.ppow(P(math.comb(N.const() - 1, j)), TT.Fraction(1, 2)) * TT.ppow(c, N.const() - 1 - j) * TT.ppow(s, j)
                equal("trig.component %d" % j, out.pel(*i, I(j)), want)
            # unit norm, from cos^2 + sin^2 = 1
            i = [idx(a) for a in sh]
            c, s = T.trigfn("cos", ang(i)), T.trigfn("sin", ang(i))
            p = ZERO
            for j in range(N.const()):
                p = p + out.pel(*i, I(j)) * out.pel(*i, I(j))
            q = ONE
            for j in range(N.const() - 1):
                q = q * (c * c + s * s)
            equal("unit norm", p, q)
    return f


for _r in range(5):
    unit("C09", "trig[rank %d]" % _r, EMB, bounded="rank of the data tensor as listed")(_trig(_r, None))
    unit("C09", "sincos[rank %d]" % _r, EMB, bounded="rank of the data tensor as listed")(_trig(_r, "sincos"))
for _d in range(1, 11):
    unit("C09", "trig[dimension %d]" % _d, EMB, bounded="dimension as listed")(_trig(1, _d))


def _mlp(layers, kind, domain):
    def f(w):
        em = w.module("torchmps.embeddings")
        od = dim()
        hid = dim() if kind == "int" else [dim() for _ in range(layers - 1)]
        dom = em.DataDomain(continuous=False, max_val=dim()) if domain else None
        kw = dict(num_layers=layers, hidden_dims=hid if kind != "tuple" else tuple(hid))
        if domain:
            kw["data_domain"] = dom
        e = em.init_mlp_embed(od, **kw)
        if muted():
            return
        ws = [1] + ([hid] * (layers - 1) if kind == "int" else hid) + [od]
        true("trainable embedding", isinstance(e, em.TrainableEmbedding), type(e).__name__)
        lin = [m for m in e.modules() if isinstance(m, TL.Linear)]
        true("number of linear layers", len(lin) == layers, len(lin))
        for k, m in enumerate(lin):
            holds("width in %d" % k, eq(I(as_ip(m.weight.shape[1])), I(as_ip(ws[k]))))
            holds("width out %d" % k, eq(I(as_ip(m.weight.shape[0])), I(as_ip(ws[k + 1]))))
        if domain:
            true("domain", e.domain is dom, "data domain")
        else:
            true("default domain", e.domain.continuous is True and e.domain.max_val == 1 and e.domain.min_val == 0, "unit interval")
        n = dim()
        x = sym("x", n) if not domain else indices("x", [n], dim())
        if not domain:
            out = e.emb_fun(x)
            shape("maps scalars to the output dimension", out, [n, od])
    return f


for _l in range(1, 9):
    for _k in ("int", "list", "tuple"):
        unit("C09", "mlp[%d layers, %s widths]" % (_l, _k), EMB, bounded="number of layers as listed; all widths arbitrary")(_mlp(_l, _k, _k == "list"))


@unit("C09", "data domain[continuous]", EMB)
def _dc(w):
    em = w.module("torchmps.embeddings")
    a, b = entry(Sym("dom_a"), ()), entry(Sym("dom_b"), ())
    try:
        d = em.DataDomain(True, mk_real(b), mk_real(a))
    except AssertionError:
        if not muted():
            true("empty intervals are rejected only", not (mk_real(b) > mk_real(a)), "valid interval rejected")
        return
    if muted():
        return
    true("valid interval", bool(mk_real(b) > mk_real(a)), "empty interval accepted")
    equal("max", P(d.max_val.p), b)
    equal("min", P(d.min_val.p), a)
    true("kind", d.continuous is True)


@unit("C09", "data domain[discrete]", EMB)
def _dd(w):
    em = w.module("torchmps.embeddings")
    k = dim(-5)
    try:
        d = em.DataDomain(False, k)
    except AssertionError:
        if not muted():
            holds("negative sizes are rejected only", lt(as_ip(k), 0))
        return
    if muted():
        return
    holds("valid size", le(0, as_ip(k)))
    holds("size", eq(I(as_ip(d.max_val)), I(as_ip(k))))
    true("kind", d.continuous is False)
