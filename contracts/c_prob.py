"""Probabilistic models: Born rule, normalization, strategies (C01, C02, C03, C07, C08)."""
from .spec import *
from .c_norm import zval, mklam

FWD = ("torchmps.prob_mps.ProbMPS.__init__", "torchmps.prob_mps.ProbMPS.forward", "torchmps.prob_mps.ProbMPS.log_norm", "torchmps.mps_base.get_mat_slices",
       "torchmps.mps_base.contract_matseq", "torchmps.mps_base.mat_reduce_par", "torchmps.mps_base.mat_reduce_seq", "torchmps.mps_base.slim_eval_fun",
       "torchmps.mps_base.get_log_norm", "torchmps.utils2.CIndex.__getitem__", "torchmps.utils2.phaseify", "torchmps.mps_base.near_eye_init")
UFWD = tuple(f.replace("ProbMPS", "ProbUnifMPS") for f in FWD)


class Model:
    pass


def build(w, uni, cplx, bias, emb=None):
    """a model with arbitrary parameter values; emb: None or the rank of the embedding's Lambda matrix"""
    pm = w.module("torchmps.prob_mps")
    em = w.module("torchmps.embeddings")
    m = Model()
    m.n, m.d, m.D = dim(), dim(), dim()
    m.uni, m.cplx, m.bias, m.emb = uni, cplx, bias, emb
    kw = dict(complex_params=cplx, use_bias=bias)
    m.K = None
    if emb is not None:
        # an embedding object with an arbitrary function; its Lambda matrix is
        # replaced by an arbitrary positive one of the given rank (contract of make_lambda)
        m.K = dim()
        m.phi = emb_index("phi", m.d)
        if not hasattr(em.FixedEmbedding, "make_lambda"):
            raise Unsupported("FixedEmbedding.make_lambda not found")

        def make_lambda(self, num_points=1000):
            self.emb_dim = m.d
            self.lamb_mat = self.bias_lamb_mat = None
        em.FixedEmbedding.make_lambda = make_lambda
        e = em.FixedEmbedding(m.phi, em.DataDomain(continuous=False, max_val=m.K))
        e.lamb_mat, m.lam, m.rank = mklam(emb, m.d, False)
        if bias:
            # contract of make_lambda for the extended vectors (phi, 1)
            e.bias_lamb_mat = sym("blam", mk_int(I(as_ip(m.d)) + 1), mk_int(I(as_ip(m.d)) + 1), psd=True)
            m.blam = lambda x, y: e.bias_lamb_mat.pel(x, y)
        kw["embed_fun"] = e
    m.obj = pm.ProbUnifMPS(m.d, m.D, **kw) if uni else pm.ProbMPS(m.n, m.d, m.D, **kw)
    reparam(m)
    return m


def reparam(m):
    """arbitrary values of all parameters (any training history)"""
    uni, bias, emb = m.uni, m.bias, m.emb
    m.gen = getattr(m, "gen", 0) + 1
    s = havoc_params(m.obj, "" if m.gen == 1 else "%d:" % m.gen)
    A, m.e = s["core_tensors"], s["edge_vecs"]
    m.B = (lambda i, j: entry(s["bias_mat"], (i, j))) if bias else (lambda i, j: ZERO)
    m.A = (lambda t, x, i, j: entry(A, (x, i, j))) if uni else (lambda t, x, i, j: entry(A, (t, x, i, j)))
    if bias and emb is None:
        # arbitrary cores A and bias B, parametrized by arbitrary C = A + B and B
        core = m.A
        m.A = lambda t, x, i, j: core(t, x, i, j) - m.B(i, j)
        st = dict(m.obj.named_parameters())["core_tensors"].st
        ix = [ivar(v) for v in st.ix]
        st.body = st.body - m.B(ix[-2], ix[-1])
    m.l = lambda i: entry(m.e, (0, i))
    m.r = lambda i: entry(m.e, (1, i))
    m.params = s


def site(m, x):
    """matrix of site t for input x: (t, i, j) -> entry"""
    return lambda t, i, j: x(t, i, j) + m.B(i, j)


def amplitude(m, mat):
    return total(m.D, lambda a: total(m.D, lambda b: m.l(a) * product(m.n, mat, a, b, m.D) * m.r(b)))


def inputs(m, kind, B):
    """input batch and the (unbiased) site matrix it selects: b -> (t, i, j) -> entry"""
    if kind == "index":
        if m.emb is not None:
            x = indices("x", [B, m.n], m.K)
            return x, lambda b: lambda t, i, j: total(m.d, lambda k: m.phi.entry(x.el(b, t), k) * m.A(t, k, i, j))
        x = indices("x", [B, m.n], m.d)
        return x, lambda b: lambda t, i, j: m.A(t, x.el(b, t), i, j)
    x = sym("x", B, m.n, m.d)
    return x, lambda b: lambda t, i, j: total(m.d, lambda k: x.pel(b, t, k) * m.A(t, k, i, j))


def reference_args(m):
    if m.emb is None or not m.bias:
        lam, rank = (lambda x: ONE, 1) if m.emb is None else (m.lam, m.rank)
        return m.n, lambda t, x, i, j: m.A(t, x, i, j) + m.B(i, j), lam, rank, m.d, m.D, m.l, m.r
    # extended slices (A_1, ..., A_d, B) and the matrix of the extended vectors
    d = I(as_ip(m.d))
    ext = lambda t, x, i, j: rite(lt(x, d), m.A(t, x, i, j), m.B(i, j))
    return m.n, ext, m.blam, 2, mk_int(d + 1), m.D, m.l, m.r


def reference_z(m):
    return zval(*reference_args(m))


def same_network(got, want):
    """sufficient condition for equal normalization constants: entrywise equal ingredients"""
    n, core, lam, rank, d, D, l, r = got
    n2, core2, lam2, rank2, d2, D2, l2, r2 = want
    if rank != rank2 or not C.entails(band(eq(I(as_ip(n)), I(as_ip(n2))), eq(I(as_ip(d)), I(as_ip(d2))), eq(I(as_ip(D)), I(as_ip(D2))))):
        return False
    t, x, y, i, j = idx(n), idx(d), idx(d), idx(D), idx(D)
    lx = (lambda f: f(x, y)) if rank == 2 else (lambda f: f(x))
    return all(prove_eq(P(a), P(b)) is True for a, b in (
        (core(t, x, i, j), core2(t, x, i, j)), (lx(lam), lx(lam2)), (l(i), l2(i)), (r(i), r2(i))))


def norm_contract(w, m):
    """replace get_log_norm by its contract (proved in c_norm.py): the log of the
    transfer contraction of whatever cores, boundary vectors and Lambda it is given"""
    pm = w.module("torchmps.prob_mps")
    if not hasattr(pm, "get_log_norm"):
        raise Unsupported("prob_mps does not import get_log_norm")
    m.norm_calls = []

    def get_log_norm(core_tensor, boundary_vecs, length=None, lamb_mat=None):
        uniform = core_tensor.ndim == 3
        n = length if uniform else core_tensor.shape[0]
        if n is None or not shape("get_log_norm pre: boundary vectors", boundary_vecs, [2, core_tensor.shape[-1]]):
            raise Unsupported("precondition of get_log_norm")
        d, D = core_tensor.shape[-3], core_tensor.shape[-1]
        holds("get_log_norm pre: square cores", eq(I(as_ip(core_tensor.shape[-2])), I(as_ip(D))))
        core = (lambda t, x, i, j: core_tensor.pel(x, i, j)) if uniform else core_tensor.pel
        l, r = (lambda i: boundary_vecs.pel(0, i)), (lambda i: boundary_vecs.pel(1, i))
        if lamb_mat is None:
            lam, rank = (lambda x: ONE), 1
        else:
            shape("get_log_norm pre: Lambda", lamb_mat, [d] * lamb_mat.ndim)
            rank = max(1, lamb_mat.ndim)
            lam = (lambda x: lamb_mat.pel()) if lamb_mat.ndim == 0 else lamb_mat.pel
        out = sym("logZ%d" % len(m.norm_calls))
        if X().grad:
            # differentiable in all arguments (proved: normalization gradients)
            out.st.lin = frozenset(["logZ"]).union(core_tensor.lin, boundary_vecs.lin, lamb_mat.lin if lamb_mat is not None else ())
        m.norm_calls.append((out, (n, core, lam, rank, d, D, l, r)))
        return out
    pm.get_log_norm = get_log_norm


STRAT = {"default": {}, "slim": dict(slim_eval=True), "parallel": dict(parallel_eval=True)}


def prior(m, uni):
    """an arbitrary earlier evaluation, with other parameters and another input, in evaluation mode"""
    m.obj.eval()
    n = dim() if uni else m.n
    m.obj.forward(indices("x0", [dim(), n], m.K or m.d))
    reparam(m)


def _fwd(uni, cplx, bias, emb, kind, strat, history=False, modular=True):
    def f(w):
        amplitudes_nonzero()
        m = build(w, uni, cplx, bias, emb)
        if modular:
            norm_contract(w, m)
        if history:
            prior(m, uni)
        B = dim()
        x, mat = inputs(m, kind, B)
        out = m.obj.forward(x, **STRAT[strat])
        if muted():
            return
        if not shape("shape", out, [B]):
            return
        b = idx(B)
        psi = amplitude(m, site(m, mat(b)))
        if modular:
            true("get_log_norm is called", len(m.norm_calls) > 0)
            for o, net in m.norm_calls[-1:]:
                if same_network(net, reference_args(m)):
                    true("normalization", True)
                else:
                    equal("normalization", zval(*net), reference_z(m))
                equal("born", pexp(out.pel(b)) * pexp(o.pel()), psi * pconj(psi))
            return
        z = reference_z(m)
        # exp(log p) * Z = |psi|^2 with exp(-inf) = 0 for psi = 0
        equal("born", pexp(out.pel(b)), psi * pconj(psi) / z)
    return f


for _u in (False, True):
    for _c in (False, True):
        for _b in (False, True):
            for _k in ("index", "vector"):
                for _s in STRAT:
                    if _s == "slim" and _b:
                        continue
                    unit(["C02", "C01"] if _k == "index" else ["C02"],
                         "prob[%s%s%s %s %s]" % ("uniform" if _u else "fixed", " complex" if _c else "", " bias" if _b else "", _k, _s),
                         UFWD if _u else FWD, assumes=("amplitudes not all zero",))(_fwd(_u, _c, _b, None, _k, _s))
for _u in (False, True):
    for _h, _b in (("index", False), ("index", True)):
        unit(["C01", "C02", "C11"], "prob[%s%s after any evaluation]" % ("uniform" if _u else "fixed", " bias" if _b else ""),
             UFWD if _u else FWD, assumes=("amplitudes not all zero",))(_fwd(_u, False, _b, None, _h, "default", True))
    for _s in ("default", "parallel"):
        unit(["C02", "C01", "C07"], "prob[%s bias embedding %s]" % ("uniform" if _u else "fixed", _s), UFWD if _u else FWD,
             assumes=("amplitudes not all zero",))(_fwd(_u, False, True, 2, "index", _s))
    unit(["C02", "C01", "C07"], "prob[%s complex embedding]" % ("uniform" if _u else "fixed"), UFWD if _u else FWD,
             assumes=("amplitudes not all zero",))(_fwd(_u, True, False, 2, "index", "default"))
    for _e in (0, 1, 2):
        for _s in STRAT:
            unit(["C02", "C01", "C07"] if _s == "default" else ["C02"],
                 "prob[%s embedding lam-rank %d %s]" % ("uniform" if _u else "fixed", _e, _s), UFWD if _u else FWD, assumes=("amplitudes not all zero",))(_fwd(_u, False, False, _e, "index", _s))
