"""Loss and direct normalization queries (C02, C08), models with trainable embeddings (C08, C01)."""
from .spec import *
from .c_prob import *
from .c_prob import _fwd
from . import c_prob as CP
from .c_emb import user_module

TFN = ("torchmps.embeddings.TrainableEmbedding.__init__", "torchmps.embeddings.TrainableEmbedding.forward", "torchmps.embeddings.TrainableEmbedding.emb_fun")


def _loss(uni, bias, strat):
    def f(w):
        amplitudes_nonzero()
        m = build(w, uni, False, bias)
        B = dim()
        x, mat = inputs(m, "index", B)
        calls = []

        def forward(input_data, slim_eval=False, parallel_eval=False):
            # contract of forward: the log probabilities lp of the input
            if input_data is not x:
                raise Unsupported("loss transforms its input")
            true("options are booleans", isinstance(slim_eval, bool) and isinstance(parallel_eval, bool))
            calls.append((slim_eval, parallel_eval))
            return sym("lp", B)
        m.obj.forward = forward
        out = m.obj.loss(x, **STRAT[strat])
        if muted():
            return
        # minus the mean of the log probabilities the model returns
        true("one evaluation", len(calls) >= 1)
        if bias:
            true("no slim evaluation with a bias", not any(a and not b for a, b in calls))
        if shape("shape", out, []):
            equal("loss", out.pel() * TT.ipoly(I(as_ip(B))), -total(B, sym("lp", B).pel))
    return f


def _query(uni, cplx, bias, emb):
    def f(w):
        amplitudes_nonzero()
        m = build(w, uni, cplx, bias, emb)
        norm_contract(w, m)
        out = m.obj.log_norm(m.n) if uni else m.obj.log_norm()
        if muted():
            return
        shape("shape", out, [])
        true("get_log_norm is called", len(m.norm_calls) == 1)
        o, net = m.norm_calls[0]
        equal("value", out.pel(), o.pel())
        true("network", same_network(net, reference_args(m)) or prove_eq(zval(*net), zval(*reference_args(m))) is True, "network of the normalization")
    return f


def trainable(w, uni, bias, rank):
    """a model built on a trainable embedding of integer or real data with an arbitrary module; make_lambda by contract"""
    pm = w.module("torchmps.prob_mps")
    em = w.module("torchmps.embeddings")
    m = Model()
    m.n, m.d, m.D, m.K = dim(), dim(), dim(), dim()
    m.uni, m.cplx, m.bias, m.emb, m.rank = uni, False, bias, rank, rank
    m.mod = user_module(lambda x, j, g: rfn("mod", (TT.ipoly(x), I(j), g), real=True), m.d)
    if not hasattr(em.TrainableEmbedding, "make_lambda"):
        raise Unsupported("TrainableEmbedding.make_lambda not found")
    d = I(as_ip(m.d))

    def make_lambda(self, num_points=1000):
        # contract of make_lambda: the matrices of the module's current parameters
        g = m.mod.weight.pel(I(0))
        self.emb_dim = m.d
        self.lamb_mat = Tensor.make([d] * rank, F32, lambda *i: lamfn(rank, g, *i), deps=(m.mod.weight,))
        self.bias_lamb_mat = Tensor.make([d + 1, d + 1], F32, lambda *i: lamfn(3, g, *i), deps=(m.mod.weight,))
    em.TrainableEmbedding.make_lambda = make_lambda
    e = em.TrainableEmbedding(m.mod, em.DataDomain(continuous=False, max_val=m.K))
    kw = dict(use_bias=bias, embed_fun=e)
    m.obj = pm.ProbUnifMPS(m.d, m.D, **kw) if uni else pm.ProbMPS(m.n, m.d, m.D, **kw)
    return m


def lamfn(kind, g, *i):
    return rfn("lam%d" % kind, (P(g),) + tuple(I(x) for x in i), real=True)


def reparam_t(m):
    reparam(m)
    m.g = m.mod.weight.pel(I(0))
    m.phi_t = lambda k, j: rfn("mod", (TT.ipoly(k), I(j), m.g), real=True)
    m.lam = (lambda x: lamfn(0, m.g)) if m.emb == 0 else (lambda *i: lamfn(m.emb, m.g, *i))
    m.rank = max(1, m.emb)
    m.blam = lambda *i: lamfn(3, m.g, *i)


def _train(uni, bias, rank, strat, query):
    def f(w):
        amplitudes_nonzero()
        m = trainable(w, uni, bias, rank)
        norm_contract(w, m)
        ps = [p for _, p in m.obj.named_parameters()]
        true("the module's parameters are exposed by the model", sum(1 for p in ps if p is m.mod.weight) == 1, "parameters of the wrapped module")
        true("they are trainable", m.mod.weight.requires_grad)
        B = dim()
        x = indices("x", [B, m.n], m.K)
        if query == "after evaluation":
            m.obj.forward(x, **STRAT[strat])
            if muted():
                return
            reparam_t(m)
        elif query == "fresh":
            m.obj.log_norm(m.n) if uni else m.obj.log_norm()
            if muted():
                return
            reparam_t(m)
            m.obj.log_norm(m.n) if uni else m.obj.log_norm()
            if muted():
                return
            o, net = m.norm_calls[-1]
            true("network", len(m.norm_calls) == 2 and same_network(net, reference_args(m)), "log_norm uses the current Lambda matrix")
            return
        else:
            reparam_t(m)
        k = len(m.norm_calls)
        out = m.obj.forward(x, **STRAT[strat])
        if muted():
            return
        if not shape("shape", out, [B]):
            return
        b = idx(B)
        mat = lambda t, i, j: total(m.d, lambda k: m.phi_t(x.el(b, t), k) * m.A(t, k, i, j))
        psi = amplitude(m, site(m, mat))
        true("normalization is evaluated with the current parameters", len(m.norm_calls) > k, "no call of get_log_norm")
        o, net = m.norm_calls[-1]
        true("normalization", same_network(net, reference_args(m)), "normalization uses the current Lambda matrix")
        equal("born", pexp(out.pel(b)) * pexp(o.pel()), psi * pconj(psi))
    return f


for _u in (False, True):
    _n = "uniform" if _u else "fixed"
    F = UFWD if _u else FWD
    for _b in (False, True):
        for _s in STRAT:
            if not (_s == "slim" and _b):
                unit("C02", "loss[%s%s %s]" % (_n, " bias" if _b else "", _s), F + ("torchmps.prob_mps.Prob%sMPS.loss" % ("Unif" if _u else ""),))(_loss(_u, _b, _s))
        unit(["C02", "C08"], "log_norm query[%s%s]" % (_n, " bias" if _b else ""), F)(_query(_u, False, _b, None))
        unit(["C02", "C08"], "log_norm query[%s%s embedding]" % (_n, " bias" if _b else ""), F)(_query(_u, False, _b, 2))
        for _r in ((0, 1, 2) if not _b else (2,)):
            for _q in ("current", "after evaluation", "fresh"):
                unit(["C08", "C01"], "trainable[%s%s lam-rank %d %s]" % (_n, " bias" if _b else "", _r, _q), F + TFN)(_train(_u, _b, _r, "default", _q))
    for _s in ("slim", "parallel"):
        unit(["C08", "C01"], "trainable[%s %s]" % (_n, _s), F + TFN)(_train(_u, False, 1, _s, "after evaluation"))
