"""Probabilistic models: strategies agree (C03), sample independence and frame (C11), gradients (C19)."""
from .spec import *
from .c_prob import *
from .c_prob2 import trainable, reparam_t, TFN
from .c_norm import _mk as _norm_unit, mklam, zval, FN as NFN
from .c_sup import Frame, state, connected, frozen


def last_norm(m, k):
    true("get_log_norm is called", len(m.norm_calls) > 0, "no call of get_log_norm")
    return m.norm_calls[-1]


def same_norm(a, b):
    """two normalization queries get the same network"""
    if same_network(a[1], b[1]):
        return true("same normalization", True)
    return equal("same normalization", zval(*a[1]), zval(*b[1]))


def _strategy(uni, cplx, bias, emb, kind, strat):
    def f(w):
        amplitudes_nonzero()
        m = build(w, uni, cplx, bias, emb)
        norm_contract(w, m)
        B = dim()
        x, mat = inputs(m, kind, B)
        outs, norms = [], []
        for s in ("default", strat):
            outs.append(m.obj.forward(x, **STRAT[s]))
            if muted():
                return
            norms.append(last_norm(m, len(norms)))
        b = idx(B)
        if shape("shape", outs[0], [B]) and shape("shape of %s" % strat, outs[1], [B]):
            same_norm(*norms)
            equal("same unnormalized probability", pexp(outs[0].pel(b)) * pexp(norms[0][0].pel()), pexp(outs[1].pel(b)) * pexp(norms[1][0].pel()))
    return f


def single(x, b):
    """the batch that consists of sample b of x only; every other batch with this sample is compared to it"""
    return Tensor.make([1] + list(x.dims[1:]), x.dtype, lambda i, *r: x.el(b, *r))


def _independent(uni, cplx, bias, emb, kind, strat):
    def f(w):
        amplitudes_nonzero()
        m = build(w, uni, cplx, bias, emb)
        norm_contract(w, m)
        B = dim()
        x, mat = inputs(m, kind, B)
        b = idx(B)
        x2 = single(x, b)
        fr = Frame(**state(m.obj))
        xf = frozen(x) if kind == "vector" else None
        xb = x.st.body
        outs, norms = [], []
        for q in (x, x2):
            outs.append(m.obj.forward(q, **STRAT[strat]))
            if muted():
                return
            norms.append(last_norm(m, len(norms)))
        fr.check()
        if kind == "vector":
            tensor_is("input unchanged", x, [B, m.n, m.d], xf)
        else:
            true("input unchanged", x.st.body is xb or x.st.body == xb, "input written")
        if shape("shape", outs[0], [B]) and shape("shape of the single sample", outs[1], [1]):
            same_norm(*norms)
            equal("independent of the batch", pexp(outs[0].pel(b)) * pexp(norms[0][0].pel()), pexp(outs[1].pel(I(0))) * pexp(norms[1][0].pel()))
    return f


def _grad(uni, cplx, bias, emb, kind, strat):
    def f(w):
        amplitudes_nonzero()
        m = build(w, uni, cplx, bias, emb)
        norm_contract(w, m)
        B = dim()
        x, mat = inputs(m, kind, B)
        ins = []
        if kind == "vector":
            x.requires_grad = True
            ins = [("input", x)]
        with stopgrad() as sg:
            out = m.obj.forward(x, **STRAT[strat])
        if muted():
            return
        ps = list(m.obj.named_parameters())
        st = dict(ps)
        true("all ingredients are parameters", set(st) >= {"core_tensors", "edge_vecs"} | ({"bias_mat"} if bias else set()), sorted(st))
        grad_check(m, out, ps, ins, x, mat, B, sg)
    return f


def grad_check(m, out, ps, ins, x, mat, B, sg):
    o, net = last_norm(m, 0)
    connected("output", out, ps + ins)
    true("normalization is connected", "logZ" in out.lin, "the normalization is cut off from the output")
    lin = o.lin
    for n, p in ps:
        true("normalization reaches %s" % n, p._pid in lin, "no differentiable path from %s to the normalization" % n)
    if sg.used:
        b = idx(B)
        psi = amplitude(m, site(m, mat(b)))
        equal("no gradient is cut off (normalization)", zval(*net), reference_z(m))
        equal("no gradient is cut off", pexp(out.pel(b)) * pexp(o.pel()), psi * pconj(psi))


for _u in (False, True):
    _n = "uniform" if _u else "fixed"
    F = UFWD if _u else FWD
    for _c in (False, True):
        for _b in (False, True):
            for _k in ("index", "vector"):
                for _s in ("slim", "parallel"):
                    if not (_s == "slim" and _b):
                        unit("C03", "prob strategies[%s%s%s %s %s]" % (_n, " complex" if _c else "", " bias" if _b else "", _k, _s), F,
                             assumes=("amplitudes not all zero",))(_strategy(_u, _c, _b, None, _k, _s))
                for _s in STRAT:
                    if _s == "slim" and _b or _c and _s != "default":
                        continue
                    unit("C11", "prob sample independence[%s%s%s %s %s]" % (_n, " complex" if _c else "", " bias" if _b else "", _k, _s), F,
                         assumes=("amplitudes not all zero",))(_independent(_u, _c, _b, None, _k, _s))
                    unit("C19", "prob gradients[%s%s%s %s %s]" % (_n, " complex" if _c else "", " bias" if _b else "", _k, _s), F,
                         assumes=("amplitudes not all zero",))(_grad(_u, _c, _b, None, _k, _s))
    for _s in ("slim", "parallel"):
        for _e in (0, 1, 2):
            unit("C03", "prob strategies[%s embedding lam-rank %d %s]" % (_n, _e, _s), F, assumes=("amplitudes not all zero",))(_strategy(_u, False, False, _e, "index", _s))
    unit("C03", "prob strategies[%s bias embedding parallel]" % _n, F, assumes=("amplitudes not all zero",))(_strategy(_u, False, True, 2, "index", "parallel"))
    unit("C11", "prob sample independence[%s embedding]" % _n, F, assumes=("amplitudes not all zero",))(_independent(_u, False, False, 2, "index", "default"))
    unit("C11", "prob sample independence[%s bias embedding]" % _n, F, assumes=("amplitudes not all zero",))(_independent(_u, False, True, 2, "index", "default"))


def _train_grad(uni, bias, rank, strat):
    def f(w):
        amplitudes_nonzero()
        m = trainable(w, uni, bias, rank)
        norm_contract(w, m)
        reparam_t(m)
        B = dim()
        x = indices("x", [B, m.n], m.K)
        with stopgrad() as sg:
            out = m.obj.forward(x, **STRAT[strat])
        if muted():
            return
        ps = list(m.obj.named_parameters())
        true("the module's parameters are parameters of the model", any(p is m.mod.weight for _, p in ps))
        mat = lambda b: lambda t, i, j: total(m.d, lambda k: m.phi_t(x.el(b, t), k) * m.A(t, k, i, j))
        grad_check(m, out, ps, [], x, mat, B, sg)
    return f


def _norm_grad(uni, kind, cplx):
    def f(w):
        mb = w.module("torchmps.mps_base")
        amplitudes_nonzero()
        n, D, d = dim(), dim(), dim()
        core = sym("A", d, D, D, cplx=cplx) if uni else sym("A", n, d, D, D, cplx=cplx)
        bv = sym("e", 2, D, cplx=cplx)
        lam, lf, rank = mklam(kind, d, False)
        leaves = [("cores", core), ("boundary vectors", bv)] + ([("Lambda", lam)] if lam is not None else [])
        for _, t in leaves:
            t.requires_grad = True
        with stopgrad() as sg:
            out = mb.get_log_norm(core, bv, lamb_mat=lam, **({"length": n} if uni else {}))
        if muted():
            return
        connected("normalization", out, leaves)
        if sg.used:
            cf = (lambda t, x, a, b: core.pel(x, a, b)) if uni else core.pel
            equal("no gradient is cut off", pexp(out.pel()), zval(n, cf, lf, rank, d, D, lambda i: bv.pel(0, i), lambda i: bv.pel(1, i)))
    return f


for _u in (False, True):
    _n = "uniform" if _u else "fixed"
    for _s in STRAT:
        unit("C19", "prob gradients[%s trainable %s]" % (_n, _s), (UFWD if _u else FWD) + TFN, assumes=("amplitudes not all zero",))(_train_grad(_u, False, 1, _s))
    unit("C19", "prob gradients[%s trainable bias]" % _n, (UFWD if _u else FWD) + TFN, assumes=("amplitudes not all zero",))(_train_grad(_u, True, 2, "default"))
    for _k in (None, 0, 1, 2):
        for _c in (False, True):
            unit("C19", "normalization gradients[%s lam=%s%s]" % (_n, {None: "none", 0: "scalar", 1: "diag", 2: "full"}[_k], " complex" if _c else ""),
                 NFN, assumes=("amplitudes not all zero",))(_norm_grad(_u, _k, _c))
