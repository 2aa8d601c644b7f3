"""Supervised MPS (non-adaptive): contraction, strategies, batch independence, paths (C03, C10, C11, C19, C20)."""
from .spec import *

MP = "torchmps.torchmps."
CT = "torchmps.contractables."
FN = tuple(MP + x for x in ("MPS.__init__", "MPS.forward", "MPS.embed_input", "LinearRegion.__init__", "LinearRegion.forward", "InputRegion.__init__",
                            "InputRegion.forward", "OutputSite.forward")) + tuple(CT + x for x in (
                                "Contractable.__init__", "Contractable.__mul__", "ContractableList.reduce", "MatRegion.__mul__", "MatRegion.reduce", "EdgeVec.__mul__"))


class M:
    pass


def havoc_bs(w):
    """the class-wide batch size left behind by any models evaluated before"""
    ct = w.module("torchmps.contractables")
    if "global_bs" in vars(ct.Contractable):
        ct.Contractable.global_bs = dim() if decide_free() else None
    return ct


def decide_free():
    return decide(eq(ivar(C.fresh(0, 2)), 0))


def build(w, where, periodic, parallel, bias, d=None, path=None, n=None, ls=None, o=None, D=None):
    tm = w.module("torchmps.torchmps")
    ct = havoc_bs(w)
    m = M()
    m.n = n or (dim(2) if where == "mid" else dim(1))
    m.o, m.D = o or dim(), D or dim()
    m.d = d or dim()
    m.ls = {"left": mk_int(I(0)), "right": m.n, "mid": None, "default": None}[where]
    kw = {}
    if where == "mid":
        m.ls = ls or mk_int(ivar(C.fresh(1, I(as_ip(m.n)))))
    if where != "default":
        kw["label_site"] = m.ls
    if path is not None:
        kw["path"] = path
    m.obj = tm.MPS(m.n, m.o, m.D, feature_dim=m.d, periodic_bc=periodic, parallel_eval=parallel, use_bias=bias, **kw)
    if where == "default":
        m.ls = m.n // 2
    m.periodic, m.bias = periodic, bias
    l = I(as_ip(m.ls))
    # arbitrary values of all parameters
    st = {}
    for nm, p in list(m.obj.named_parameters()) + list(m.obj.named_buffers()):
        st.setdefault(p.st.sid, (nm, p, havoc(p, nm, view=True)))
    m.params = st
    mods = list(m.obj.linear_region.module_list)
    m.regions, m.out = [], None
    for mod in mods:
        if isinstance(mod, tm.OutputSite):
            m.out = mod
        else:
            m.regions.append((m.out is None, mod))
    true("one output site", m.out is not None and 1 <= len(m.regions) <= 2)
    O = m.out.tensor
    O0 = O.st.body, O.st.ix
    at = lambda T_: (lambda *i: T_(*i))
    m.O = frozen(m.out.tensor)
    m.A = [(left, frozen(r.tensor), frozen(r.bias_mat) if bias else None) for left, r in m.regions]
    return m


def frozen(t):
    """the current entries of a tensor, as a function (unaffected by later updates)"""
    r = t.clone()
    return lambda *i: r.pel(*i)


def site(m, x):
    """matrix of site t for features x(t, k): (t, i, j) -> entry; sites of the second region continue the count"""
    l = I(as_ip(m.ls))

    def f(t, i, j):
        out = ZERO
        for left, A, B in m.A:
            off = I(0) if left else l
            v = total(m.d, lambda k: A(t - off, i, j, k) * x(t, k))
            if B is not None:
                v = v + B(I(0), i, j)
            if len(m.A) == 1:
                return v
            out = out + ind(lt(t, l) if left else le(l, t)) * v
        return out
    return f


def contraction(m, x, o):
    """reference: left product, output core, right product, closed by the boundary condition"""
    l, n, D = I(as_ip(m.ls)), I(as_ip(m.n)), m.D

    def part(left):
        A = [(a, b) for lf, a, b in m.A if lf is left]
        if not A:
            return None
        A, B = A[0]
        off = I(0) if left else l

        def f(t, i, j):
            v = total(m.d, lambda k: A(t - off, i, j, k) * x(t, k))
            return v + B(I(0), i, j) if B is not None else v
        return f
    fl, fr = part(True), part(False)
    pl = lambda i, j: product(mk_int(l), fl, i, j, D) if fl else delta(i, j)
    pr = lambda i, j: product(mk_int(n), fr, i, j, D, lo=l) if fr else delta(i, j)

    def full(i, j):
        if not fl:
            return total(D, lambda b: m.O(o, i, b) * pr(b, j))
        if not fr:
            return total(D, lambda a: pl(i, a) * m.O(o, a, j))
        return total(D, lambda a: total(D, lambda b: pl(i, a) * m.O(o, a, b) * pr(b, j)))
    return total(D, lambda i: full(i, i)) if m.periodic else full(I(0), I(0))


def _sup(where, periodic, parallel, bias):
    def f(w):
        m = build(w, where, periodic, parallel, bias)
        B = dim()
        x = sym("x", B, m.n, m.d)
        out = m.obj(x)
        if muted():
            return
        tensor_is("contraction", out, [B, m.o], lambda b, o: contraction(m, lambda t, k: x.pel(b, t, k), o))
    return f


def _strategies(where, periodic, bias):
    """serial and parallel evaluation of equal models"""
    def f(w):
        sizes = dict(n=dim(2) if where == "mid" else dim(1), d=dim(), o=dim(), D=dim())
        if where == "mid":
            sizes["ls"] = mk_int(ivar(C.fresh(1, I(as_ip(sizes["n"])))))
        B = dim()
        x = sym("x", B, sizes["n"], sizes["d"])
        outs = [build(w, where, periodic, par, bias, **sizes).obj(x) for par in (False, True)]
        if muted():
            return
        o = mk_int(I(as_ip(sizes["o"])))
        if shape("shape", outs[0], [B, o]):
            tensor_is("same output", outs[1], [B, o], lambda b, k: outs[0].pel(b, k))
    return f


def other_batch(x, b, B2, b2, name):
    """another batch of size B2 (arbitrary entries) whose sample b2 is sample b of x"""
    y = Sym(name, x.dtype.kind == "c")
    sh = [I(as_ip(B2))] + list(x.dims[1:])
    return Tensor.make(sh, x.dtype, lambda i, *r: rite(eq(i, b2), x.pel(b, *r), entry(y, (i,) + r)))


class Frame:
    """remembers the entries of tensors; check() states that they are unchanged"""

    def __init__(self, **ts):
        self.l = [(n, t, frozen(t), list(t.dims)) for n, t in ts.items()]

    def check(self):
        for n, t, f, dims in self.l:
            tensor_is("%s unchanged" % n, t, [mk_int(d) for d in dims], f)


def state(obj):
    return {n: p for n, p in list(obj.named_parameters()) + list(obj.named_buffers())}


def _independent(where, periodic, parallel, bias):
    def f(w):
        m = build(w, where, periodic, parallel, bias)
        B, B2 = dim(), dim()
        x = sym("x", B, m.n, m.d)
        b, b2, o = idx(B), idx(B2), idx(m.o)
        x2 = other_batch(x, b, B2, b2, "y")
        fr = Frame(**state(m.obj), input=x)
        out = m.obj(x)
        out2 = m.obj(x2)
        if muted():
            return
        fr.check()
        if shape("shape", out, [B, m.o]) and shape("shape of the other batch", out2, [B2, m.o]):
            equal("independent of the batch", out.pel(b, o), out2.pel(b2, o))
    return f


def connected(name, out, params, extra=()):
    """every trainable parameter is connected to the output by differentiable operations"""
    for n, p in params:
        if any(d.const() == 0 for d in p.dims):
            continue            # the empty placeholder of a switched-off bias takes no part in the contraction
        true("%s reaches %s" % (name, n), p.requires_grad and p._pid in out.lin, "no differentiable path from %s" % n)
    true("%s requires grad" % name, out.requires_grad)


def _grad(where, periodic, parallel, bias):
    def f(w):
        m = build(w, where, periodic, parallel, bias)
        x = sym("x", dim(), m.n, m.d)
        x.requires_grad = True
        with stopgrad() as sg:
            out = m.obj(x)
        if muted():
            return
        if sg.used:
            # the output must not depend on values cut off from differentiation
            tensor_is("no gradient is cut off", out, [x.shape[0], m.o], lambda b, o: contraction(m, lambda t, k: x.pel(b, t, k), o))
        ps = list(m.obj.named_parameters())
        holds_names = [r.tensor for _, r in [(0, q) for q in m.obj.linear_region.module_list]]
        true("all cores are parameters", all(any(t is p for _, p in ps) for t in holds_names))
        connected("output", out, ps + [("input", x)])
    return f


CASES = [(p, b, w) for p in (False, True) for b in (False, True) for w in ("left", "mid", "right")]
for _p, _b, _w in CASES + [(False, True, "default")]:
    _n = "%s%s label %s" % ("periodic" if _p else "open", " bias" if _b else "", _w)
    for _e in (False, True):
        unit("C10", "supervised[%s%s]" % (_n, " parallel" if _e else ""), FN)(_sup(_w, _p, _e, _b))
        if _w != "default":
            unit("C11", "sample independence[%s%s]" % (_n, " parallel" if _e else ""), FN)(_independent(_w, _p, _e, _b))
            unit("C19", "gradients[%s%s]" % (_n, " parallel" if _e else ""), FN)(_grad(_w, _p, _e, _b))
    if _w != "default":
        unit("C03", "supervised strategies[%s]" % _n, FN)(_strategies(_w, _p, _b))
