"""Sequence MPS (C15, C03, C11, C19, C20)."""
from .spec import *
from .c_sup import M, havoc_bs, frozen, Frame, state, connected, other_batch, CT, MP

FN = tuple(MP + x for x in ("TI_MPS.__init__", "TI_MPS.forward", "TI_MPS.format_input", "TI_MPS.embed_input", "InputRegion.__init__", "InputRegion.forward",
                            "InitialVector.__init__", "InitialVector.forward", "TerminalOutput.__init__", "TerminalOutput.forward")) + tuple(CT + x for x in (
                                "Contractable.__init__", "Contractable.__mul__", "ContractableList.reduce", "MatRegion.__mul__", "MatRegion.reduce", "EdgeVec.__mul__",
                                "OutputMat.__mul__"))
BIAS = {"no bias": dict(use_bias=False), "fixed bias": dict(use_bias=True, fixed_bias=True), "trained bias": dict(use_bias=True, fixed_bias=False)}


def build(w, bias, parallel, fixed_ends, d=None, D=None, o=None):
    tm = w.module("torchmps.torchmps")
    havoc_bs(w)
    m = M()
    m.D, m.d = D or dim(), d or dim()
    m.o = o or dim()
    if fixed_ends and o is None:
        # the fixed terminal matrix needs output_dim <= bond_dim
        m.o = mk_int(ivar(C.fresh(1, I(as_ip(m.D)) + 1)))
    m.obj = tm.TI_MPS(m.o, m.D, feature_dim=m.d, parallel_eval=parallel, fixed_ends=fixed_ends, **BIAS[bias])
    m.bias = bias
    for nm, p in m.obj.named_parameters():
        havoc(p, nm, view=True)
    snap(m)
    return m


def snap(m):
    m.A = frozen(m.obj.core_tensor)
    m.l, m.T = frozen(m.obj.init_vector.vec), frozen(m.obj.terminal_mat.mat)
    b = m.obj.bias_mat
    m.B = (lambda i, j: ZERO) if m.bias == "no bias" else (lambda i, j: ind(eq(i, j))) if m.bias == "fixed bias" else frozen(b)


def contraction(m, n, x, o):
    mat = lambda t, i, j: total(m.d, lambda k: m.A(i, j, k) * x(t, k)) + m.B(i, j)
    return total(m.D, lambda i: total(m.D, lambda j: m.l(i) * product(n, mat, i, j, m.D) * m.T(j, o)))


def _ti(bias, parallel, ends, raw):
    def f(w):
        m = build(w, bias, parallel, ends, d=mk_int(I(2)) if raw else None)
        B, n = dim(), dim()
        x = sym("x", B, n) if raw else sym("x", B, n, m.d)
        out = m.obj(x)
        if muted():
            return
        e = (lambda b: lambda t, k: rite(eq(k, 0), x.pel(b, t), ONE - x.pel(b, t))) if raw else (lambda b: lambda t, k: x.pel(b, t, k))
        tensor_is("contraction", out, [B, m.o], lambda b, o: contraction(m, n, e(b), o))
    return f


for _b in BIAS:
    for _e in (False, True):
        for _p in (False, True):
            for _r in (False, True):
                unit("C15", "sequence MPS[%s%s%s%s]" % (_b, " fixed ends" if _e else "", " parallel" if _p else "", " raw" if _r else ""), FN)(_ti(_b, _p, _e, _r))


def _lists(bias, parallel, raw, count):
    """a list of sequences of any lengths"""
    def f(w):
        m = build(w, bias, parallel, False, d=mk_int(I(2)) if raw else None)
        same = bias != "fixed bias"
        ns = [dim()] * count if same else [dim() for _ in range(count)]
        xs = [sym("x%d" % k, n) if raw else sym("x%d" % k, n, m.d) for k, n in enumerate(ns)]
        out = m.obj(list(xs))
        if muted():
            return
        if not shape("shape", out, [count, m.o]):
            return
        o = idx(m.o)
        for k, (x, n) in enumerate(zip(xs, ns)):
            e = (lambda t, j: rite(eq(j, 0), x.pel(t), ONE - x.pel(t))) if raw else x.pel
            equal("sequence %d alone" % k, out.pel(k, o), contraction(m, n, e, o))
    return f


def _reject(bias, raw):
    """different lengths without a fixed identity bias cannot be padded neutrally"""
    def f(w):
        m = build(w, bias, False, False, d=mk_int(I(2)) if raw else None)
        n = dim()
        n2 = mk_int(I(as_ip(n)) + I(as_ip(dim())))
        pair = [n, n2] if decide_order() else [n2, n]
        xs = [sym("x%d" % k, q) if raw else sym("x%d" % k, q, m.d) for k, q in enumerate(pair)]
        raises("rejected", lambda: m.obj(list(xs)), ValueError)
    return f


def decide_order():
    return decide(eq(ivar(C.fresh(0, 2)), 0))


for _p in (False, True):
    for _r in (False, True):
        for _b in BIAS:
            for _c in ((1, 2, 3) if _b == "fixed bias" else (2,)):
                unit("C15", "sequence list[%s%s%s, %d]" % (_b, " parallel" if _p else "", " raw" if _r else "", _c), FN, bounded="number of sequences as listed; all lengths arbitrary")(_lists(_b, _p, _r, _c))
for _r in (False, True):
    for _b in ("no bias", "trained bias"):
        unit("C15", "sequence list rejected[%s%s]" % (_b, " raw" if _r else ""), FN)(_reject(_b, _r))


def sequences(m, B, raw, same, nm="x"):
    """a list of B sequences: (list, entries, length of the b-th sequence)"""
    from tvc.seqs import Run
    C.APPAX["len" + nm] = lambda a: [le(1, iapp("len" + nm, a))]
    ln = (lambda b, n=I(as_ip(dim())): n) if same else (lambda b: iapp("len" + nm, I(b)))
    x = Sym(nm, False)
    sh = lambda b: [ln(b)] if raw else [ln(b), m.d]

    def member(b):
        t = Tensor.make(sh(b), F32, lambda *i: entry(x, (b,) + i))
        t.st.guard = "sequence of the list"
        return t
    return VList(SSeq([Run(I(as_ip(B)), member)])), x, ln


def _list_any(bias, parallel, raw):
    """a list of any number of sequences of any lengths"""
    def f(w):
        m = build(w, bias, parallel, False, d=mk_int(I(2)) if raw else None)
        B = dim()
        xs, x, ln = sequences(m, B, raw, bias != "fixed bias")
        out = m.obj(xs)
        if muted():
            return
        if not shape("shape", out, [B, m.o]):
            return
        b, o = idx(B), idx(m.o)
        e = (lambda t, j: rite(eq(j, 0), entry(x, (b, t)), ONE - entry(x, (b, t)))) if raw else (lambda t, j: entry(x, (b, t, j)))
        equal("each sequence alone", out.pel(b, o), contraction(m, mk_int(ln(b)), e, o))
    return f


for _p in (False, True):
    for _r in (False, True):
        for _b in BIAS:
            unit("C15", "sequence list[%s%s%s, any number]" % (_b, " parallel" if _p else "", " raw" if _r else ""), FN)(_list_any(_b, _p, _r))


def _list_reject_any(bias, raw):
    """a list of any number of sequences, two of which have different lengths"""
    def f(w):
        m = build(w, bias, False, False, d=mk_int(I(2)) if raw else None)
        B = dim()
        xs, x, ln = sequences(m, B, raw, False)
        b1, b2 = idx(B), idx(B)
        C.add_fact(lt(ln(b1), ln(b2)))
        raises("rejected", lambda: m.obj(xs), ValueError)
    return f


for _r in (False, True):
    for _b in ("no bias", "trained bias"):
        unit("C15", "sequence list rejected[%s%s, any number]" % (_b, " raw" if _r else ""), FN)(_list_reject_any(_b, _r))
for _p in (False, True):
    for _r in (False, True):
        for _b in BIAS:
            # the reference depends on the sequence, the parameters and nothing else
            unit("C11", "sequence list is evaluated sample by sample[%s%s%s, any number]" % (_b, " parallel" if _p else "", " raw" if _r else ""), FN)(_list_any(_b, _p, _r))


# ---------------------------------------------------------------- strategies, independence, gradients
def _ti_strategies(bias, ends, kind):
    def f(w):
        d, D = mk_int(I(2)) if kind == "raw" else dim(), dim()
        o = mk_int(ivar(C.fresh(1, I(as_ip(D)) + 1))) if ends else dim()
        B, n = dim(), dim()
        x = sym("x", B, n) if kind == "raw" else sym("x", B, n, d)
        outs = [build(w, bias, par, ends, d=d, D=D, o=o).obj(x) for par in (False, True)]
        if muted():
            return
        if shape("shape", outs[0], [B, o]):
            tensor_is("same output", outs[1], [B, o], lambda b, k: outs[0].pel(b, k))
    return f


def _ti_independent(bias, parallel, raw):
    def f(w):
        m = build(w, bias, parallel, False, d=mk_int(I(2)) if raw else None)
        B, B2, n = dim(), dim(), dim()
        x = sym("x", B, n) if raw else sym("x", B, n, m.d)
        b, b2, o = idx(B), idx(B2), idx(m.o)
        x2 = other_batch(x, b, B2, b2, "y")
        fr = Frame(**state(m.obj), input=x)
        out, out2 = m.obj(x), m.obj(x2)
        if muted():
            return
        fr.check()
        if shape("shape", out, [B, m.o]) and shape("shape of the other batch", out2, [B2, m.o]):
            equal("independent of the batch", out.pel(b, o), out2.pel(b2, o))
    return f


def _ti_list_frame(bias, raw, count):
    """a list of sequences: neither the list nor its sequences nor any parameter is modified; two evaluations agree"""
    def f(w):
        m = build(w, bias, False, False, d=mk_int(I(2)) if raw else None)
        same = bias != "fixed bias"
        ns = [dim()] * count if same else [dim() for _ in range(count)]
        xs = VList([sym("x%d" % k, n) if raw else sym("x%d" % k, n, m.d) for k, n in enumerate(ns)])
        before = list(xs)
        fr = Frame(**state(m.obj), **{"sequence%d" % k: x for k, x in enumerate(before)})
        out = m.obj(xs)
        if muted():
            return
        now = [x[1] for x in xs.p]
        true("the list of sequences is unchanged", len(now) == count and all(a is b for a, b in zip(now, before)))
        fr.check()
        out2 = m.obj(VList(before))
        if shape("shape", out, [count, m.o]) and shape("shape", out2, [count, m.o]):
            tensor_is("same output again", out2, [count, m.o], lambda b, k: out.pel(b, k))
    return f


def _ti_grad(bias, parallel, ends, kind):
    def f(w):
        m = build(w, bias, parallel, ends, d=mk_int(I(2)) if kind == "raw" else None)
        if kind == "list":
            n = dim()
            xs = [sym("x%d" % k, n, m.d) for k in range(2)]
            for q in xs:
                q.requires_grad = True
            with stopgrad() as sg:
                out = m.obj(list(xs))
            ins = [("input %d" % k, q) for k, q in enumerate(xs)]
        elif kind == "any list":
            B = dim()
            xs, x, ln = sequences(m, B, False, bias != "fixed bias")
            with stopgrad() as sg:
                out = m.obj(xs)
            ins = []
        else:
            x = sym("x", dim(), dim()) if kind == "raw" else sym("x", dim(), dim(), m.d)
            x.requires_grad = True
            with stopgrad() as sg:
                out = m.obj(x)
            ins = [("input", x)]
        if muted():
            return
        if sg.used:
            # the output must not depend on values cut off from differentiation
            el = {"list": lambda b: lambda t, j: xs[0].pel(t, j) if b == 0 else xs[1].pel(t, j), "embedded": lambda b: lambda t, j: x.pel(b, t, j),
                  "raw": lambda b: lambda t, j: rite(eq(j, 0), x.pel(b, t), ONE - x.pel(b, t))}.get(kind)
            o = idx(m.o)
            if kind == "any list":
                b = idx(B)
                equal("no gradient is cut off", out.pel(b, o), contraction(m, mk_int(ln(b)), lambda t, j: entry(x, (b, t, j)), o))
            for b in ((0, 1) if kind == "list" else () if kind == "any list" else (idx(x.shape[0]),)):
                equal("no gradient is cut off", out.pel(b, o), contraction(m, n if kind == "list" else x.shape[1], el(b), o))
        ps = list(m.obj.named_parameters())
        true("the core is a parameter", any(m.obj.core_tensor is p for _, p in ps))
        if bias == "trained bias":
            true("the bias is a parameter", any(m.obj.bias_mat is p for _, p in ps))
        if bias == "fixed bias":
            true("the fixed bias is not trained", not any(m.obj.bias_mat is p for _, p in ps) and not m.obj.bias_mat.requires_grad)
        if ends:
            true("fixed ends are not trained", not any(t is p for _, p in ps for t in (m.obj.init_vector.vec, m.obj.terminal_mat.mat))
                 and not m.obj.init_vector.vec.requires_grad and not m.obj.terminal_mat.mat.requires_grad)
        if not ends:
            true("the ends are parameters", all(any(t is p for _, p in ps) for t in (m.obj.init_vector.vec, m.obj.terminal_mat.mat)))
        connected("output", out, ps + ins)
    return f


def _ti_list_frame_any(bias, raw):
    """any number of sequences: the list, its sequences and the parameters are as before"""
    def f(w):
        m = build(w, bias, False, False, d=mk_int(I(2)) if raw else None)
        B = dim()
        xs, x, ln = sequences(m, B, raw, bias != "fixed bias")
        before = list(xs.p)
        fr = Frame(**state(m.obj))
        m.obj(xs)
        if muted():
            return
        true("the list of sequences is unchanged", len(xs.p) == len(before) and all(a is b for a, b in zip(xs.p, before)))
        fr.check()
    return f


for _b in BIAS:
    for _r in (False, True):
        unit("C11", "sequence MPS list frame[%s%s, any number]" % (_b, " raw" if _r else ""), FN)(_ti_list_frame_any(_b, _r))


for _b in BIAS:
    for _e in (False, True):
        for _k in ("embedded", "raw"):
            unit("C03", "sequence MPS strategies[%s%s %s]" % (_b, " fixed ends" if _e else "", _k), FN)(_ti_strategies(_b, _e, _k))
    for _p in (False, True):
        for _r in (False, True):
            unit("C11", "sequence MPS sample independence[%s%s%s]" % (_b, " parallel" if _p else "", " raw" if _r else ""), FN)(_ti_independent(_b, _p, _r))
        for _e in (False, True):
            for _k in ("embedded", "raw", "list", "any list"):
                unit("C19", "sequence MPS gradients[%s%s%s %s]" % (_b, " parallel" if _p else "", " fixed ends" if _e else "", _k), FN)(_ti_grad(_b, _p, _e, _k))

for _b in BIAS:
    for _r in (False, True):
        for _c in (1, 2):
            unit("C11", "sequence MPS list frame[%s%s, %d]" % (_b, " raw" if _r else "", _c), FN, bounded="number of sequences as listed; all lengths arbitrary")(_ti_list_frame(_b, _r, _c))
