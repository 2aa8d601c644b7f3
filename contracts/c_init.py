"""Initializers and fresh models (C17)."""
from .spec import *
from tvc.terms import walk_atoms
from tvc.values import mk_real

IT = ("torchmps.utils.init_tensor",)
NE = ("torchmps.mps_base.near_eye_init", "torchmps.mps_base.normal_init", "torchmps.utils2.phaseify")
AS = ("torch.randn / torch.rand return fresh independent standard normal / uniform samples",)
MT = "torchmps.torchmps."


def source(p, kind, ix):
    """the random samples a term depends on: (symbol, index), one sample per entry"""
    at = [a for a in walk_atoms(p).values() if a.kind == "A" and a.args[0].name.startswith(kind + "#")]
    if len({a.key for a in at}) != 1:
        return None
    s, g = at[0].args[0], at[0].args[1]
    want = [I(i) for i in ix if I(i).const() is None]
    g2 = [x for x in g if I(x).const() is None]
    if sorted(x.key for x in g2) != sorted(x.key for x in want):
        if all(set(x.fv) for x in g2) and {v for x in g2 for v in x.fv} == {v for x in want for v in x.fv}:
            raise Unsupported("samples indexed by " + str([x.key for x in g]))
        return None
    return entry(s, g), s.name


def noisy(name, t, want, det, coef, phase=None):
    """obligation: t = det + coef * fresh standard normal samples [* uniform phase], one sample per entry.
    phase: None, 'noise' (on the noise only) or 'all'.  Returns the names of the sample tensors"""
    if not shape(name + ".shape", t, want):
        return ()
    ix = [idx(d) for d in want]
    p = t.pel(*ix)
    z = source(p, "randn", ix)
    if not true(name + ".noise", z is not None, "entries are not deterministic part plus one normal sample each: " + p.key[:300]):
        return ()
    ph, names = ONE, (z[1],)
    if phase:
        u = source(p, "rand", ix)
        if not true(name + ".phase", u is not None, "no random phase: " + p.key[:300]):
            return ()
        ph = pexp(P(2) * J * PI * u[0])
        names += (u[1],)
    equal(name + ".value", p, (det(*ix) + P(coef) * z[0]) * ph if phase == "all" else det(*ix) + P(coef) * z[0] * ph)
    true(name + ".type", t.dtype is (C64 if phase else F32), t.dtype)
    return names


def std_arg():
    s = rfn("std", ())
    return s, mk_real(s)


def imin(*a):
    r = a[0]
    for x in a[1:]:
        r = r if decide(le(r, x)) else x
    return r


def eye_part(method, s, init, shp):
    dl, dr = I(as_ip(shp[s.index("l")])), I(as_ip(shp[s.index("r")]))
    if method == "random_zero":
        return lambda *ix: ZERO
    if method == "random_eye":
        return lambda *ix: ind(eq(ix[s.index("l")], ix[s.index("r")]))
    q = imin(dl, dr, I(as_ip(init)))
    return lambda *ix: ind(band(eq(ix[s.index("l")], ix[s.index("r")]), lt(ix[s.index("l")], q)))


def _it(s, method, form):
    def f(w):
        ut = w.module("torchmps.utils")
        shp = [dim() for _ in s]
        c, sd = std_arg()
        init = dim()
        m = {"str": method, "tuple": (method, sd), "init": (method, sd, init)}[form]
        t = ut.init_tensor(shp, s, m)
        if muted():
            return
        coef = P(c) if form != "str" else P(mk_real_f(1e-9))
        noisy("tensor", t, shp, eye_part(method, s, init, shp) if method != "random_zero" or "l" in s else (lambda *i: ZERO), coef)
        true("not yet trainable", not t.requires_grad)
    return f


def mk_real_f(x):
    from fractions import Fraction
    return Fraction(repr(x))


STRS = ("lr", "rl", "olr", "lri", "slri", "rol", "srli", "lior")
for _s in STRS:
    for _m, _f in (("random_eye", "tuple"), ("random_zero", "tuple"), ("min_random_eye", "init")):
        unit("C17", "init_tensor[%s %s]" % (_s, _m), IT, assumes=AS)(_it(_s, _m, _f))
for _m in ("random_eye", "random_zero"):
    unit("C17", "init_tensor[olr %s, default std]" % _m, IT, assumes=AS)(_it("olr", _m, "str"))


@unit("C17", "init_tensor[rejections]", IT)
def _it_rej(w):
    ut = w.module("torchmps.utils")
    d = [dim() for _ in range(3)]
    if muted():
        return
    rejects("unknown method", lambda: ut.init_tensor(d, "olr", ("random", 1.0)))
    rejects("unknown method name", lambda: ut.init_tensor(d, "olr", "eye"))
    rejects("bond string too short", lambda: ut.init_tensor(d, "lr", ("random_eye", 1.0)))
    rejects("repeated index", lambda: ut.init_tensor(d, "llr", ("random_eye", 1.0)))
    rejects("identity without both bonds", lambda: ut.init_tensor(d, "abr", ("random_eye", 1.0)))


def _near(fn, k, cplx, default):
    def f(w):
        mb = w.module("torchmps.mps_base")
        D = dim()
        shp = [dim() for _ in range(k)] + [D, D]
        c, sd = std_arg()
        eyef = fn == "near_eye_init"
        kw = {} if default else {"noise" if eyef else "rel_std": sd}
        t = getattr(mb, fn)(tuple(shp), is_complex=cplx, **kw)
        if muted():
            return
        c = P(mk_real_f(1e-3 if eyef else 1.0)) if default else P(c)
        det = (lambda *ix: ind(eq(ix[-1], ix[-2]))) if eyef else (lambda *ix: ZERO)
        noisy("core", t, shp, det, c * P(ivar_p(D)) ** -1, ("noise" if cplx else None))
    return f


def ivar_p(D):
    return TT.pint(I(as_ip(D))) if hasattr(TT, "pint") else P(I(as_ip(D)))


for _fn in ("near_eye_init", "normal_init"):
    for _k in (1, 2, 3):
        for _c in (False, True):
            unit("C17", "%s[rank %d%s]" % (_fn, _k + 2, " complex" if _c else ""), NE, assumes=AS)(_near(_fn, _k, _c, False))
    unit("C17", "%s[default noise]" % _fn, NE, assumes=AS)(_near(_fn, 2, False, True))


def _nonsq(fn, batch):
    def f(w):
        mb = w.module("torchmps.mps_base")
        d, a, b = dim(), dim(), dim()
        C.add_fact(bnot(eq(as_ip(a), as_ip(b))))
        if batch:
            n = dim(2)
            return raises("batch of non-square slices", lambda: getattr(mb, fn)((n, d, a, b)), ValueError)
        t = getattr(mb, fn)((d, a, b))
        if muted():
            return
        c = P(mk_real_f(1e-3 if fn == "near_eye_init" else 1.0))
        sc = TT.psqrt(ivar_p(a) * ivar_p(b)) ** -1 if fn == "near_eye_init" else ivar_p(b) ** -1
        noisy("core", t, [d, a, b], (lambda *ix: ind(eq(ix[-1], ix[-2]))) if fn == "near_eye_init" else (lambda *ix: ZERO), c * sc)
    return f


for _fn in ("near_eye_init", "normal_init"):
    for _b in (False, True):
        unit("C17", "%s[non-square%s]" % (_fn, " batch" if _b else ""), NE, assumes=AS)(_nonsq(_fn, _b))


# ------------------------------------------------------------------ boundary modules
def trainable(name, obj, attr, yes):
    t = getattr(obj, attr)
    ps = dict(obj.named_parameters())
    bs = dict(obj.named_buffers())
    true(name, bool(t.requires_grad) == yes and (attr in ps) == yes and (attr in bs) == (not yes),
         "requires_grad=%s parameters=%s buffers=%s" % (t.requires_grad, sorted(ps), sorted(bs)))


def _iv(fill, fixed, left):
    def f(w):
        tm, ct = w.module("torchmps.torchmps"), w.module("torchmps.contractables")
        D = dim()
        k = dim(0) if fill else None
        bad = fill and not decide(le(as_ip(k), as_ip(D)))
        mk = lambda: tm.InitialVector(D, fill_dim=k, fixed_vec=fixed, is_left_vec=left)
        if bad:
            return rejects("fill dimension larger than the bond", mk)
        m = mk()
        if muted():
            return
        val = lambda i: ind(lt(i, as_ip(k))) if fill else ONE
        tensor_is("vector", m.vec, [D], val)
        trainable("trainability", m, "vec", not fixed)
        B = dim()
        ct.Contractable.global_bs = B
        c = m()
        true("side", c.bond_str == ("br" if left else "bl"), c.bond_str)
        tensor_is("contractable", c.tensor, [B, D], lambda b, i: val(i))
        true("consumes no input", len(m) == 0)
    return f


def _to(fixed, left):
    def f(w):
        tm, ct = w.module("torchmps.torchmps"), w.module("torchmps.contractables")
        D, o = dim(), dim()
        if fixed and decide(lt(as_ip(D), as_ip(o))):
            return raises("fixed matrix with more outputs than bonds", lambda: tm.TerminalOutput(D, o, fixed_mat=True), ValueError)
        m = tm.TerminalOutput(D, o, fixed_mat=fixed, is_left_mat=left)
        if muted():
            return
        e = lambda i, j: ind(eq(i, j))
        if fixed:
            tensor_is("matrix", m.mat, [D, o], e)
        else:
            noisy("matrix", m.mat, [D, o], e, ivar_p(D) ** -1)
        trainable("trainability", m, "mat", not fixed)
        B = dim()
        ct.Contractable.global_bs = B
        c = m()
        true("side", c.bond_str == ("bro" if left else "blo"), c.bond_str)
        tensor_is("contractable", c.tensor, [B, D, o], lambda b, i, j: m.mat.pel(i, j))
        true("consumes no input", len(m) == 0)
    return f


for _fx in (True, False):
    for _l in (True, False):
        for _fi in (False, True):
            unit("C17", "initial vector[%s%s%s]" % ("fixed" if _fx else "trainable", " left" if _l else " right", " filled" if _fi else ""),
                 (MT + "InitialVector.__init__", MT + "InitialVector.forward"))(_iv(_fi, _fx, _l))
        unit("C17", "terminal matrix[%s%s]" % ("fixed" if _fx else "trainable", " left" if _l else " right"),
             (MT + "TerminalOutput.__init__", MT + "TerminalOutput.forward"), assumes=AS)(_to(_fx, _l))


# ------------------------------------------------------------------ fresh models
def disjoint(names):
    flat = [x for n in names for x in n]
    return true("independent noise", len(set(flat)) == len(flat), "the same samples are used for several parameters: %s" % flat)


def params_are(m, want):
    got = sorted(n for n, p in m.named_parameters())
    true("parameters", got == sorted(want), got)
    true("parameters are trainable", all(p.requires_grad for _, p in m.named_parameters()))


def _prob(uni, cplx, bias, method):
    def f(w):
        pm = w.module("torchmps.prob_mps")
        n, d, D = dim(), dim(), dim()
        kw = dict(complex_params=cplx, use_bias=bias, init_method=method)
        m = pm.ProbUnifMPS(d, D, **kw) if uni else pm.ProbMPS(n, d, D, **kw)
        if muted():
            return
        shp = [d, D, D] if uni else [n, d, D, D]
        eyef = method == "near_eye"
        det = (lambda *ix: ind(eq(ix[-1], ix[-2]))) if eyef else (lambda *ix: ZERO)
        a = noisy("cores", m.core_tensors, shp, det, P(mk_real_f(1e-3 if eyef else 1.0)) * ivar_p(D) ** -1, "noise" if cplx else None)
        # boundary vectors: equal magnitudes on both ends
        ev = m.edge_vecs
        nm = []
        if shape("edge vectors.shape", ev, [2, D]):
            i = idx(D)
            zs = [source(ev.pel(I(k), i), "randn", [i]) for k in (0, 1)]
            if true("edge vectors.noise", all(z is not None for z in zs), ev.pel(I(0), i).key[:200]):
                nm.append(zs[0][1])
                for k in (0, 1):
                    ph = ONE
                    if cplx:
                        u = source(ev.pel(I(k), i), "rand", [i])
                        if not true("edge vectors.phase", u is not None):
                            return
                        ph = pexp(P(2) * J * PI * u[0])
                    equal("edge vectors.value", ev.pel(I(k), i), zs[0][0] * TT.psqrt(ivar_p(D)) ** -1 * ph)
        disjoint([a, tuple(nm)])
        if bias:
            tensor_is("bias", m.bias_mat, [D, D], lambda i, j: ZERO)
        ct = C64 if cplx else F32
        true("parameter types", all(p.dtype is ct for _, p in m.named_parameters()), [p.dtype for _, p in m.named_parameters()])
        params_are(m, ["core_tensors", "edge_vecs"] + ["bias_mat"] * bias)
        true("attributes", bool(m.use_bias) == bias and bool(m.complex_params) == cplx)
        holds("dimensions", band(eq(as_ip(m.bond_dim), as_ip(D)), eq(as_ip(m.input_dim), as_ip(d))))
    return f


for _u in (False, True):
    for _c in (False, True):
        for _b in (False, True):
            for _m in ("near_eye", "normal"):
                unit("C17", "fresh %s[%s%s%s]" % ("uniform model" if _u else "model", _m, " complex" if _c else "", " bias" if _b else ""),
                     ("torchmps.prob_mps.ProbUnifMPS.__init__" if _u else "torchmps.prob_mps.ProbMPS.__init__",) + NE, assumes=AS)(_prob(_u, _c, _b, _m))


def _mps(where, bias):
    def f(w):
        tm = w.module("torchmps.torchmps")
        n = dim(2) if where == "mid" else dim(1)
        o, D, d = dim(), dim(), dim()
        c, sd = std_arg()
        ls = {"left": 0, "right": n, "default": None, "mid": mk_int(ivar(C.fresh(1, I(as_ip(n)))))}[where]
        kw = {} if where == "default" else {"label_site": ls}
        if bias is not None:
            kw["use_bias"] = bias
        m = tm.MPS(n, o, D, feature_dim=d, init_std=sd, **kw)
        if muted():
            return
        if where == "default":
            ls = n // 2
        names, left = [], True
        sizes = {True: I(0), False: I(0)}
        for mod in m.linear_region.module_list:
            if isinstance(mod, tm.OutputSite):
                names.append(noisy("output core", mod.tensor, [o, D, D], lambda q, i, j: ind(eq(i, j)), c))
                trainable("output core trainable", mod, "tensor", True)
                left = False
                continue
            k = mod.tensor.dims[0]
            sizes[left] = sizes[left] + k
            names.append(noisy("cores", mod.tensor, [mk_int(k), D, D, d], lambda *ix: ZERO, c))
            trainable("cores trainable", mod, "tensor", True)
            if bias is not False:
                t = mod.bias_mat
                sh = [mk_int(x) for x in t.dims]
                if len(sh) == 3:
                    holds("one bias per region or site", bor(eq(as_ip(sh[0]), 1), eq(as_ip(sh[0]), k)))
                tensor_is("bias", t, sh[:-2] + [D, D], lambda *ix: ind(eq(ix[-1], ix[-2])))
                trainable("bias trainable", mod, "bias_mat", True)
            else:
                true("no bias", not any("bias" in x for x, p in mod.named_parameters() if p is not None and not any(I(z).const() == 0 for z in p.dims)))
        disjoint(names)
        holds("label site", band(eq(sizes[True], as_ip(ls)), eq(sizes[False], I(as_ip(n)) - as_ip(ls))))
        holds("recorded label site", eq(as_ip(m.label_site), as_ip(ls)))
    return f


for _w in ("left", "mid", "right", "default"):
    for _b in (True, False):
        unit("C17", "fresh supervised[%s%s]" % (_w, " bias" if _b else ""), (MT + "MPS.__init__", MT + "InputRegion.__init__", MT + "OutputSite.__init__") + IT, assumes=AS)(_mps(_w, _b))


def _ti(bias, fixedb, ends):
    def f(w):
        tm = w.module("torchmps.torchmps")
        o, D, d = dim(), dim(), dim()
        if ends:
            C.add_fact(le(as_ip(o), as_ip(D)))
        c, sd = std_arg()
        m = tm.TI_MPS(o, D, feature_dim=d, fixed_ends=ends, init_std=sd, use_bias=bias, fixed_bias=fixedb)
        if muted():
            return
        nm = [noisy("core", m.core_tensor, [D, D, d], lambda *ix: ZERO, c)]
        trainable("core trainable", m, "core_tensor", True)
        tensor_is("initial vector", m.init_vector.vec, [D], lambda i: ONE)
        e = lambda i, j: ind(eq(i, j))
        if ends:
            tensor_is("terminal matrix", m.terminal_mat.mat, [D, o], e)
        else:
            nm.append(noisy("terminal matrix", m.terminal_mat.mat, [D, o], e, ivar_p(D) ** -1))
        if bias:
            if fixedb:
                tensor_is("bias", m.bias_mat, [D, D], e)
            else:
                nm.append(noisy("bias", m.bias_mat, [D, D], e, c))
            trainable("bias trainability", m, "bias_mat", not fixedb)
        disjoint(nm)
        params_are(m, ["core_tensor"] + ["init_vector.vec", "terminal_mat.mat"] * (not ends) + ["bias_mat"] * (bias and not fixedb))
    return f


for _b, _fb in ((False, True), (True, True), (True, False)):
    for _e in (False, True):
        unit("C17", "fresh sequence MPS[%s%s]" % ({(False, True): "no bias", (True, True): "fixed bias", (True, False): "trainable bias"}[(_b, _fb)], " fixed ends" if _e else ""),
             (MT + "TI_MPS.__init__", MT + "InitialVector.__init__", MT + "TerminalOutput.__init__") + IT, assumes=AS)(_ti(_b, _fb, _e))
