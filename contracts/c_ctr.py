"""Contractable products, reductions and lists (C16)."""
from .spec import *
from tvc.seqs import Run, SSeq, VList
from .c_sup import CT, havoc_bs

FN = tuple(CT + x for x in ("Contractable.__init__", "Contractable.__mul__", "Contractable.__rmul__", "ContractableList.__init__", "ContractableList.__mul__",
                            "ContractableList.__rmul__", "ContractableList.reduce", "MatRegion.__init__", "MatRegion.__mul__", "MatRegion.__rmul__", "MatRegion.reduce",
                            "OutputCore.__init__", "SingleMat.__init__", "OutputMat.__init__", "OutputMat.__mul__", "EdgeVec.__init__", "EdgeVec.__mul__",
                            "Scalar.__init__", "Scalar.__mul__", "Scalar.__rmul__"))


class Ref:
    """reference contractable: left / right bond sizes (or None), other indices [(letter, size)], entries f(b, l, r, others)"""

    def __init__(self, l, r, others, f):
        self.l, self.r, self.others, self.f = l, r, list(others), f

    def __mul__(self, o):
        n = len(self.others)
        return Ref(self.l, o.r, self.others + o.others,
                   lambda b, l, r, ot: total(self.r, lambda k: self.f(b, l, k, ot[:n]) * o.f(b, k, r, ot[n:])))

    def scaled(self, s):
        return Ref(self.l, self.r, self.others, lambda b, l, r, ot: self.f(b, l, r, ot) * s(b))


class Bonds:
    """sizes of the bonds of a chain: D for all when a region occurs (its matrices are square)"""

    def __init__(self, square):
        self.D = dim() if square else None

    def new(self):
        return self.D or dim()


def make(ct, kind, name, B, l, r, batched=True):
    """an object of the given kind with arbitrary entries and its reference; l, r: sizes of its bonds"""
    def t(*sh):
        x = sym(name, *(([B] if batched else []) + list(sh)))
        g = (lambda b, *i: x.pel(b, *i)) if batched else (lambda b, *i: x.pel(*i))
        return x, g
    if kind == "SingleMat":
        x, g = t(l, r)
        return ct.SingleMat(x), Ref(l, r, [], lambda b, i, j, o: g(b, i, j))
    if kind == "OutputCore":
        q = dim()
        x, g = t(q, l, r)
        return ct.OutputCore(x), Ref(l, r, [("o", q)], lambda b, i, j, o: g(b, o[0], i, j))
    if kind == "LeftVec":
        x, g = t(r)
        return ct.EdgeVec(x, is_left_vec=True), Ref(None, r, [], lambda b, i, j, o: g(b, j))
    if kind == "RightVec":
        x, g = t(l)
        return ct.EdgeVec(x, is_left_vec=False), Ref(l, None, [], lambda b, i, j, o: g(b, i))
    if kind == "LeftOut":
        q = dim()
        x, g = t(r, q)
        return ct.OutputMat(x, is_left_mat=True), Ref(None, r, [("o", q)], lambda b, i, j, o: g(b, j, o[0]))
    if kind == "RightOut":
        q = dim()
        x, g = t(l, q)
        return ct.OutputMat(x, is_left_mat=False), Ref(l, None, [("o", q)], lambda b, i, j, o: g(b, i, o[0]))
    if kind == "MatRegion":
        n = dim()
        x, g = t(n, l, r)
        return ct.MatRegion(x), Ref(l, r, [], lambda b, i, j, o: product(n, lambda s, u, v: g(b, s, u, v), i, j, l))
    if kind == "General":
        q, p = dim(), dim()
        x, g = t(q, l, p, r)
        return ct.Contractable(x, ("b" if batched else "") + "xlyr"), Ref(l, r, [("x", q), ("y", p)], lambda b, i, j, o: g(b, o[0], i, o[1], j))
    if kind == "GeneralLeft":
        q = dim()
        x, g = t(r, q)
        return ct.Contractable(x, ("b" if batched else "") + "rx"), Ref(None, r, [("x", q)], lambda b, i, j, o: g(b, j, o[0]))
    raise KeyError(kind)


def is_ref(name, obj, ref, B, ordered=None):
    """obligation: the object holds the reference, its indices labelled by its bond string"""
    tn, bs = getattr(obj, "tensor", None), getattr(obj, "bond_str", None)
    if not isinstance(tn, Tensor) or not isinstance(bs, str) or len(bs) != len(tn.dims):
        return true(name + " labelled", False, "%s with bond string %r" % (type(obj).__name__, bs))
    if bs[:1] != "b" or len(set(bs)) != len(bs) or ("l" in bs) != (ref.l is not None) or ("r" in bs) != (ref.r is not None) \
            or len([c for c in bs[1:] if c not in "lr"]) != len(ref.others):
        return true(name + " labelled", False, "bond string %r for left %s, right %s, others %s" % (bs, ref.l is not None, ref.r is not None, [c for c, _ in ref.others]))
    # indices that keep their unambiguous letter; the others in any arrangement
    cs = [c for c in bs[1:] if c not in "lr"]
    want = [c for c, _ in ref.others]
    fixed = {k: want[k] for k in range(len(want)) if want.count(want[k]) == 1 and want[k] in cs}
    rest_k = [k for k in range(len(want)) if k not in fixed]
    rest_c = [c for c in cs if c not in fixed.values()]
    perms = list(itertools.permutations(rest_c))
    b = idx(B)
    l = idx(ref.l) if ref.l is not None else None
    r = idx(ref.r) if ref.r is not None else None
    best = None
    for n, pm in enumerate(perms):
        lab = dict(fixed)
        lab.update(zip(rest_k, pm))
        pos = {"l": l, "r": r, "b": b}
        sz = {"l": ref.l, "r": ref.r, "b": B}
        ot = []
        for k in range(len(want)):
            v = idx(ref.others[k][1])
            ot.append(v)
            pos[lab[k]], sz[lab[k]] = v, ref.others[k][1]
        ok_shape = C.entails(band(*[eq(d, I(as_ip(sz[c]))) for d, c in zip(tn.dims, bs)]))
        if n + 1 < len(perms) and not ok_shape:
            continue
        if not ok_shape:
            return shape(name + " shape", tn, [sz[c] for c in bs])
        p, q = tn.pel(*[pos[c] for c in bs]), ref.f(b, l, r, ot)
        if n + 1 < len(perms) and prove_eq(p, q) is not True:
            continue
        return equal(name + " entries", p, q)


LEFT = ("LeftVec", "SingleMat", "OutputCore", "LeftOut", "MatRegion", "General", "GeneralLeft")
RIGHT = ("RightVec", "SingleMat", "OutputCore", "RightOut", "MatRegion", "General")


def supported(a, b):
    """a region is multiplied only with vectors; two output ends never meet in a model"""
    if (a, b) == ("LeftOut", "RightOut"):
        return False
    if a == "MatRegion":
        return b == "RightVec"
    if b == "MatRegion":
        return a == "LeftVec"
    return True


def _pair(a, b, unb):
    def f(w):
        ct = havoc_bs(w)
        B = dim()
        bd = Bonds("MatRegion" in (a, b))
        l, k, r = bd.new(), bd.new(), bd.new()
        # the batch size of an unbatched operand is that of the batched one, made before it
        if unb == 0:
            y, ry = make(ct, b, "y", B, k, r)
            x, rx = make(ct, a, "x", B, l, k, batched=False)
        else:
            x, rx = make(ct, a, "x", B, l, k)
            y, ry = make(ct, b, "y", B, k, r, batched=unb != 1)
        if muted():
            return
        if a != "MatRegion":
            is_ref("left operand", x, rx, B)
        try:
            z = x * y
        except TypeError as e:
            if "unsupported operand" not in str(e):
                raise
            return true("supported product", not supported(a, b), str(e))
        if muted():
            return
        if a == "LeftVec" and b == "RightVec":
            true("scalar", isinstance(z, ct.Scalar), type(z).__name__)
        is_ref("product", z, rx * ry, B)
    return f


for _a in LEFT:
    for _b in RIGHT:
        for _q in (None, 0, 1):
            unit("C16", "contractables[%s * %s%s]" % (_a, _b, "" if _q is None else " %s unbatched" % ("left", "right")[_q]), FN)(_pair(_a, _b, _q))

KINDS = ("LeftVec", "RightVec", "SingleMat", "OutputCore", "LeftOut", "RightOut", "MatRegion", "General")


def _scal(kind, left, zero_dim):
    def f(w):
        ct = havoc_bs(w)
        B, D = dim(), dim()
        x, rx = make(ct, kind, "x", B, D, D if kind == "MatRegion" else dim())
        s = sym("s") if zero_dim else sym("s", B)
        sc = ct.Scalar(s)
        sf = (lambda b: s.pel()) if zero_dim else (lambda b: s.pel(b))
        x0, bs0 = x.tensor, x.bond_str
        z = sc * x if left else x * sc
        if muted():
            return
        true("kind", type(z) is type(x) and z.bond_str == bs0, "%s %s" % (type(z).__name__, getattr(z, "bond_str", None)))
        tensor_is("scaled", z.tensor, [mk_int(d) for d in x0.dims], lambda b, *i: x0.pel(b, *i) * sf(b))
    return f


for _k in KINDS:
    for _l in (True, False):
        for _z in (False, True):
            unit("C16", "contractables[%s%s]" % (("%s * Scalar" if not _l else "Scalar * %s") % _k, " 0-dim" if _z else ""), FN)(_scal(_k, _l, _z))


@unit("C16", "contractables[Scalar * Scalar]", FN)
def _ss(w):
    ct = havoc_bs(w)
    B = dim()
    s, t = sym("s", B), sym("t", B)
    z = ct.Scalar(s) * ct.Scalar(t)
    if muted():
        return
    true("kind", isinstance(z, ct.Scalar))
    tensor_is("product", z.tensor, [B], lambda b: s.pel(b) * t.pel(b))


@unit("C16", "contractables[region reduce]", FN)
def _rr(w):
    ct = havoc_bs(w)
    B, D = dim(), dim()
    x, rx = make(ct, "MatRegion", "x", B, D, D)
    z = x.reduce()
    if muted():
        return
    true("kind", isinstance(z, ct.SingleMat), type(z).__name__)
    is_ref("product", z, rx, B)


def _single(kind):
    def f(w):
        ct = havoc_bs(w)
        B = dim()
        x, rx = make(ct, kind, "x", B, dim(), dim())
        z = x.reduce()
        if muted():
            return
        is_ref("itself", z, rx, B)
    return f


for _k in KINDS:
    if _k != "MatRegion":
        unit("C16", "contractables[%s reduce]" % _k, FN)(_single(_k))


# ------------------------------------------------------------------ lists
def chain(ct, kinds, B):
    bd = Bonds("MatRegion" in kinds)
    xs, ref = [], None
    l = bd.new() if kinds[0] not in ("LeftVec", "LeftOut", "GeneralLeft") else None
    for n, k in enumerate(kinds):
        r = bd.new()
        x, rx = make(ct, k, "x%d" % n, B, l, r)
        xs.append(x)
        ref = rx if ref is None else ref * rx
        l = r
    return xs, ref


def _list(kinds, par):
    def f(w):
        ct = havoc_bs(w)
        B = dim()
        xs, ref = chain(ct, kinds, B)
        z = ct.ContractableList(list(xs)).reduce(parallel_eval=par)
        if muted():
            return
        is_ref("ordered product", z, ref, B)
    return f


LISTS = [
    ("SingleMat",), ("SingleMat", "SingleMat"), ("SingleMat",) * 3, ("SingleMat",) * 4,
    ("LeftVec", "RightVec"), ("LeftVec", "SingleMat", "RightVec"), ("LeftVec", "SingleMat", "SingleMat", "RightVec"),
    ("LeftVec", "MatRegion", "RightOut"), ("LeftVec", "MatRegion", "RightVec"), ("LeftOut", "MatRegion", "RightVec"),
    ("LeftVec", "MatRegion", "OutputCore", "MatRegion", "RightVec"), ("LeftVec", "OutputCore", "MatRegion", "RightVec"),
    ("LeftVec", "MatRegion", "OutputCore", "RightVec"), ("LeftVec", "OutputCore", "RightVec"),
    ("LeftVec", "MatRegion", "MatRegion", "RightVec"), ("LeftVec", "MatRegion", "SingleMat", "RightVec"),
    ("LeftVec", "SingleMat", "OutputCore", "SingleMat", "RightVec"), ("LeftVec", "SingleMat", "SingleMat", "OutputCore", "SingleMat", "RightVec"),
    ("SingleMat", "OutputCore", "SingleMat"), ("OutputCore", "SingleMat", "SingleMat"), ("SingleMat", "SingleMat", "OutputCore"),
]
PLISTS = [("MatRegion", "OutputCore", "MatRegion"), ("MatRegion", "OutputCore"), ("OutputCore", "MatRegion"), ("MatRegion", "MatRegion"), ("MatRegion",),
          ("MatRegion", "SingleMat", "RightOut")]
for _k in LISTS:
    for _p in (False, True):
        unit("C16", "contractables[list %s%s]" % (" ".join(_k), " parallel" if _p else ""), FN, bounded="list composition as listed; all sizes and region lengths arbitrary")(_list(_k, _p))
for _k in PLISTS:
    unit("C16", "contractables[list %s parallel]" % " ".join(_k), FN, bounded="list composition as listed; all sizes and region lengths arbitrary")(_list(_k, True))


def _list_mul(kinds, at, kind):
    """an object multiplied with a list equals the product with its members in order"""
    def f(w):
        ct = havoc_bs(w)
        B = dim()
        xs, ref = chain(ct, kinds, B)
        if at == "left":
            z = xs[0] * ct.ContractableList(list(xs[1:]))
        else:
            z = ct.ContractableList(list(xs[:-1])) * xs[-1]
        if muted():
            return
        is_ref("ordered product", z, ref, B)
    return f


for _k, _a in ((("LeftVec", "SingleMat", "SingleMat"), "left"), (("LeftVec", "MatRegion", "SingleMat", "RightVec"), "left"), (("SingleMat", "SingleMat", "RightVec"), "right"),
               (("SingleMat", "MatRegion", "RightVec"), "right"), (("LeftVec", "OutputCore", "MatRegion", "RightVec"), "right"), (("SingleMat", "OutputCore", "SingleMat"), "left"),
               (("SingleMat", "SingleMat", "SingleMat"), "right"), (("LeftOut", "SingleMat", "SingleMat"), "left"), (("SingleMat", "RightOut"), "right"), (("LeftVec", "MatRegion"), "left")):
    unit("C16", "contractables[%s list %s]" % (_a, " ".join(_k)), FN, bounded="list composition as listed; all sizes and region lengths arbitrary")(_list_mul(_k, _a, None))


# ------------------------------------------------------------------ lists of any length
def _words(w, supported):
    """ghost contractables: the ordered product of the members a .. b-1 of the original list; a product of neighbours is either
    supported (its value is the pair contract above) or rejected with a TypeError, in whichever cases"""
    ct = havoc_bs(w)

    class Word(ct.Contractable):
        def __init__(self, a, b):
            self.a, self.b = mk_int(I(a)), mk_int(I(b))
            self.tensor, self.bond_str = None, "blr"

        def _tvc_ints(self):
            return (self.a, self.b)

        def _tvc_make(self, a, b):
            return Word(a, b)

        def _join(self, x, y):
            holds("neighbours are multiplied in their order", eq(as_ip(x.b), as_ip(y.a)))
            if not supported("product"):
                raise TypeError("unsupported product")
            return Word(as_ip(x.a), as_ip(y.b))

        def __mul__(self, o, rmul=False):
            if not isinstance(o, Word):
                return NotImplemented
            return self._join(o, self) if rmul else self._join(self, o)

        def __rmul__(self, o):
            if not isinstance(o, Word):
                return NotImplemented
            return self._join(o, self)

        def reduce(self, *a, **k):
            return Word(as_ip(self.a), as_ip(self.b))
    return ct, Word


def whole(name, z, Word, a, b):
    if true(name, isinstance(z, Word), "a %s" % type(z).__name__):
        holds(name + ": first member", eq(as_ip(z.a), a))
        holds(name + ": last member", eq(as_ip(z.b), b))


def maybe(what):
    return decide(eq(ivar(C.fresh(0, 2)), 0))


def _fold(par, some):
    def f(w):
        ct, Word = _words(w, maybe if some else lambda what: True)
        n = dim(1)
        xs = VList(SSeq([Run(I(as_ip(n)), lambda i: Word(i, i + 1))]))
        try:
            z = ct.ContractableList(xs).reduce(parallel_eval=par)
        except TypeError:
            if not some:
                raise
            return
        if muted():
            return
        whole("ordered product of all members", z, Word, I(0), I(as_ip(n)))
    return f


def _fold_mul(left, some):
    def f(w):
        ct, Word = _words(w, maybe if some else lambda what: True)
        n = dim(1)
        xs = VList(SSeq([Run(I(as_ip(n)), lambda i: Word(i, i + 1))]))
        N = I(as_ip(n))
        try:
            z = Word(-1, 0) * ct.ContractableList(xs) if left else ct.ContractableList(xs) * Word(N, N + 1)
        except TypeError:
            if not some:
                raise
            return
        if muted():
            return
        whole("ordered product", z, Word, I(-1) if left else I(0), N if left else N + 1)
    return f


for _s in (False, True):
    for _p in (False, True):
        unit("C16", "contractables[list of any length%s%s]" % (" parallel" if _p else "", ", some products unsupported" if _s else ""), FN)(_fold(_p, _s))
    for _l in (True, False):
        unit("C16", "contractables[%s list of any length%s]" % ("left" if _l else "right", ", some products unsupported" if _s else ""), FN)(_fold_mul(_l, _s))
