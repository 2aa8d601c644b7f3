"""Adaptive supervised MPS (C12, C13, C10): merging, splitting, rebalancing, shifting.

The number of inputs is concrete in each unit (the merge plan is computed by Python code over
lists of modules, whose shape depends on it); everything else is symbolic: bond, feature and
output dimensions, all core entries, batch sizes, counters.  Splitting enters by the contract
of svd_flex proved for C14, in the case named by C12 (no non-zero singular value discarded)."""
from .spec import *
from .c_sup import frozen, MP, CT, Frame

MLR = tuple(MP + "MergedLinearRegion." + x for x in ("__init__", "forward", "_merge", "_unmerge", "combine", "core_len"))
MODS = tuple(MP + x for x in ("InputRegion.__init__", "InputRegion.__getitem__", "InputRegion._merge", "InputRegion.rescale_norm", "InputRegion.get_norm", "InputRegion.core_len",
                              "MergedInput.__init__", "MergedInput._unmerge", "MergedInput.forward", "InputSite.__init__", "InputSite.forward", "InputSite.get_norm", "InputSite.rescale_norm",
                              "MergedOutput.__init__", "MergedOutput._unmerge", "MergedOutput.forward", "OutputSite.get_norm", "OutputSite.rescale_norm", "OutputSite.forward"))
FN = MLR + MODS + (MP + "MPS.__init__", MP + "MPS.forward", MP + "LinearRegion.forward", CT + "OutputCore.__mul__", CT + "ContractableList.reduce")
AS = ("svd_flex by its proved contract (C14), applied to cores whose splitting discards no non-zero singular value",)


class Ad:
    pass


def build(w, n, ls, periodic, parallel=False, threshold=None, dims=None, cutoff=None):
    tm = w.module("torchmps.torchmps")
    w.module("torchmps.contractables")
    m = Ad()
    need(tm, "init_tensor")

    def init(shape, *a, **k):
        # contract of init_tensor (C17): a tensor of the requested shape, here with arbitrary entries
        shape = list(shape)
        if any(isinstance(x, int) and x < 0 for x in shape):
            raise ValueError("negative dimension")
        return sym("init%d" % next(m.cnt), *shape)
    m.cnt = itertools.count()
    tm.init_tensor = init
    m.w, m.tm, m.n, m.ls, m.periodic = w, tm, n, ls, periodic
    m.o, m.D, m.d = dims or (dim(), dim(), dim())
    m.thr = dim(1) if threshold is None else threshold
    from tvc.values import mk_real
    kw = {} if cutoff is None else {"cutoff": mk_real(cutoff)}
    m.cut = cutoff
    m.obj = tm.MPS(n, m.o, m.D, feature_dim=m.d, label_site=ls, periodic_bc=periodic, parallel_eval=parallel, adaptive_mode=True, merge_threshold=m.thr, **kw)
    m.lr = m.obj.linear_region
    return m


def need(ob, *names):
    for x in names:
        if not hasattr(ob, x):
            raise Unsupported("no attribute %s" % x)


class Cores:
    """the cores of the current merge state: arbitrary single cores, arbitrary factorizations of merged ones"""

    def __init__(self, m, tag, value=None):
        self.m, self.tag = m, tag
        entry = (lambda *a: P(value)) if value is not None else globals()["entry"]
        self.chain = []          # per position: function (x, o) -> f(i, j), in the order of the chain
        self.pairs = []          # merged pairs: (term, left, right, left letters, right letters, position, done)
        tm = m.tm
        need(m.lr, "module_list")
        pos = 0
        inp = 0
        for k, mod in enumerate(m.lr.module_list):
            nm = "%s%d" % (tag, k)
            t = mod.tensor
            if isinstance(mod, tm.MergedInput):
                L, R = Sym(nm + "L"), Sym(nm + "R")
                self.set(t, lambda s, l, r, i, j, L=L, R=R: total(m.D, lambda u: entry(L, [s, l, u, i]) * entry(R, [s, u, r, j])))
                for s in range(t.shape[0]):
                    lf = lambda l, u, i, L=L, s=s: entry(L, [I(s), l, u, i])
                    rf = lambda u, r, j, R=R, s=s: entry(R, [I(s), u, r, j])
                    self.pair("lrij", "lui", "urj", lf, rf, pos)
                    self.chain += [self.inp(lf, inp), self.inp(rf, inp + 1)]
                    pos += 2
                    inp += 2
            elif isinstance(mod, tm.MergedOutput):
                L, R = Sym(nm + "L"), Sym(nm + "R")
                if mod.left_output:
                    lf, rf = (lambda o, l, u, L=L: entry(L, [o, l, u])), (lambda u, r, i, R=R: entry(R, [u, r, i]))
                    self.set(t, lambda o, l, r, i, lf=lf, rf=rf: total(m.D, lambda u: lf(o, l, u) * rf(u, r, i)))
                    self.pair("olri", "olu", "uri", lf, rf, pos)
                    self.chain += [self.out(lf), self.inp(rf, inp)]
                else:
                    lf, rf = (lambda l, u, i, L=L: entry(L, [l, u, i])), (lambda o, u, r, R=R: entry(R, [o, u, r]))
                    self.set(t, lambda o, l, r, i, lf=lf, rf=rf: total(m.D, lambda u: lf(l, u, i) * rf(o, u, r)))
                    self.pair("olri", "lui", "our", lf, rf, pos)
                    self.chain += [self.inp(lf, inp), self.out(rf)]
                pos += 2
                inp += 1
            elif isinstance(mod, tm.InputSite):
                S = Sym(nm)
                f = lambda l, r, i, S=S: entry(S, [l, r, i])
                self.set(t, f)
                self.chain.append(self.inp(f, inp))
                pos += 1
                inp += 1
            elif isinstance(mod, tm.OutputSite):
                S = Sym(nm)
                f = lambda o, l, r, S=S: entry(S, [o, l, r])
                self.set(t, f)
                self.chain.append(self.out(f))
                pos += 1
            else:
                raise Unsupported("module %s in a merged region" % type(mod).__name__)
        if pos != m.n + 1 or inp != m.n:
            true("merge plan covers every core", False, "%d cores, %d inputs" % (pos, inp))

    def set(self, t, f):
        t.data[:] = Tensor.make(list(t.dims), F32, f)

    def pair(self, whole, ll, rl, lf, rf, pos):
        self.pairs.append(dict(whole=whole, ll=ll, rl=rl, lf=lf, rf=rf, pos=pos))

    def inp(self, f, t):
        return lambda x, o: (lambda i, j: total(self.m.d, lambda k: f(i, j, k) * x(t, k)))

    def out(self, f):
        return lambda x, o: (lambda i, j: f(o, i, j))

    def contraction(self, x, o):
        m = self.m
        fs = [c(x, I(as_ip(o))) for c in self.chain]

        def seg(k, i, j):
            if k == len(fs) - 1:
                return fs[k](i, j)
            return total(m.D, lambda a: fs[k](i, a) * seg(k + 1, a, j))
        return total(m.D, lambda i: seg(0, i, i)) if m.periodic else seg(0, I(0), I(0))


class Split:
    """svd_flex by contract, on the registered pairs"""

    def __init__(self, cores):
        self.cores, self.m = cores, cores.m
        self.calls = []

    def install(self):
        # every module of the package that refers to svd_flex gets the contract
        ut = self.m.w.module("torchmps.utils")
        if not hasattr(ut, "svd_flex"):
            raise Unsupported("no function svd_flex")
        for mod in (ut, self.m.tm):
            if hasattr(mod, "svd_flex"):
                mod.svd_flex = self
        return self

    def used(self):
        """the splitting went through the contract"""
        if X().svds:
            raise Unsupported("cores are factorized without svd_flex")

    def __call__(self, tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec=None):
        m = self.m
        s = svd_string.replace(" ", "")
        init, post = s.split("->")
        a, b = post.split(",")
        bond = (set(a) & set(b)).pop()
        if max_D is None or not C.entails(eq(as_ip(max_D), as_ip(m.D))):
            raise Unsupported("splitting with another maximal bond dimension")
        for k, p in enumerate(self.cores.pairs):
            if len(p["whole"]) != len(init):
                continue
            # letters of the call matched with the letters of the registered pair, by the position in the whole tensor
            maps = [dict(zip(init, p["whole"]))]
            if set(init) == set(p["whole"]) and init != p["whole"]:
                maps.insert(0, {c: c for c in init})
            for ren in maps:
                ren = dict(ren)
                ren[bond] = "u"
                ra, rb = [ren[c] for c in a], [ren[c] for c in b]
                if set(ra) == set(p["ll"]) and set(rb) == set(p["rl"]):
                    first, second = "l", "r"
                elif set(ra) == set(p["rl"]) and set(rb) == set(p["ll"]):
                    first, second = "r", "l"
                else:
                    continue
                ix = [idx(d) for d in tensor.dims]
                e = dict(zip([ren[c] for c in init], ix))
                want = total(m.D, lambda u: p["lf"](*[u if c == "u" else e[c] for c in p["ll"]]) * p["rf"](*[u if c == "u" else e[c] for c in p["rl"]]))
                if prove_eq(tensor.pel(*ix), want) is not True:
                    continue
                sizes = {ren[c]: d for c, d in zip(init, tensor.dims)}
                sizes["u"] = I(as_ip(m.D))

                def mk(letters, which, order):
                    f, ll = (p["lf"], p["ll"]) if which == "l" else (p["rf"], p["rl"])
                    return Tensor.make([sizes[c] for c in letters], F32, lambda *i: f(*[dict(zip(letters, i))[c] for c in ll]))
                bd = mk_int(ivar(C.fresh(1, I(as_ip(m.D)) + 1)))
                sv = Sym("sv%d_%d" % (len(self.calls), p["pos"]))
                if sv_vec is not None:
                    if not C.entails(eq(sv_vec.dims[0], I(as_ip(m.D)))):
                        raise TypeError("sv_vec must be vector with dimension max_D")
                    sv_vec[:] = Tensor.make([I(as_ip(m.D))], F32, lambda i: entry(sv, [i]))
                self.calls.append(dict(pos=p["pos"], bond=bd, sv=sv, vec=sv_vec is not None, cutoff=cutoff))
                return mk(ra, first, a), mk(rb, second, b), bd
        raise Unsupported("splitting of a tensor that is not one of the merged cores")


def setup(w, n, ls, periodic, off, parallel=False, dims=None, cutoff=None):
    """a model in merge state `off` with arbitrary cores"""
    m = build(w, n, ls, periodic, parallel, dims=dims, cutoff=cutoff)
    need(m.lr, "input_counter", "merge_threshold", "module_list")
    x = sym("x", dim(), n, m.d)
    m.split = None
    for k in range(off):
        c = Cores(m, "w%d" % k, 1)
        Split(c).install()
        m.lr.input_counter = m.thr
        m.obj(x)
    m.cores = Cores(m, "c")
    m.split = Split(m.cores).install()
    m.x = x
    return m


def run(m):
    out = m.obj(m.x)
    m.split.used()
    return out


def _preserve(n, ls, periodic, parallel, off):
    def f(w):
        m = setup(w, n, ls, periodic, off, parallel)
        B = m.x.shape[0]
        ref = lambda b, o: m.cores.contraction(lambda t, k: m.x.pel(b, I(t), k), o)
        m.lr.input_counter = 0
        out = run(m)
        if muted():
            return
        tensor_is("contraction of the merged cores", out, [B, m.o], ref)
        m.lr.input_counter = m.thr
        out = run(m)
        if muted():
            return
        tensor_is("function preserved by the shift", out, [B, m.o], ref)
    return f




def expected_pairs(n, off):
    return list(range(off, n, 2))


def plan(m, c, off):
    """cores 0..n in the order of the chain, adjacent cores c, c+1 merged for c of the parity of the offset"""
    true("cores merged at this offset", [p["pos"] for p in c.pairs] == expected_pairs(m.n, off), "pairs at %s, offset %d, n=%d" % ([p["pos"] for p in c.pairs], off, m.n))


def identity(m):
    return {id(p): [d.key for d in p.dims] for _, p in m.obj.named_parameters()}


def _books(n, ls, periodic, off):
    """an evaluation from an arbitrary counter, threshold, history of recorded bonds"""
    def f(w):
        m = setup(w, n, ls, periodic, off)
        need(m.obj, "bond_list", "sv_list")
        c = dim(0)
        m.lr.input_counter = c
        plan(m, m.cores, off)
        b0 = Tensor.sym("bonds", (n + 2,), I64, rng=(I(1), I(as_ip(m.D)) + 1))
        s0 = sym("svs", n + 2, m.D)
        if shape("one bond dimension per bond", m.obj.bond_list, [n + 2]) and shape("one vector of singular values per bond", m.obj.sv_list, [n + 2, m.D]):
            m.obj.bond_list[:] = b0
            m.obj.sv_list[:] = s0
        else:
            return
        ids = identity(m)
        B = m.x.shape[0]
        run(m)
        if muted():
            return
        reached = le(as_ip(m.thr), as_ip(c))
        calls = m.split.calls
        now = identity(m)
        true("parameters keep their identity", set(ids) == set(now), "parameters replaced")
        true("parameters keep their shapes", all(ids[i] == now[i] for i in ids if i in now), "shapes changed")
        if C.entails(reached):
            true("threshold reached: every merged core is split once", sorted(k["pos"] for k in calls) == expected_pairs(n, off), [k["pos"] for k in calls])
            z = Cores(m, "z")
            plan(m, z, 1 - off)
            cnt = I(as_ip(c)) - I(as_ip(m.thr)) + I(as_ip(B))
        else:
            holds("shifts exactly when the threshold is reached", bnot(reached))
            true("threshold not reached: nothing is split", not calls, calls)
            z = Cores(m, "z")
            plan(m, z, off)
            cnt = I(as_ip(c)) + I(as_ip(B))
            calls = []
        holds("inputs seen since", eq(as_ip(m.lr.input_counter), cnt))
        true("singular values are requested", all(k["vec"] for k in calls))
        j = idx(m.D)
        for i in range(n + 2):
            k = [k for k in calls if k["pos"] + 1 == i]
            equal("recorded dimension of bond %d" % i, m.obj.bond_list.pel(I(i)), P(I(as_ip(k[0]["bond"]))) if k else b0.pel(I(i)))
            equal("recorded singular values of bond %d" % i, m.obj.sv_list.pel(I(i), j), entry(k[0]["sv"], [j]) if k else s0.pel(I(i), j))
        for p in m.obj.parameters():
            true("parameters stay trainable", p.requires_grad)
    return f


def _fresh(n, ls, periodic):
    def f(w):
        m = build(w, n, ls, periodic)
        need(m.obj, "bond_list", "sv_list")
        need(m.lr, "input_counter")
        c = Cores(m, "c")
        plan(m, c, 0)
        holds("no inputs seen", eq(as_ip(m.lr.input_counter), 0))
        j = mk_int(ivar(C.fresh(0, n + 2)))
        j = I(as_ip(j))
        end = bor(eq(j, 0), eq(j, n + 1)) if not periodic else FALSE
        if shape("one bond dimension per bond", m.obj.bond_list, [n + 2]):
            equal("initial bond dimensions", m.obj.bond_list.pel(j), rite(end, ONE, P(I(as_ip(m.D)))))
        tensor_is("initial singular values", m.obj.sv_list, [n + 2, m.D], lambda i, k: P(-1))
    return f


def _cutoff(n, ls, off):
    """the splitting uses the cutoff of the model"""
    def f(w):
        m = setup(w, n, ls, False, off, cutoff=rfn("cutoff", (), nonneg=True))
        m.lr.input_counter = m.thr
        run(m)
        if muted():
            return
        for k in m.split.calls:
            equal("cutoff of the model", getattr(k["cutoff"], "p", k["cutoff"]), m.cut)
    return f


NMAX = 3
for _n in range(1, 10):
    for _ls in range(0, _n + 1):
        for _p in (False, True):
            _t = dict(bounded="number of inputs n=%d" % _n, tier="quick" if _n <= NMAX else "thorough")
            _nm = "n=%d label %d %s" % (_n, _ls, "periodic" if _p else "open")
            for _off in (0, 1):
                unit("C12", "shift[%s offset %d]" % (_nm, _off), FN, assumes=AS, **_t)(_preserve(_n, _ls, _p, False, _off))
                unit("C13", "bookkeeping[%s offset %d]" % (_nm, _off), FN, assumes=AS, **_t)(_books(_n, _ls, _p, _off))
            unit("C13", "fresh adaptive[%s]" % _nm, FN, **_t)(_fresh(_n, _ls, _p))
for _n, _ls in ((1, 0), (1, 1), (2, 1), (4, 2), (3, 0)):
    for _off in (0, 1):
        unit("C13", "cutoff[n=%d label %d offset %d]" % (_n, _ls, _off), FN, assumes=AS, bounded="number of inputs n=%d" % _n)(_cutoff(_n, _ls, _off))


def _value(n, ls, periodic, parallel, off):
    """evaluation between shifts"""
    def f(w):
        m = setup(w, n, ls, periodic, off, parallel)
        m.lr.input_counter = 0
        out = run(m)
        if muted():
            return
        tensor_is("contraction of the merged cores", out, [m.x.shape[0], m.o], lambda b, o: m.cores.contraction(lambda t, k: m.x.pel(b, I(t), k), o))
    return f


def _agrad(n, ls, periodic, off):
    """gradients reach the merged cores in use, also in the evaluation that shifts"""
    def f(w):
        from .c_sup import connected
        m = setup(w, n, ls, periodic, off)
        m.x.requires_grad = True
        for what, c in (("evaluation", 0), ("shifting evaluation", m.thr)):
            m.lr.input_counter = c
            with stopgrad() as sg:
                out = run(m)
            if muted():
                return
            use = [("core %d" % k, mod.tensor) for k, mod in enumerate(m.lr.module_list)]
            ps = list(m.obj.parameters())
            true("cores in use are parameters (%s)" % what, all(any(t is p for p in ps) for _, t in use))
            connected(what, out, use + [("input", m.x)])
            if sg.used and c == 0:
                tensor_is("no gradient is cut off", out, [m.x.shape[0], m.o], lambda b, o: m.cores.contraction(lambda t, k: m.x.pel(b, I(t), k), o))
    return f


for _n in range(1, 7):
    for _ls in range(0, _n + 1):
        for _p in (False, True):
            _t = dict(bounded="number of inputs n=%d" % _n, tier="quick" if _n <= 3 else "thorough")
            _nm = "n=%d label %d %s" % (_n, _ls, "periodic" if _p else "open")
            for _off in (0, 1):
                for _par in (False, True):
                    unit(["C10", "C03"], "adaptive[%s offset %d %s]" % (_nm, _off, "parallel" if _par else "serial"), FN, **_t)(_value(_n, _ls, _p, _par, _off))
                unit("C19", "adaptive gradients[%s offset %d]" % (_nm, _off), FN, assumes=AS, **_t)(_agrad(_n, _ls, _p, _off))
