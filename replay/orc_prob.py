from common import *

CASES, RUN = {}, {}


def M(name):
    import importlib
    return importlib.import_module("torchmps." + name)


# --------------------------------------------------------------------------
# probabilistic models
# --------------------------------------------------------------------------
class _Table(torch.nn.Module):
    """Trainable discrete embedding: rows of a table"""

    def __init__(self, table):
        super().__init__()
        self.table = torch.nn.Parameter(T(table))

    def forward(self, x):
        return self.table[x[..., 0]]


class _Lin(torch.nn.Module):
    """Trainable continuous embedding"""

    def __init__(self, w, b):
        super().__init__()
        self.w = torch.nn.Parameter(T(w))
        self.b = torch.nn.Parameter(T(b))

    def forward(self, x):
        return torch.tanh(x * self.w) + self.b


def emb_table(case, rng, cplx):
    """[K, d] embedding table of a discrete embedding"""
    d, K = case["d"], case["K"]
    kind = case["emb"]
    if kind in ("fun", "train"):
        return rt(rng, K, d, cplx=cplx and case.get("cemb", False))
    if kind == "onehot":
        return np.eye(d)[:K] if K <= d else np.eye(d)[np.arange(K) % d]
    if kind == "diag":
        E = np.zeros((K, d))
        for k in range(K):
            E[k, k % d] = rng.randn()
        return E
    if kind == "orth":
        q, _ = np.linalg.qr(rng.randn(max(K, d), max(K, d)))
        return 1.5 * q[:K, :d]
    raise KeyError(kind)


def build_prob(case, rng):
    """Model with havocked parameters and the numpy data describing it"""
    pm, em = M("prob_mps"), M("embeddings")
    n, d, D = case["n"], case["d"], case["D"]
    cplx, bias, emb = case["cplx"], case["bias"], case.get("emb")
    table = None
    kw = dict(complex_params=cplx, use_bias=bias,
              init_method=case.get("init", "near_eye"))
    if emb is not None:
        table = emb_table(case, rng, cplx)
        dom = em.DataDomain(continuous=False, max_val=case["K"])
        if emb == "train":
            kw["embed_fun"] = em.TrainableEmbedding(_Table(table), dom)
        elif case.get("wrap"):
            kw["embed_fun"] = em.FixedEmbedding(lambda x, t=T(table): t[x], dom)
        else:
            kw["embed_fun"] = lambda x, t=T(table): t[x]
            kw["domain"] = dom
    if case["uniform"]:
        m = pm.ProbUnifMPS(d, D, **kw)
    else:
        m = pm.ProbMPS(n, d, D, **kw)
    scale = case.get("scale", 1.0)
    core = rt(rng, *((d, D, D) if case["uniform"] else (n, d, D, D)), cplx=cplx, scale=scale)
    if case.get("nil"):          # symbol 0 has zero matrices
        core[..., 0, :, :] = 0
    if case.get("sparse"):
        core = core * (rng.rand(*core.shape) < 0.5)
    vecs = rt(rng, 2, D, cplx=cplx)
    B = rt(rng, D, D, cplx=cplx) if bias else np.zeros((D, D))
    with torch.no_grad():
        m.core_tensors.data = T(core).to(m.core_tensors.dtype)
        m.edge_vecs.data = T(vecs).to(m.edge_vecs.dtype)
        if bias:
            m.bias_mat.data = T(B).to(m.bias_mat.dtype)
    return m, core, vecs, B, table


def site_mats(case, core, B, feats, t):
    """feats: [d] feature vector at site t"""
    A = core if case["uniform"] else core[t]
    return np.einsum("i,ide->de", feats, A) + B


def amplitude(case, core, vecs, B, seq_feats):
    v = vecs[0]
    for t, f in enumerate(seq_feats):
        v = v @ site_mats(case, core, B, f, t)
    return v @ vecs[1]


def amplitudes(case, core, vecs, B, seqs):
    """amplitudes as (value, log scale), safe for long sequences"""
    res = []
    for fs in seqs:
        v, ls = vecs[0], 0.0
        for t, f in enumerate(fs):
            v = v @ site_mats(case, core, B, f, t)
            s = np.abs(v).max()
            if s == 0:
                break
            v, ls = v / s, ls + np.log(s)
        res.append((v @ vecs[1], ls))
    return res


def alphabet_feats(case, table):
    return np.eye(case["d"]) if table is None else table


MODES = [dict(), dict(slim_eval=True), dict(parallel_eval=True)]


def prob_past(case, m, rng, table):
    K = len(alphabet_feats(case, table))

    def call():
        n = int(rng.randint(1, 6)) if case["uniform"] else case["n"]
        m(torch.tensor(rng.randint(K, size=(int(rng.randint(1, 5)), n))), **MODES[0 if case["bias"] else rng.randint(3)])

    def norm():
        m.log_norm(int(rng.randint(1, 6))) if case["uniform"] else m.log_norm()
    past(m, rng, [call, call, norm])


def log_z(case, core, vecs, B, table):
    F = alphabet_feats(case, table)
    if len(F) ** case["n"] > 500:
        # sum over the sequences carried out site by site
        dm, ls = np.outer(vecs[0], np.conj(vecs[0])), 0.0
        for t in range(case["n"]):
            dm = sum(a.T @ dm @ a.conj() for a in [site_mats(case, core, B, f, t) for f in F])
            s = np.abs(dm).max()
            if s == 0:
                return -np.inf
            dm, ls = dm / s, ls + np.log(s)
        return np.log(np.einsum("r,rq,q->", vecs[1], dm, np.conj(vecs[1])).real) + ls
    tot = 0.0
    for idx in itertools.product(range(len(F)), repeat=case["n"]):
        tot += abs(amplitude(case, core, vecs, B, [F[i] for i in idx])) ** 2
    return np.log(tot)


def prob_cases(seed, embs=(None, "fun", "onehot", "diag", "orth", "train"), modes=(0, 1, 2)):
    rng = np.random.RandomState(seed)
    base = list(itertools.product((False, True), (False, True), (False, True), embs, modes))
    rnd = 0
    while True:
        for uniform, cplx, bias, emb, mode in base:
            if bias and mode == 1:
                continue
            d = int(rng.randint(1, 4)) if rnd else 2
            K = int(rng.randint(1, 4)) if emb else d
            n = int(rng.randint(1, 5)) if rnd % 2 else [3, 2][rnd // 2 % 2]
            D = int(rng.randint(1, 4)) if rnd else 2
            if rng.randint(8) == 0:      # large bonds, long sequences, large alphabets
                big = int(rng.randint(4))
                D = int(rng.randint(4, 20)) if big in (0, 3) else D
                d, K = (int(rng.randint(4, 9)), int(rng.randint(4, 12)) if emb else 0) if big in (1, 3) else (d, K)
                K = K if emb else d
                n = int(rng.randint(5, 40)) if big in (2, 3) else n
            if emb == "onehot" and K < d:
                K = d
            yield dict(uniform=uniform, cplx=cplx, bias=bias, emb=emb, mode=mode, d=d, K=K,
                       n=n, D=D, seed=int(rng.randint(10 ** 6)),
                       init=["near_eye", "normal"][int(rng.randint(2))],
                       wrap=bool(rng.randint(2)), cemb=bool(rng.randint(2)),
                       scale=[1.0, 1.0, 1e-4, 50.0][int(rng.randint(4))],
                       nil=bool(rng.randint(5) == 0), sparse=bool(rng.randint(5) == 0))
        rnd += 1


def _nonzero(case, core, vecs, B, table):
    lz = log_z(case, core, vecs, B, table)
    return np.isfinite(lz) and lz > -600, lz


def run_c01(case):
    rng = rng_of(case)
    m, core, vecs, B, table = build_prob(case, rng)
    ok, lz = _nonzero(case, core, vecs, B, table)
    if not ok:
        return
    if not case["nil"] and not case["sparse"]:
        prob_past(case, m, rng, table)
    K = len(alphabet_feats(case, table))
    if K ** case["n"] > 5000:
        # too many sequences to list: sum over the last sites of one prefix, against the sum over all sequences
        k = 1
        while K ** (k + 1) <= 1000 and k < case["n"] - 1:
            k += 1
        F = alphabet_feats(case, table)
        pre = [int(x) for x in rng.randint(K, size=case["n"] - k)]
        tails = list(itertools.product(range(K), repeat=k))
        amps = amplitudes(case, core, vecs, B, [[F[i] for i in pre + list(t)] for t in tails])
        with np.errstate(divide="ignore"):
            want = sum(np.exp(2 * np.log(abs(a)) + 2 * ls - lz) for a, ls in amps)
        lp = m(torch.tensor([pre + list(t) for t in tails]), **MODES[case["mode"]])
        if not want > 1e-200:
            require(float(torch.exp(lp).sum()) <= 1e-190, "sequences without amplitude have probability")
            return
        close(torch.exp(lp).sum() / want, 1.0, "sum of the probabilities of all sequences with a given prefix", tol=1e-6)
        return
    data = torch.tensor(list(itertools.product(range(K), repeat=case["n"])))
    for rep in range(2):
        lp = m(data, **MODES[case["mode"]])
        close(torch.exp(lp).sum(), 1.0, "sum of the probabilities of all sequences")
        perm = torch.randperm(len(data))
        lp2 = m(data[perm], **MODES[case["mode"]])
        close(torch.exp(lp2).sum(), 1.0, "sum of the probabilities of all sequences (permuted batch)")


CASES["C01"] = prob_cases
RUN["C01"] = run_c01


def run_c02(case):
    rng = rng_of(case)
    m, core, vecs, B, table = build_prob(case, rng)
    ok, lz = _nonzero(case, core, vecs, B, table)
    if not ok:
        return
    if not case["nil"] and not case["sparse"]:
        prob_past(case, m, rng, table)
    F = alphabet_feats(case, table)
    bs = int(rng.randint(1, 5)) if rng.randint(8) else int(rng.randint(5, 300))
    idx = rng.randint(len(F), size=(bs, case["n"]))
    kw = MODES[case["mode"]]
    with np.errstate(divide="ignore"):
        am = amplitudes(case, core, vecs, B, [[F[i] for i in s] for s in idx])
        want = np.array([2 * np.log(abs(a)) + 2 * ls - lz for a, ls in am])
    if any(0 < abs(a) < 1e-10 for a, ls in am):
        return  # amplitude that is zero up to rounding
    data = torch.tensor(idx)
    close(m(data, **kw), want, "log probabilities (indices)")
    if np.isfinite(want).all():
        close(m.loss(data, **kw), -want.mean(), "loss")
    if table is None:
        feats = rt(rng, bs, case["n"], case["d"])
        with np.errstate(divide="ignore"):
            am = amplitudes(case, core, vecs, B, feats)
            want = np.array([2 * np.log(abs(a)) + 2 * ls - lz for a, ls in am])
        if any(0 < abs(a) < 1e-10 for a, ls in am):
            return
        if np.isfinite(want).all():
            close(m(T(feats), **kw), want, "log probabilities (vectors)")
            close(m.loss(T(feats), **kw), -want.mean(), "loss (vectors)")
    else:
        # log_norm can be queried directly
        pass
    if case["uniform"]:
        close(m.log_norm(case["n"]), lz, "log_norm")
    else:
        close(m.log_norm(), lz, "log_norm")


CASES["C02"] = prob_cases
RUN["C02"] = run_c02


# --------------------------------------------------------------------------
# C04 / C05  matrix sequences
# --------------------------------------------------------------------------
def c04_cases(seed):
    rng = np.random.RandomState(seed)
    i = 0
    while True:
        i += 1
        L = i % 8 if rng.randint(12) else int(rng.randint(8, 70))
        nv = int(rng.randint(4))
        aslist = bool(rng.randint(2))
        dims = None
        if aslist and rng.randint(2):
            dims = [int(rng.randint(1, 5)) for _ in range(L + 1)]
        D = int(rng.randint(1, 4)) if rng.randint(12) else int(rng.randint(4, 14))
        yield dict(kind="cm", L=L, left=bool(nv & 1), right=bool(nv & 2), aslist=aslist,
                   dims=dims, D=D, par=bool(rng.randint(2)), cplx=bool(rng.randint(3) == 0),
                   log=bool(rng.randint(2)), zero=bool(rng.randint(4) == 0),
                   batch=[int(x) for x in [[], [2], [3, 2], [1, 2], [2, 1, 2]][rng.randint(5)]],
                   bl=int(rng.randint(3)), seed=int(rng.randint(10 ** 6)))


def _drop(batch, k):
    """a batch shape broadcastable to `batch`"""
    if k == 0:
        return list(batch)
    if k == 1:
        return [1] * len(batch)
    return list(batch[1:]) if batch else []


def run_c04(case):
    rng = rng_of(case)
    mb = M("mps_base")
    L, D = case["L"], case["D"]
    dims = case["dims"] or [D] * (L + 1)
    batch = case["batch"]
    c = case["cplx"]
    if case["aslist"]:
        ms = [rt(rng, *_drop(batch, (case["bl"] + i) % 3 if case["dims"] or i else 0), dims[i], dims[i + 1], cplx=c)
              for i in range(L)]
        if case["zero"] and L:
            ms[L // 2] = ms[L // 2] * 0
        arg = [T(x) for x in ms]
        if case["seed"] % 2:
            arg = tuple(arg)
    else:
        X = rt(rng, *batch, L, D, D, cplx=c)
        if case["zero"] and L:
            X[..., L // 2, :, :] = 0
        ms = [X[..., i, :, :] for i in range(L)]
        arg = T(X)
    lv = rt(rng, *_drop(batch, case["bl"]), dims[0], cplx=c) if case["left"] else None
    rv = rt(rng, *_drop(batch, (case["bl"] + 1) % 3), dims[-1], cplx=c) if case["right"] else None
    keep = [None if x is None else x.copy() for x in (lv, rv)]
    call = lambda: mb.contract_matseq(arg, None if lv is None else T(lv), None if rv is None else T(rv),
                                      case["par"], log_format=case["log"])
    if case["aslist"] and L == 0 and lv is None and rv is None:
        try:
            call()
        except ValueError:
            return
        raise Violation("empty list of matrices without vectors was not rejected with ValueError")
    if case["par"] and any(m.shape != ms[0].shape for m in ms[1:]):
        pass
    try:
        out = call()
    except Exception:
        raise
    if case["log"]:
        val, ls = out
        require(not ls.is_complex(), "log scale is not real")
        require(bool(torch.isfinite(ls).all()), "log scale is not finite")
        val = val * torch.exp(ls)
    else:
        val = out
    full = np.eye(dims[0])
    for x in ms:
        full = full @ x
    if lv is not None:
        full = (lv[..., None, :] @ full)
    if rv is not None:
        full = full @ rv[..., :, None]
    if lv is not None:
        full = full[..., 0, :]
    if rv is not None:
        full = full[..., 0]
    want = full
    if L == 0:
        if case["aslist"]:
            # only vectors: their product, if any
            pass
    got = N(val)
    # batch dims must broadcast to the common batch shape
    if got.shape != want.shape:
        try:
            want = np.broadcast_to(want, got.shape)
        except ValueError:
            raise Violation("contract_matseq: shape %s, expected %s" % (got.shape, want.shape))
        if case["L"] and got.size != full.size:
            raise Violation("contract_matseq: shape %s, expected %s" % (got.shape, full.shape))
    close(val, want, "contract_matseq")


CASES["C04"] = c04_cases
RUN["C04"] = run_c04


def c05_cases(seed):
    rng = np.random.RandomState(seed)
    i = 0
    kinds = ["par", "seq", "seq_rect", "slim", "norm", "model", "cm"]
    while True:
        k = kinds[i % len(kinds)]
        i += 1
        yield dict(kind=k, L=int([2, 3, 5, 8, 40, 700, 701][rng.randint(7)]), D=int(rng.randint(1, 4)),
                   mag=float([1.0, 1e-30, 1e30, 1e-150, 1e100, 1e-3][rng.randint(6)]),
                   cplx=bool(rng.randint(2)), zero=bool(rng.randint(6) == 0),
                   lamb=int(rng.randint(4)) - 1, uniform=bool(rng.randint(2)),
                   mode=int(rng.randint(3)), flip=bool(rng.randint(2)),
                   batch=[[], [2]][rng.randint(2)], seed=int(rng.randint(10 ** 6)))


def np_logprod(ms, v=None):
    """product with separate log scale"""
    p, ls = (ms[0], 0.0) if v is None else (v, 0.0)
    for x in (ms[1:] if v is None else ms):
        p = p @ x
        s = np.abs(p).max()
        if s == 0:
            return p, 0.0
        p, ls = p / s, ls + np.log(s)
    return p, ls


def _cmp_log(val, ls, p, want_ls, what):
    """val*exp(ls) == p*exp(want_ls), compared entrywise in the log domain"""
    val, ls = N(val), N(ls)
    require(np.isfinite(val).all(), what + ": mantissa is not finite")
    require(np.isfinite(ls).all(), what + ": log scale is not finite")
    if (np.abs(p) == 0).all():
        require((val == 0).all(), what + ": product is not exactly zero")
        return
    d = ls - want_ls
    with np.errstate(over="ignore"):
        close(val * np.exp(d), p, what, tol=1e-6)


def run_c05(case):
    rng = rng_of(case)
    mb = M("mps_base")
    L, D, mag, c = case["L"], case["D"], case["mag"], case["cplx"]
    k = case["kind"]
    X = rt(rng, L, D, D, cplx=c) * mag
    if case["zero"]:
        X[L // 2] = 0
    if k == "par":
        val, ls = mb.mat_reduce_par(T(X))
        p, wl = np_logprod(list(X))
        _cmp_log(val, ls, p, wl, "mat_reduce_par")
        s = np.abs(N(val)).sum()
        require(s == 0 or abs(s - D) < 1e-6, "mat_reduce_par: 1-norm of the mantissa is %s, expected %s" % (s, D))
    elif k in ("seq", "seq_rect"):
        ms = list(X)
        if k == "seq_rect":
            E1 = D + 2
            ms[0] = rt(rng, E1 if case["flip"] else D, D, cplx=c) * mag
            ms[-1] = rt(rng, D, D + 1, cplx=c) * mag if L > 1 else ms[-1]
        val, ls = mb.mat_reduce_seq([T(x) for x in ms])
        p, wl = np_logprod(ms)
        _cmp_log(val, ls, p, wl, "mat_reduce_seq")
        s = np.abs(N(val)).sum()
        w = math.sqrt(val.shape[-1] * val.shape[-2])
        if L > 1:
            require(s == 0 or abs(s - w) < 1e-6, "mat_reduce_seq: 1-norm of the mantissa is %s, expected %s" % (s, w))
    elif k == "cm":
        lv, rv = rt(rng, D, cplx=c), rt(rng, D, cplx=c)
        val, ls = mb.contract_matseq(T(X), T(lv), T(rv), parallel_eval=bool(case["mode"] % 2), log_format=True)
        p, wl = np_logprod(list(X), lv)
        _cmp_log(val, ls, p @ rv, wl, "contract_matseq")
    elif k == "slim":
        d = 2
        core = rt(rng, *((d, D, D) if case["uniform"] else (L, d, D, D)), cplx=c) * mag
        vecs = rt(rng, 2, D, cplx=c)
        idx = rng.randint(d, size=(2, L))
        val, ls = mb.slim_eval_fun(torch.tensor(idx), T(core), T(vecs))
        for b in range(2):
            ms = [(core if case["uniform"] else core[t])[idx[b, t]] for t in range(L)]
            p, wl = np_logprod(ms, vecs[0])
            _cmp_log(val[b], ls[b], p @ vecs[1], wl, "slim_eval_fun")
            # mantissa bounded independently of length and magnitude: the
            # vector has 1-norm D when the last vector is applied
            if L:
                require(abs(N(val[b])) <= D * np.abs(vecs[1]).max() * (1 + 1e-6) + 1e-12,
                        "slim_eval_fun: mantissa %s is out of range" % N(val[b]))
    elif k in ("norm", "model"):
        d = 2
        uniform = case["uniform"]
        core = rt(rng, *((d, D, D) if uniform else (L, d, D, D)), cplx=c) * mag
        vecs = rt(rng, 2, D, cplx=c)
        lm = None
        lam = np.eye(d)
        if case["lamb"] == 0:
            lm = 1.7; lam = 1.7 * np.eye(d)
        elif case["lamb"] == 1:
            lm = np.array([0.5, 2.0]); lam = np.diag(lm)
        elif case["lamb"] == 2:
            a = rng.randn(d, d); lm = a @ a.T; lam = lm
        dm, wl = np.outer(vecs[0], vecs[0].conj()), 0.0
        for t in range(L):
            A = core if uniform else core[t]
            dm = np.einsum("ij,ilr,lp,jpq->rq", lam, A / mag, dm, A.conj() / mag)
            s = np.trace(dm).real
            dm, wl = dm / s, wl + np.log(s) + 2 * np.log(mag)
        want = wl + np.log((vecs[1] @ dm @ vecs[1].conj()).real)
        if mag in (1e-150, 1e100) and L > 1 and k == "norm":
            # |A|^2 itself must stay in range for one site
            pass
        if k == "norm":
            got = mb.get_log_norm(T(core), T(vecs), length=L if uniform else None,
                                  lamb_mat=None if lm is None else T(lm))
            close(got, want, "get_log_norm", tol=1e-6)
        else:
            pm = M("prob_mps")
            m = pm.ProbUnifMPS(d, D, complex_params=c) if uniform else pm.ProbMPS(L, d, D, complex_params=c)
            with torch.no_grad():
                m.core_tensors.data = T(core)
                m.edge_vecs.data = T(vecs)
            if case["lamb"] != -1:
                lam = np.eye(d)
            idx = rng.randint(d, size=(2, L))
            lp = m(torch.tensor(idx), **MODES[case["mode"]])
            dm, wl = np.outer(vecs[0], vecs[0].conj()), 0.0
            for t in range(L):
                A = core if uniform else core[t]
                dm = np.einsum("ilr,lp,ipq->rq", A / mag, dm, A.conj() / mag)
                s = np.trace(dm).real
                dm, wl = dm / s, wl + np.log(s) + 2 * np.log(mag)
            lz = wl + np.log((vecs[1] @ dm @ vecs[1].conj()).real)
            want = []
            for b in range(2):
                ms = [(core if uniform else core[t])[idx[b, t]] for t in range(L)]
                p, ws = np_logprod(ms, vecs[0])
                want.append(2 * (np.log(abs(p @ vecs[1])) + ws) - lz)
            close(lp, np.array(want), "log probabilities of long sequences", tol=1e-6)


CASES["C05"] = c05_cases
RUN["C05"] = run_c05


# --------------------------------------------------------------------------
# C06 broadcasting
# --------------------------------------------------------------------------
def c06_cases(seed):
    rng = np.random.RandomState(seed)
    dims = [1, 2, 3]
    shapes = [[]] + [[a] for a in dims] + [[a, b] for a in dims for b in dims]
    for s1 in shapes:
        for s2 in shapes:
            yield dict(kind="bb", shapes=[s1, s2], nb=[int(rng.randint(3)), int(rng.randint(3))],
                       seed=int(rng.randint(10 ** 6)))
    while True:
        k = int(rng.randint(5))
        if k == 0:
            num = int(rng.randint(0, 5))
            shp = [int(rng.randint(1, 4)) for _ in range(int(rng.randint(0, 4)))]
            yield dict(kind="bundle", num=num, shape=shp, same=bool(rng.randint(2)),
                       dim=int(rng.randint(-len(shp) - 1, len(shp) + 1)), tensor=bool(rng.randint(4) == 0),
                       seed=int(rng.randint(10 ** 6)))
        elif k == 1:
            shp = [int(rng.randint(1, 4)) for _ in range(int(rng.randint(0, 4)))]
            yield dict(kind="to", batch=[int(rng.choice([1, 2, 3, 0])) for _ in range(int(rng.randint(0, 4)))],
                       shape=shp, nb=int(rng.randint(0, len(shp) + 1)), seed=int(rng.randint(10 ** 6)))
        else:
            num = int(rng.randint(1, 6))
            full = [int(rng.choice([1, 2, 3, 4, 0], p=[.2, .3, .3, .15, .05])) for _ in range(int(rng.randint(0, 5)))]
            shapes = []
            for _ in range(num):
                s = full[int(rng.randint(0, len(full) + 1)):]
                s = [1 if rng.randint(3) == 0 else x for x in s]
                if rng.randint(12) == 0 and s:
                    s[int(rng.randint(len(s)))] = int(rng.randint(1, 6))
                shapes.append(s)
            yield dict(kind="bb", shapes=shapes, nb=[int(rng.randint(4)) for _ in range(num)],
                       seed=int(rng.randint(10 ** 6)))


def run_c06(case):
    rng = rng_of(case)
    u = M("utils2")
    if case["kind"] == "bb":
        arrs = [rt(rng, *s, *[int(rng.randint(1, 3)) for _ in range(k)])
                for s, k in zip(case["shapes"], case["nb"])]
        bs = [a.shape[: a.ndim - k] for a, k in zip(arrs, case["nb"])]
        ts = [T(a) if a.ndim else torch.tensor(float(a)) for a in arrs]
        try:
            want_b = np.broadcast_shapes(*bs)
        except ValueError:
            try:
                u.batch_broadcast(ts, case["nb"])
            except ValueError:
                return
            raise Violation("incompatible batch shapes %s were not rejected with ValueError" % (bs,))
        out = u.batch_broadcast(ts, case["nb"])
        require(len(out) == len(arrs), "number of tensors changed")
        for a, o, k in zip(arrs, out, case["nb"]):
            want = np.broadcast_to(a.reshape((1,) * (len(want_b) - (a.ndim - k)) + a.shape),
                                   want_b + a.shape[a.ndim - k:])
            close(o, want, "batch_broadcast")
        if hasattr(u, "shape_broadcast") and len(bs):
            require(tuple(u.shape_broadcast(bs)) == tuple(want_b), "shape_broadcast")
    elif case["kind"] == "to":
        a = rt(rng, *case["shape"])
        t = T(a) if a.ndim else torch.tensor(float(a))
        k = case["nb"]
        ab = a.shape[: a.ndim - k]
        try:
            want_b = np.broadcast_shapes(ab, tuple(case["batch"]))
        except ValueError:
            try:
                u.batch_to(t, tuple(case["batch"]), k)
            except ValueError:
                return
            raise Violation("batch_to accepted incompatible shapes")
        want = np.broadcast_to(a.reshape((1,) * (len(want_b) - len(ab)) + a.shape), want_b + a.shape[a.ndim - k:])
        close(u.batch_to(t, tuple(case["batch"]), k), want, "batch_to")
    else:
        num = case["num"]
        arrs = [rt(rng, *case["shape"]) for _ in range(num)]
        if not case["same"] and num > 1:
            arrs[-1] = rt(rng, *case["shape"], 2)
        ts = [T(a) if np.ndim(a) else torch.tensor(float(a)) for a in arrs]
        if case["tensor"]:
            x = torch.randn(2, 3)
            require(u.bundle_tensors(x, case["dim"]) is x, "bundle_tensors changed a tensor")
            return
        if num == 0 or (not case["same"] and num > 1):
            out = u.bundle_tensors(ts, case["dim"])
            require(not isinstance(out, torch.Tensor) and len(out) == num, "bundle_tensors of unequal shapes")
            for o, a in zip(out, arrs):
                close(o, a, "bundle_tensors")
        else:
            close(u.bundle_tensors(ts, case["dim"]), np.stack(arrs, case["dim"]), "bundle_tensors")


CASES["C06"] = c06_cases
RUN["C06"] = run_c06


# --------------------------------------------------------------------------
# C07 / C08 / C09 embeddings
# --------------------------------------------------------------------------
def np_trapz(y, x):
    dx = np.diff(x)
    return ((y[1:] + y[:-1]) / 2 * dx.reshape(-1, *([1] * (y.ndim - 1)))).sum(0)


def classify(lam):
    """the three forms an embedding may expose (exact cases only)"""
    off = lam - np.diag(np.diag(lam))
    dg = np.diag(lam)
    if np.abs(off).max(initial=0) < 1e-12 * max(1, np.abs(lam).max()):
        if np.abs(dg - dg.mean()).max() < 1e-12 * max(1, np.abs(lam).max()):
            return 0
        if np.abs(dg - dg.mean()).max() > 1e-2 * np.abs(dg.mean()):
            return 1
        return None
    if np.abs(off).max() > 1e-2 * np.abs(lam).max():
        return 2
    return None


def expand_lam(l, d):
    l = N(l)
    if l.ndim == 0:
        return l * np.eye(d)
    if l.ndim == 1:
        return np.diag(l)
    return l


def c07_cases(seed):
    rng = np.random.RandomState(seed)
    kinds = ["disc", "cont", "lognorm", "model"]
    i = 0
    while True:
        k = kinds[i % 4]
        i += 1
        big = rng.randint(8) == 0
        yield dict(kind=k, emb=["fun", "onehot", "diag", "orth"][rng.randint(4)], K=int(rng.randint(1, 30 if big and k == "disc" else 5)),
                   d=int(rng.randint(1, 9 if big and k != "model" else 4)), D=int(rng.randint(1, 12 if big else 4)), n=int(rng.randint(1, 40 if big else 6)),
                   cplx=bool(rng.randint(2)), cemb=bool(rng.randint(2)), uniform=bool(rng.randint(2)),
                   train=bool(rng.randint(2)), lamb=int(rng.randint(4)) - 1, clam=bool(rng.randint(2)),
                   lo=float([0.0, -1.0, 2.0][rng.randint(3)]), wid=float([1.0, 2.5, 0.1][rng.randint(3)]),
                   bias=bool(rng.randint(2)), mag=float([1.0, 1.0, 1e-5, 1e3][rng.randint(4)]), seed=int(rng.randint(10 ** 6)))


def run_c07(case):
    rng = rng_of(case)
    em, mb, pm = M("embeddings"), M("mps_base"), M("prob_mps")
    d, D, n, c = case["d"], case["D"], case["n"], case["cplx"]
    k = case["kind"]
    if k == "disc":
        mag = case.get("mag", 1.0)
        table = emb_table(case, rng, True) * mag
        dom = em.DataDomain(False, case["K"])
        e = em.TrainableEmbedding(_Table(table), dom) if case["train"] else em.FixedEmbedding(lambda x: T(table)[x], dom)
        if case["train"]:
            e.make_lambda()
        lam = np.einsum("bi,bj->ij", table, table.conj())
        close(expand_lam(e.lamb_mat, d) / mag ** 2, lam / mag ** 2, "lambda matrix (discrete)")
        cl = classify(lam / mag ** 2)
        if cl == 2:
            require(e.lamb_mat.ndim == 2, "non-diagonal lambda matrix reduced to order %d" % e.lamb_mat.ndim)
        if cl == 1:
            require(e.lamb_mat.ndim >= 1, "non-scalar lambda matrix reduced to a scalar")
    elif k == "cont":
        lo, hi = case["lo"], case["lo"] + case["wid"]
        dom = em.DataDomain(True, hi, lo)
        w, b = rng.randn(d), rng.randn(d)
        if case["train"]:
            e = em.TrainableEmbedding(_Lin(w, b), dom)
        else:
            e = em.FixedEmbedding(lambda x: torch.tanh(x[..., None] * T(w)) + T(b), dom)
        for num in (None, 7, 200):
            if num is None:
                e.make_lambda()
                num = e.num_points
            else:
                e.make_lambda(num_points=num)
            pts = np.linspace(lo, hi, num)
            v = np.tanh(pts[:, None] * w) + b
            lam = np_trapz(np.einsum("bi,bj->bij", v, v.conj()), pts)
            close(expand_lam(e.lamb_mat, d), lam, "lambda matrix (continuous)", tol=1e-6)
    elif k == "lognorm":
        u = case["uniform"]
        core = rt(rng, *((d, D, D) if u else (n, d, D, D)), cplx=c)
        vecs = rt(rng, 2, D, cplx=c)
        lm, lam = None, np.eye(d)
        if case["lamb"] == 0:
            lm = abs(rng.randn()) + 0.1; lam = lm * np.eye(d)
        elif case["lamb"] == 1:
            lm = np.abs(rng.randn(d)) + 0.05; lam = np.diag(lm)
        elif case["lamb"] == 2:
            a = rt(rng, d, d + 1, cplx=case["clam"] and c); lm = a @ a.conj().T; lam = lm
        dm = np.outer(vecs[0], vecs[0].conj())
        for t in range(n):
            A = core if u else core[t]
            dm = np.einsum("ij,ilr,lp,jpq->rq", lam, A, dm, A.conj())
        want = np.log((vecs[1] @ dm @ vecs[1].conj()).real)
        got = mb.get_log_norm(T(core), T(vecs), length=n if u else None, lamb_mat=None if lm is None else T(lm))
        close(got, want, "get_log_norm")
        require(not got.is_complex(), "log norm is complex")
    else:
        case = dict(case, emb="fun" if case["emb"] == "onehot" and case["K"] < d else case["emb"], n=min(n, 3))
        m, core, vecs, B, table = build_prob(case, rng)
        ok, lz = _nonzero(case, core, vecs, B, table)
        if ok:
            close(m.log_norm(case["n"]) if case["uniform"] else m.log_norm(), lz, "log_norm of a model with embedding")


CASES["C07"] = c07_cases
RUN["C07"] = run_c07


def c08_cases(seed):
    rng = np.random.RandomState(seed)
    i = 0
    while True:
        i += 1
        yield dict(kind=["disc", "cont", "mlp"][i % 3], uniform=bool(rng.randint(2)), cplx=bool(rng.randint(2)),
                   bias=bool(rng.randint(2)), d=int(rng.randint(1, 4) if rng.randint(8) else rng.randint(4, 8)), D=int(rng.randint(1, 4) if rng.randint(8) else rng.randint(4, 12)),
                   K=int(rng.randint(1, 4) if rng.randint(8) else rng.randint(4, 20)), n=int(rng.randint(1, 4) if rng.randint(8) else rng.randint(4, 12)), mode=int(rng.randint(3)), steps=int(rng.randint(1, 4)),
                   fresh=bool(rng.randint(2)), order=int(rng.randint(2)), seed=int(rng.randint(10 ** 6)))


def run_c08(case):
    rng = rng_of(case)
    em, pm = M("embeddings"), M("prob_mps")
    d, D, n, K = case["d"], case["D"], case["n"], case["K"]
    if case["kind"] == "disc":
        mod = _Table(rt(rng, K, d))
        emb = em.TrainableEmbedding(mod, em.DataDomain(False, K))
    elif case["kind"] == "cont":
        mod = _Lin(rng.randn(d), rng.randn(d))
        emb = em.TrainableEmbedding(mod, em.DataDomain(True, 2.0, -1.0))
    else:
        emb = em.init_mlp_embed(d, num_layers=2, hidden_dims=[3])
        mod = None
    kw = dict(complex_params=case["cplx"], use_bias=case["bias"], embed_fun=emb)
    m = pm.ProbUnifMPS(d, D, **kw) if case["uniform"] else pm.ProbMPS(n, d, D, **kw)
    own = list(m.parameters())
    inner = list(mod.parameters()) if mod is not None else [p for p in emb.parameters()]
    require(len(inner) > 0 if mod is not None else len(inner) == 4, "parameters of the trainable embedding missing")
    for p in inner:
        require(any(p is q for q in own), "a parameter of the wrapped module is not a parameter of the model")
    mode = 0 if case["bias"] and case["mode"] == 1 else case["mode"]

    def lognorm():
        return m.log_norm(n) if case["uniform"] else m.log_norm()

    def lam_ext():
        with torch.no_grad():
            if case["kind"] == "disc":
                v = N(mod.table)
                v = np.concatenate([v, np.ones((len(v), 1))], 1)
                return np.einsum("bi,bj->ij", v, v.conj())
            lo, hi = (0.0, 1.0) if case["kind"] == "mlp" else (-1.0, 2.0)
            pts = np.linspace(lo, hi, 1000)
            v = N(apply(T(pts)))
            v = np.concatenate([v, np.ones((len(v), 1))], 1)
            return np_trapz(np.einsum("bi,bj->bij", v, v.conj()), pts)

    def apply(x):
        if case["kind"] == "mlp":
            ws = inner
            h = torch.sigmoid(x[..., None] @ ws[0].T + ws[1])
            return torch.sigmoid(h @ ws[2].T + ws[3])
        return mod(x[..., None])

    for s in range(case["steps"] + 1):
        if s > 0 or not case["fresh"]:
            with torch.no_grad():
                for p in own:
                    p.copy_(torch.randn_like(p))
        if case["kind"] == "disc" and case["seed"] % 2:
            # the form of the lambda matrix changes along the history: scalar, diagonal, full
            form = [0, 2, 1, 3, 1, 0, 3][(case["seed"] // 2 + s) % 7]
            if form < 2:
                g = torch.zeros(K, d)
                for x in range(min(K, d)):
                    g[x, x] = 1.5 if form == 0 else 1.0 + x
                with torch.no_grad():
                    mod.table.copy_(g)
        core, vecs = N(m.core_tensors), N(m.edge_vecs)
        B = N(m.bias_mat) if case["bias"] else np.zeros((D, D))
        lam = lam_ext()
        dm = np.outer(vecs[0], vecs[0].conj())
        for t in range(n):
            A = core if case["uniform"] else core[t]
            A = np.concatenate([A, B[None]], 0)
            dm = np.einsum("ij,ilr,lp,jpq->rq", lam, A, dm, A.conj())
        want = np.log((vecs[1] @ dm @ vecs[1].conj()).real)
        if not np.isfinite(want) or want < -25:
            continue
        if (s + case["order"]) % 2:
            close(lognorm(), want, "log_norm after %d updates" % s, tol=1e-5)
        x = torch.tensor(rng.randint(K, size=(3, n))) if case["kind"] == "disc" else T(rng.rand(3, n))
        f = N(apply(x))
        lp = m(x, **MODES[mode])
        amps = []
        for b in range(3):
            v = vecs[0]
            for t in range(n):
                A = core if case["uniform"] else core[t]
                v = v @ (np.einsum("i,ide->de", f[b, t], A) + B)
            amps.append(abs(v @ vecs[1]))
        if min(amps) > 1e-6:
            close(lp, 2 * np.log(amps) - want, "log probabilities after %d updates" % s, tol=1e-5)
        close(lognorm(), want, "log_norm after evaluation and %d updates" % s, tol=1e-5)


CASES["C08"] = c08_cases
RUN["C08"] = run_c08


def c09_cases(seed):
    rng = np.random.RandomState(seed)
    i = 0
    while True:
        i += 1
        yield dict(kind=["onehot", "trig", "mlp", "domain", "sincos"][i % 5], order=int(rng.randint(5)),
                   d=int(rng.randint(1, 7) if rng.randint(6) else rng.randint(7, 300 if i % 5 == 0 else 24)), layers=int(rng.randint(1, 5)), inthid=bool(rng.randint(2)),
                   scale=float([1.0, 1.0, 10.0][rng.randint(3)]), seed=int(rng.randint(10 ** 6)))


def run_c09(case):
    rng = rng_of(case)
    em = M("embeddings")
    d = case["d"]
    shape = [int(rng.randint(1, 4)) for _ in range(case["order"])]
    if case["kind"] == "onehot":
        idx = rng.randint(d, size=shape) if shape else rng.randint(d)
        got = em.onehot_embed(torch.tensor(idx), d)
        close(got, np.eye(d)[idx], "onehot_embed")
    elif case["kind"] in ("trig", "sincos"):
        x = rng.randn(*shape) * case["scale"] if rng.randint(2) else rng.rand(*shape)
        x = np.asarray(x)
        if case["kind"] == "sincos":
            d = 2
            got = em.sincos_embed(torch.tensor(x))
        else:
            got = em.trig_embed(torch.tensor(x), emb_dim=d)
        want = np.stack([math.sqrt(math.comb(d - 1, j)) * np.cos(np.pi * x / 2) ** (d - 1 - j)
                         * np.sin(np.pi * x / 2) ** j for j in range(d)], -1)
        close(got, want, "trig_embed")
        close((got ** 2).sum(-1), np.ones(x.shape), "norm of trig_embed")
    elif case["kind"] == "mlp":
        L = case["layers"]
        hid = int(rng.randint(1, 6)) if case["inthid"] else [int(rng.randint(1, 6)) for _ in range(L - 1)]
        dom = em.DataDomain(True, 3.0, -1.0) if rng.randint(2) else None
        e = em.init_mlp_embed(d, num_layers=L, hidden_dims=hid, data_domain=dom)
        widths = [1] + ([hid] * (L - 1) if isinstance(hid, int) else hid) + [d]
        mods = [x for x in e.modules() if isinstance(x, torch.nn.Linear)]
        require([(x.in_features, x.out_features) for x in mods] == list(zip(widths[:-1], widths[1:])),
                "MLP widths %s, expected %s" % ([(x.in_features, x.out_features) for x in mods], widths))
        if dom is not None:
            require(e.domain is dom, "MLP embedding lost its data domain")
        else:
            require(e.domain.continuous and e.domain.min_val == 0 and e.domain.max_val == 1, "default MLP domain")
        x = rng.rand(*shape, 2)
        h = x[..., None]
        for l in mods:
            h = 1 / (1 + np.exp(-(h @ N(l.weight).T + N(l.bias))))
        close(e(T(x)), h, "MLP embedding")
    else:
        lo, hi = float(rng.randn()), float(rng.randn())
        if rng.randint(4) == 0:
            hi = lo
        ok = hi > lo
        _domain(em, (True, hi, lo), ok, "continuous domain [%s, %s]" % (lo, hi))
        k = int(rng.randint(-3, 6))
        _domain(em, (False, k), k >= 0, "discrete domain of size %d" % k)
        _domain(em, (False, 0), True, "discrete domain of size 0")
        _domain(em, (False, -1), False, "discrete domain of size -1")


def _domain(em, args, ok, what):
    try:
        dd = em.DataDomain(*args)
    except (AssertionError, ValueError):
        require(not ok, what + " was rejected")
        return
    require(ok, what + " was accepted")
    require(dd.max_val == args[1] and dd.continuous == args[0], what + " not recorded")
    if args[0]:
        require(dd.min_val == args[2], what + " not recorded")


CASES["C09"] = c09_cases
RUN["C09"] = run_c09
