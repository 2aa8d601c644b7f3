from common import *

CASES, RUN = {}, {}


def M(name):
    import importlib
    return importlib.import_module("torchmps." + name)


# --------------------------------------------------------------------------
# supervised MPS
# --------------------------------------------------------------------------
def build_mps(case, rng, **extra):
    mt = M("torchmps")
    kw = dict(feature_dim=case.get("f", 2), periodic_bc=case["per"], parallel_eval=case.get("par", False),
              label_site=case["label"], use_bias=case.get("bias", True), path=extra.pop("path", None))
    kw.update(extra)
    m = mt.MPS(case["n"], case["o"], case["D"], **kw)
    havoc(m, rng)
    return m


def havoc(m, rng, scale=1.0):
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(T(rng.randn(*p.shape) * scale))


def mps_params(m, n, label):
    """per-site cores [n][l,r,i], output core [o,l,r], bias per site (or 0)"""
    sd = m.state_dict()
    pre = "linear_region.module_list."
    k, cores, biases, out = 0, [], [], None
    if label > 0:
        t = N(sd[pre + "%d.tensor" % k]); b = sd.get(pre + "%d.bias_mat" % k)
        b = np.zeros((1,) + t.shape[1:3]) if b is None or b.numel() == 0 else N(b)
        for s in range(label):
            cores.append(t[s]); biases.append(b[s if b.shape[0] > 1 else 0])
        k += 1
    out = N(sd[pre + "%d.tensor" % k]); k += 1
    if label < n:
        t = N(sd[pre + "%d.tensor" % k]); b = sd.get(pre + "%d.bias_mat" % k)
        b = np.zeros((1,) + t.shape[1:3]) if b is None or b.numel() == 0 else N(b)
        for s in range(n - label):
            cores.append(t[s]); biases.append(b[s if b.shape[0] > 1 else 0])
    return cores, biases, out


def mps_oracle(cores, biases, out, label, per, feats):
    """feats [b, n, f] -> [b, o]"""
    res = []
    D = out.shape[1]
    for x in feats:
        L = np.eye(D)
        for s in range(label):
            L = L @ (np.einsum("lri,i->lr", cores[s], x[s]) + biases[s])
        R = np.eye(out.shape[2])
        for s in range(label, len(cores)):
            R = R @ (np.einsum("lri,i->lr", cores[s], x[s]) + biases[s])
        mats = [L @ out[o] @ R for o in range(len(out))]
        res.append([np.trace(a) if per else a[0, 0] for a in mats])
    return np.array(res).reshape(len(feats), len(out))


def feats2(x):
    return np.stack([x, 1 - x], -1)


def mps_cases(seed):
    rng = np.random.RandomState(seed)
    rnd = 0
    while True:
        for n in (1, 2, 3, 4, 5, 6):
            for label in range(n + 1):
                for per in (False, True):
                    yield dict(n=n, label=label, per=per, par=bool(rng.randint(2)), bias=bool(rng.randint(2)),
                               D=int(rng.randint(1, 4)), o=int(rng.randint(1, 4)), bs=int(rng.randint(1, 4)),
                               vec=bool(rng.randint(2)), f=int(rng.randint(1, 4)), seed=int(rng.randint(10 ** 6)))
                    if rng.randint(8) == 0:      # large bonds, outputs, features, batches
                        yield dict(n=n, label=label, per=per, par=bool(rng.randint(2)), bias=bool(rng.randint(2)),
                                   D=int(rng.randint(1, 20)), o=int(rng.randint(1, 14)), bs=int(rng.randint(1, 120)),
                                   vec=bool(rng.randint(2)), f=int(rng.randint(1, 9)), seed=int(rng.randint(10 ** 6)))
        rnd += 1
        yield dict(n=int(rng.randint(7, 40)), label=int(rng.randint(7)), per=bool(rng.randint(2)),
                   par=bool(rng.randint(2)), bias=bool(rng.randint(2)), D=2, o=2, bs=2, vec=False, f=2,
                   seed=int(rng.randint(10 ** 6)))


def special(rng, x):
    """now and then entries that are exactly zero, one, negative or large"""
    k = rng.randint(5)
    if k == 0:
        return rng.choice([0.0, 1.0], size=x.shape)
    if k == 1:
        return np.where(rng.rand(*x.shape) < 0.3, rng.choice([0.0, 1.0, -1.0, 0.5, 3.0], size=x.shape), x)
    if k == 2 and rng.randint(3) == 0:
        return np.zeros(x.shape)
    return x


def _input(case, rng, n=None):
    n = n or case["n"]
    if case["vec"]:
        x = special(rng, rng.randn(case["bs"], n, case["f"]))
        return x, x
    x = special(rng, rng.rand(case["bs"], n))
    return x, feats2(x)


def run_c10(case):
    rng = rng_of(case)
    if not case["vec"]:
        case = dict(case, f=2)
    m = build_mps(case, rng)
    past(m, rng, [lambda: m(T(_input(dict(case, bs=int(rng.randint(1, 5))), rng)[0]))])
    for rep in range(2):
        x, F = _input(dict(case, bs=case["bs"] + rep), rng)
        cores, biases, out = mps_params(m, case["n"], case["label"])
        want = mps_oracle(cores, biases, out, case["label"], case["per"], F)
        close(m(T(x)), want, "MPS output")


CASES["C10"] = mps_cases
RUN["C10"] = run_c10


# ---- default label site and lengths belong to C10 as well ----

def c03_cases(seed):
    rng = np.random.RandomState(seed)
    import orc_prob
    a, b = mps_cases(seed), orc_prob.prob_cases(seed, modes=(0,))
    c = ti_cases(seed)
    while True:
        yield dict(next(a), kind="mps")
        yield dict(next(b), kind="prob", L=int(rng.randint(1, 30)))
        yield dict(next(c), kind="ti")


def run_c03(case):
    rng = rng_of(case)
    if case["kind"] == "mps":
        if not case["vec"]:
            case = dict(case, f=2)
        m = build_mps(dict(case, par=False), rng)
        m2 = build_mps(dict(case, par=True), rng)
        m2.load_state_dict(m.state_dict())
        x, _ = _input(case, rng)
        close(m2(T(x)), N(m(T(x))), "parallel against serial evaluation of an MPS")
    elif case["kind"] == "ti":
        m, args = build_ti(dict(case, par=False), rng)
        m2, _ = build_ti(dict(case, par=True), rng)
        m2.load_state_dict(m.state_dict())
        x = args
        close(m2(x), N(m(x)), "parallel against serial evaluation of a TI_MPS")
    else:
        import orc_prob as op
        case = dict(case)
        if case["uniform"] or True:
            case["n"] = case["L"]
        m, core, vecs, B, table = op.build_prob(case, rng)
        K = len(op.alphabet_feats(case, table))
        idx = torch.tensor(rng.randint(K, size=(3, case["n"])))
        # amplitudes that are zero up to rounding have no stable logarithm
        F = op.alphabet_feats(case, table)
        for s in N(idx):
            v, sc = vecs[0], 1.0
            for t, i in enumerate(s):
                Mx = op.site_mats(case, core, B, F[i], t)
                v2 = v @ Mx
                den = np.abs(v).sum() * np.abs(Mx).max()
                if den == 0 or np.abs(v2).max() < 1e-9 * den:
                    return
                v = v2 / np.abs(v2).max()
            if abs(v @ vecs[1]) < 1e-9 * np.abs(vecs[1]).max():
                return
        try:
            a = m(idx)
        except AssertionError:
            if case["nil"] or case["sparse"] or case["emb"] == "diag":
                return
            raise
        outs = [m(idx, parallel_eval=True)]
        outs.append(m(idx, slim_eval=False, parallel_eval=False))
        if not case["bias"]:
            outs.append(m(idx, slim_eval=True))
        for o in outs:
            close(o, N(a), "evaluation strategies of a probabilistic model", tol=1e-6)


CASES["C03"] = c03_cases
RUN["C03"] = run_c03


# --------------------------------------------------------------------------
# C11
# --------------------------------------------------------------------------
def c11_cases(seed):
    rng = np.random.RandomState(seed)
    import orc_prob
    a, b, c = mps_cases(seed), orc_prob.prob_cases(seed), ti_cases(seed)
    while True:
        for k, g in (("mps", a), ("mps", a), ("prob", b), ("ti", c)):
            yield dict(next(g), kind=k, others=[int(rng.randint(1, 6)) for _ in range(2)],
                       path=bool(rng.randint(2)), fmap=bool(rng.randint(3) == 0))


def run_c11(case):
    rng = rng_of(case)
    fmap = None
    if case["kind"] == "mps":
        if not case["vec"]:
            case = dict(case, f=2)
        path = None
        if case["path"]:
            path = [int(x) for x in rng.permutation(case["n"])]
            if case["seed"] % 2:
                path = torch.tensor(path)
        m = build_mps(case, rng, path=path)
        if case["fmap"] and not case["vec"]:
            m.register_feature_map(lambda x: torch.stack([x * x, x + 1]))
        x, _ = _input(dict(case, bs=4), rng)
        call = m
    elif case["kind"] == "prob":
        import orc_prob as op
        m, core, vecs, B, table = op.build_prob(case, rng)
        ok, lz = op._nonzero(case, core, vecs, B, table)
        if not ok:
            return
        K = len(op.alphabet_feats(case, table))
        x = rng.randint(K, size=(4, case["n"]))
        call = lambda t: torch.exp(m(t, **op.MODES[case["mode"]]))
    else:
        m, x = build_ti(dict(case, bs=4, form="batch"), rng)
        x = N(x)
        call = m
    params = [(k, v.clone()) for k, v in m.state_dict().items()]
    X = T(x)
    X0 = X.clone()
    if case["kind"] == "ti":
        # the same sequences as a list: the list and its members must stay as they were
        L = [t.clone() for t in X]
        L0, keep = [t.clone() for t in L], list(L)
        outs = [N(m(L)), N(m(L))]
        require(len(L) == len(keep) and all(a is b and a.shape == c.shape and torch.equal(a, c) for a, b, c in zip(L, keep, L0)), "evaluation modified the list of sequences")
        close(outs[1], outs[0], "second evaluation of the same list")
    def disturb():
        mt = M("torchmps")
        for b in case["others"]:
            o = mt.MPS(3, 2, 2)
            o(torch.rand(b, 3))
            if case["seed"] % 3 == 0:
                mt.TI_MPS(2, 2)(torch.rand(b, 2))
    if case["seed"] % 2:
        disturb()
    full = N(call(X))
    require(torch.equal(X, X0), "evaluation modified the input data")
    for k, v in m.state_dict().items():
        old = dict(params).get(k)
        if old is not None:
            require(torch.equal(v, old), "evaluation modified parameter %s" % k)
    for sub in ([0], [1, 2], [3, 1, 0], [2], [3, 3, 3, 3, 1]):
        disturb()
        got = call(X[sub])
        close(got, full[sub], "outputs of samples %s in another batch" % (sub,))
    disturb()
    close(call(X), full, "second evaluation of the same batch")
    require(torch.equal(X, X0), "evaluation modified the input data")


CASES["C11"] = c11_cases
RUN["C11"] = run_c11


# --------------------------------------------------------------------------
# C15 TI_MPS
# --------------------------------------------------------------------------
def ti_cases(seed):
    rng = np.random.RandomState(seed)
    forms = ["batch", "list", "list", "batch"]
    i = 0
    while True:
        i += 1
        bias, fixed = [(True, True), (True, True), (True, False), (False, True), (False, False)][rng.randint(5)]
        yield dict(form=forms[i % 4], bias=bias, fixed_bias=fixed, fixed_ends=bool(rng.randint(2)),
                   D=int(rng.randint(1, 4) if rng.randint(8) else rng.randint(4, 20)), o=int(rng.randint(1, 4)), f=int(rng.randint(1, 4) if rng.randint(8) else rng.randint(4, 9)),
                   vec=bool(rng.randint(2)), par=bool(rng.randint(2)), fmap=bool(rng.randint(3) == 0),
                   L=int(rng.randint(1, 10) if rng.randint(8) else rng.randint(10, 60)), bs=int(rng.randint(1, 4) if rng.randint(8) else rng.randint(4, 60)), ragged=bool(rng.randint(2)),
                   seed=int(rng.randint(10 ** 6)))


def ti_feat(case, x):
    """features of raw sequence x [L]"""
    if case["fmap"]:
        return np.stack([np.cos((j + 1) * x) for j in range(case["f"])], -1)
    return feats2(x)


def build_ti(case, rng):
    mt = M("torchmps")
    f = case["f"]
    if not case["vec"] and not case["fmap"]:
        f = case["f"] = 2
    o = min(case["o"], case["D"]) if case["fixed_ends"] else case["o"]
    m = mt.TI_MPS(o, case["D"], feature_dim=f, parallel_eval=case["par"], fixed_ends=case["fixed_ends"],
                  use_bias=case["bias"], fixed_bias=case["fixed_bias"])
    havoc(m, rng)
    if case["fmap"]:
        m.register_feature_map(lambda x: torch.stack([torch.cos((j + 1) * x) for j in range(f)]))
    L, bs = case["L"], case["bs"]
    if case["form"] == "batch":
        x = T(special(rng, rng.randn(bs, L, f) if case["vec"] else rng.rand(bs, L)))
    else:
        lens = [int(rng.randint(1, L + 1)) if case["ragged"] else L for _ in range(bs)]
        x = [T(special(rng, rng.randn(l, f) if case["vec"] else rng.rand(l))) for l in lens]
        if case["ragged"] and not (case["bias"] and case["fixed_bias"]) and len(set(lens)) > 1:
            case["reject"] = True
            if case.get("kind"):
                x = [s[:min(lens)] for s in x]
                case["reject"] = False
    return m, x


def ti_oracle(m, case, feats):
    sd = m.state_dict()
    core = N(sd["core_tensor"])
    B = N(sd["bias_mat"]) if case["bias"] else np.zeros(core.shape[:2])
    v = N(sd["init_vector.vec"])
    Tm = N(sd["terminal_mat.mat"])
    for f in feats:
        v = v @ (np.einsum("lri,i->lr", core, f) + B)
    return v @ Tm


def run_c15(case):
    case = dict(case)
    rng = rng_of(case)
    m, x = build_ti(case, rng)
    if case.get("reject"):
        try:
            m(x)
        except ValueError:
            return
        raise Violation("length mix that cannot be padded neutrally was not rejected with ValueError")
    past(m, rng, [lambda: m(T(rng.randn(int(rng.randint(1, 4)), int(rng.randint(1, 6)), case["f"])))])
    seqs = [N(s) for s in x]
    want = np.array([ti_oracle(m, case, s if case["vec"] else ti_feat(case, s)) for s in seqs])
    keep = [s.copy() for s in seqs]
    got = m(x)
    close(got, want, "TI_MPS output")
    for a, b in zip(seqs, keep):
        require((a == b).all(), "TI_MPS modified its input")
    for i in range(len(seqs)):
        close(m([T(seqs[i])]), want[i:i + 1], "TI_MPS output of one sequence alone")
    if case["fixed_bias"] and case["bias"]:
        close(m.state_dict()["bias_mat"], np.eye(case["D"]), "fixed bias matrix")


CASES["C15"] = ti_cases
RUN["C15"] = run_c15


# --------------------------------------------------------------------------
# C20 paths and feature maps
# --------------------------------------------------------------------------
def c20_cases(seed):
    rng = np.random.RandomState(seed)
    kinds = ["path", "path", "map", "pre", "reject", "timap"]
    i = 0
    g = mps_cases(seed)
    while True:
        k = kinds[i % len(kinds)]
        i += 1
        c = next(g)
        if c["n"] > 6:
            continue
        yield dict(c, kind=k, tpath=bool(rng.randint(2)), total=int(c["n"] + rng.randint(4)),
                   adaptive=bool(rng.randint(4) == 0), thr=int(rng.randint(2, 6)))


def run_c20(case):
    rng = rng_of(case)
    mt = M("torchmps")
    k, n = case["kind"], case["n"]
    if k == "path":
        if not case["vec"]:
            case = dict(case, f=2)
        path = [int(x) for x in rng.choice(case["total"], n, replace=bool(rng.randint(2)) or case["total"] < n)]
        p = torch.tensor(path) if case["tpath"] else path
        extra = dict(adaptive_mode=True, merge_threshold=10 ** 9) if case["adaptive"] else {}
        a = build_mps(case, rng, path=p, **extra)
        b = build_mps(case, rng, path=None, **extra)
        b.load_state_dict(a.state_dict())
        x, F = _input(case, rng, n=case["total"])
        close(a(T(x)), N(b(T(x[:, path]))), "MPS with a path against the permuted input")
        if not case["adaptive"]:
            cores, biases, out = mps_params(a, n, case["label"])
            close(a(T(x)), mps_oracle(cores, biases, out, case["label"], case["per"], F[:, path]),
                  "MPS with a path")
    elif k == "map":
        case = dict(case, vec=False)
        m = build_mps(case, rng)
        W = rng.randn(case["f"], 2)
        calls = []

        def fm(x):
            calls.append(tuple(x.shape))
            return T(W[:, 0]) * x + T(W[:, 1]) * x * x
        m.register_feature_map(fm)
        x = rng.rand(case["bs"], n)
        F = W[:, 0] * x[..., None] + W[:, 1] * x[..., None] ** 2
        cores, biases, out = mps_params(m, n, case["label"])
        close(m(T(x)), mps_oracle(cores, biases, out, case["label"], case["per"], F), "MPS with a feature map")
        # pre-embedded inputs bypass the map
        Z = rng.randn(case["bs"], n, case["f"])
        close(m(T(Z)), mps_oracle(cores, biases, out, case["label"], case["per"], Z), "pre-embedded input with a map")
        m.register_feature_map(None)
        if case["f"] == 2:
            close(m(T(x)), mps_oracle(cores, biases, out, case["label"], case["per"], feats2(x)), "default map after reset")
    elif k == "pre":
        case = dict(case, vec=True)
        m = build_mps(case, rng)
        x, F = _input(case, rng)
        X = T(x)
        require(m.embed_input(X) is X or torch.equal(m.embed_input(X), X), "pre-embedded input changed")
    elif k == "reject":
        m = build_mps(dict(case), rng)
        f = case["f"]
        rejects(lambda: m.register_feature_map(lambda x: torch.zeros(f + 1)), "feature map of the wrong size")
        rejects(lambda: m.register_feature_map(lambda x: torch.zeros(f, 1)), "feature map of the wrong order")
        before = m.feature_map
        require(before is None, "rejected feature map was registered")
        rejects(lambda: m(torch.rand(2, n + 1)), "input of the wrong length")
        if n > 1:
            rejects(lambda: m(torch.rand(2, n - 1, f)), "input of the wrong length")
        rejects(lambda: m(torch.rand(2, n, f + 1)), "pre-embedded input of the wrong feature size")
        rejects(lambda: m(torch.rand(n)), "input without batch dimension")
        rejects(lambda: m(torch.rand(1, 2, n, f)), "input of order 4")
        rejects(lambda: mt.MPS(n, 2, 2, path=list(range(n + 1))), "path of the wrong length")
        if f != 2:
            rejects(lambda: m(torch.rand(2, n)), "raw input without a default map")
    else:
        f = case["f"]
        m = mt.TI_MPS(2, 3, feature_dim=f)
        havoc(m, rng)
        rejects(lambda: m.register_feature_map(lambda x: torch.zeros(f + 1)), "TI_MPS feature map of the wrong size")
        c = dict(f=f, fmap=True, bias=True)
        m.register_feature_map(lambda x: torch.stack([torch.cos((j + 1) * x) for j in range(f)]))
        x = rng.rand(case["bs"], n)
        close(m(T(x)), np.array([ti_oracle(m, c, ti_feat(c, s)) for s in x]), "TI_MPS with a feature map")
        Z = rng.randn(case["bs"], n, f)
        close(m(T(Z)), np.array([ti_oracle(m, c, s) for s in Z]), "TI_MPS pre-embedded with a map")
        rejects(lambda: m(torch.rand(2, n, f + 1)), "TI_MPS input of the wrong feature size")
        m.register_feature_map(None)
        if f == 2:
            close(m(T(x)), np.array([ti_oracle(m, c, feats2(s)) for s in x]), "TI_MPS default map after reset")


def rejects(fn, what):
    try:
        fn()
    except (AssertionError, ValueError, RuntimeError, IndexError):
        return
    raise Violation(what + " was not rejected")


CASES["C20"] = c20_cases
RUN["C20"] = run_c20
