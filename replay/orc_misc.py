from common import *
from orc_mps import havoc, mps_cases, feats2, M

CASES, RUN = {}, {}

# --------------------------------------------------------------------------
# adaptive MPS
# --------------------------------------------------------------------------
MERGED, UNM = None, None


def ad_cases(seed):
    rng = np.random.RandomState(seed)
    while True:
        for n in (1, 2, 3, 4, 5, 6, 7):
            for label in range(n + 1):
                for per in (False, True):
                    if n == 7 and rng.randint(3):
                        continue
                    yield dict(n=n, label=label, per=per, par=bool(rng.randint(2)), D=int(rng.randint(1, 5)),
                               o=int(rng.randint(1, 4)), f=int(rng.randint(1, 3)), bs=int(rng.randint(1, 4)),
                               low=int(rng.randint(1, 5)), scale=float([1, 1, 1e-2, 30][rng.randint(4)]),
                               thr=int(rng.randint(1, 9)), seed=int(rng.randint(10 ** 6)))
                    if rng.randint(8) == 0:      # more sites, larger bonds, outputs, features, batches
                        m = int(rng.randint(1, 18))
                        yield dict(n=m, label=int(rng.randint(m + 1)), per=per, par=bool(rng.randint(2)), D=int(rng.randint(1, 12 if m < 10 else 6)),
                                   o=int(rng.randint(1, 9)), f=int(rng.randint(1, 5)), bs=int(rng.randint(1, 12)),
                                   low=int(rng.randint(1, 12)), scale=float([1, 1, 1e-2, 30][rng.randint(4)]),
                                   thr=int(rng.randint(1, 30)), seed=int(rng.randint(10 ** 6)))


def site_cores(rng, n, label, D, f, o, low, scale=1.0):
    """random unmerged cores of true bond dimension min(low, D)"""
    r = min(low, D)
    cores = []
    for i in range(n):
        a = np.zeros((D, D, f))
        a[:r, :r] = rng.randn(r, r, f) * scale
        cores.append(a)
    out = np.zeros((o, D, D))
    out[:, :r, :r] = rng.randn(o, r, r)
    return cores, out


def load_adaptive(m, cores, out, label):
    """fill the merged modules in use from unmerged cores, walking the module
    list the model built"""
    mods = list(m.linear_region.module_list)
    seq = [("i", c) for c in cores[:label]] + [("o", out)] + [("i", c) for c in cores[label:]]
    k = 0
    with torch.no_grad():
        for mod in mods:
            t = mod.tensor
            name = type(mod).__name__
            if t.dim() == 5:
                for s in range(t.shape[0]):
                    a, b = seq[k][1], seq[k + 1][1]
                    k += 2
                    t[s] = T(np.einsum("lui,urj->lrij", a, b))
            elif t.dim() == 4:
                (ka, a), (kb, b) = seq[k], seq[k + 1]
                k += 2
                if ka == "o":
                    t[:] = T(np.einsum("olu,uri->olri", a, b))
                else:
                    t[:] = T(np.einsum("lui,our->olri", a, b))
            else:
                t[:] = T(seq[k][1])
                k += 1
    require(k == len(seq), "merged modules do not cover the cores")


def ad_oracle(cores, out, label, per, F):
    from orc_mps import mps_oracle
    z = [np.zeros(c.shape[:2]) for c in cores]
    return mps_oracle(cores, z, out, label, per, F)


def build_ad(case, rng):
    mt = M("torchmps")
    m = mt.MPS(case["n"], case["o"], case["D"], feature_dim=case["f"], periodic_bc=case["per"],
               parallel_eval=case["par"], label_site=case["label"], adaptive_mode=True,
               cutoff=0.0 if case.get("zero") else 1e-11, merge_threshold=case["thr"])
    cores, out = site_cores(rng, case["n"], case["label"], case["D"], case["f"], case["o"], case["low"], case["scale"])
    if case.get("zero"):
        # an exactly zero core (no singular value is below the cutoff 0)
        (cores + [out])[case["seed"] % (case["n"] + 1)][:] = 0
    load_adaptive(m, cores, out, case["label"])
    return m, cores, out


def run_c12(case):
    rng = rng_of(case)
    case = dict(case, zero=case["seed"] % 11 == 0)
    m, cores, out = build_ad(case, rng)
    F = rng.randn(case["bs"], case["n"], case["f"])
    want = ad_oracle(cores, out, case["label"], case["per"], F)
    ref = np.abs(want).max() + 1e-300
    for i in range(10):
        if i and (case["seed"] + i) % 4 == 0:
            # training between the shifts: new values of the merged cores
            z = np.random.RandomState(case["seed"] + i)
            cores, out = site_cores(z, case["n"], case["label"], case["D"], case["f"], case["o"], case["low"], case["scale"])
            load_adaptive(m, cores, out, case["label"])
            want = ad_oracle(cores, out, case["label"], case["per"], F)
            ref = np.abs(want).max() + 1e-300
        m.train((case["seed"] // 7 + i) % 3 > 0)
        with torch.set_grad_enabled((case["seed"] // 5 + i) % 3 > 0):
            got = m(T(F))
        require(tuple(got.shape) == want.shape, "adaptive MPS output has shape %s after %d evaluations" % (tuple(got.shape), i))
        r = ref if ref > 1e-200 else 1.0
        close(N(got) / r, want / r, "adaptive MPS output after %d evaluations" % i, tol=1e-6)

CASES["C12"] = ad_cases
RUN["C12"] = run_c12


def run_c13(case):
    rng = rng_of(case)
    m, cores, out = build_ad(case, rng)
    lr = m.linear_region
    thr = case["thr"]
    ids = [(k, id(p), tuple(p.shape)) for k, p in m.named_parameters()]
    opt = [p for p in m.parameters()]
    counter, offset = 0, 0
    n, label, D = case["n"], case["label"], case["D"]
    for step in range(8):
        bs = int(rng.randint(1, 2 * thr + 1)) if step % 3 else int(rng.randint(1, 3))
        shift = counter >= thr
        if step and (case["seed"] + step) % 3 == 0:
            # training between the evaluations: ranks go down and up again
            z = np.random.RandomState(case["seed"] + step)
            cs, o = site_cores(z, n, label, D, case["f"], case["o"], [1, D, 2][step % 3], case["scale"])
            load_adaptive(m, cs, o, label)
        before_b = m.bond_list.clone()
        before_s = m.sv_list.clone()
        expect = {}
        if shift:
            # merged cores of the list in use, walked left to right
            pos = 0
            for mod in getattr(lr, "module_list_%d" % offset):
                t = N(mod.tensor).copy()
                if t.ndim == 5:
                    for s in range(t.shape[0]):
                        mat = t[s].transpose(0, 2, 1, 3).reshape(t.shape[1] * t.shape[3], -1)
                        expect[pos + 1] = (np.linalg.svd(mat, compute_uv=False), t.shape[1])
                        pos += 2
                elif t.ndim == 4:
                    if mod.left_output:
                        mat = t.transpose(0, 1, 2, 3).reshape(t.shape[0] * t.shape[1], -1)
                    else:
                        mat = t.transpose(0, 2, 1, 3).reshape(t.shape[0] * t.shape[2], -1)
                    expect[pos + 1] = (np.linalg.svd(mat, compute_uv=False), t.shape[1])
                    pos += 2
                else:
                    pos += 1
            counter -= thr
            offset = 1 - offset
        counter += bs
        m.train((case["seed"] // 7 + step) % 3 > 0)
        with torch.set_grad_enabled((case["seed"] // 5 + step) % 3 > 0):
            m(T(rng.randn(bs, n, case["f"])))
        require(not hasattr(lr, "offset") or lr.offset == offset, "step %d: offset %d, expected %d (shift expected: %s)" % (step, lr.offset, offset, shift))
        require(not hasattr(lr, "input_counter") or lr.input_counter == counter, "step %d: input counter %s, expected %s" % (step, lr.input_counter, counter))
        require([id(p) for p in lr.module_list.parameters()] ==
                [id(p) for p in getattr(lr, "module_list_%d" % offset).parameters()], "module list in use is not the merged list of the offset")
        now = [(k, id(p), tuple(p.shape)) for k, p in m.named_parameters()]
        require(len({i for _, i, _ in now}) == len({i for _, i, _ in ids}) and
                {i for _, i, _ in now} == {i for _, i, _ in ids}, "parameters changed identity")
        require(sorted(tuple(p.shape) for p in opt) == sorted(s for _, _, s in now), "parameters changed shape")
        for i in range(len(before_b)):
            if i in expect:
                sv, d = expect[i]
                full = np.zeros(D)
                full[:min(D, len(sv))] = sv[:D]
                k = 0
                while k < D and full[k] >= 1e-11:
                    k += 1
                if (np.abs(full - 1e-11) < 1e-12 * max(1, full.max(initial=0))).any() and not (full[k:] == 0).all():
                    k = int(m.bond_list[i])   # borderline rounding
                if (full[:k] < 1e-9 * full.max(initial=0)).any() or ((full > 0) & (full < 1e-9 * max(full.max(initial=0), 1e-300))).any():
                    pass  # rank decided by rounding
                else:
                    require(int(m.bond_list[i]) == k, "bond %d has dimension %d, expected %d" % (i, int(m.bond_list[i]), k))
                close(m.sv_list[i], full, "singular values of bond %d" % i, tol=1e-8)
            else:
                require(int(m.bond_list[i]) == int(before_b[i]), "bond dimension %d changed" % i)
                require(torch.equal(m.sv_list[i], before_s[i]), "singular values of bond %d changed" % i)


CASES["C13"] = ad_cases
RUN["C13"] = run_c13


# --------------------------------------------------------------------------
# C14 svd_flex
# --------------------------------------------------------------------------
def c14_cases(seed):
    rng = np.random.RandomState(seed)
    while True:
        k = int(rng.randint(2, 6))
        chars = list("abcdefgh"[:k])
        rng.shuffle(chars)
        cut = int(rng.randint(1, k))
        perm = [chars[i] for i in rng.permutation(k)]
        left, right = perm[:cut], perm[cut:]
        left.insert(int(rng.randint(len(left) + 1)), "x")
        right.insert(int(rng.randint(len(right) + 1)), "x")
        yield dict(str="%s->%s,%s" % ("".join(chars), "".join(left), "".join(right)),
                   dims=[int(x) for x in (rng.randint(1, 4, size=k) if rng.randint(10) else rng.randint(1, 12 if k < 4 else 6, size=k))], D=int(rng.randint(0, 8) if rng.randint(8) else rng.randint(8, 40)) or None,
                   cut=float([1e-10, 0.5, 1.5, 3.0][rng.randint(4)]), right=bool(rng.randint(2)),
                   vec=bool(rng.randint(2)), rank=int(rng.randint(0, 4)), cplx=bool(rng.randint(4) == 0),
                   sp=bool(rng.randint(2)), seed=int(rng.randint(10 ** 6)))


def run_c14(case):
    rng = rng_of(case)
    u = M("utils")
    a = rt(rng, *case["dims"], cplx=case["cplx"])
    init, post = case["str"].split("->")
    ls, rs = post.split(",")
    lp, rp = ls.replace("x", ""), rs.replace("x", "")
    mat = np.einsum("%s->%s" % (init, lp + rp), a)
    lsh, rsh = mat.shape[:len(lp)], mat.shape[len(lp):]
    mat = mat.reshape(int(np.prod(lsh)), int(np.prod(rsh)))
    if case["rank"]:   # low rank
        U, S, V = np.linalg.svd(mat, full_matrices=False)
        S = S.copy(); S[case["rank"]:] = 0
        mat = (U * S) @ V
        a = np.einsum("%s->%s" % (lp + rp, init), mat.reshape(lsh + rsh))
    exact = case["seed"] % 5 == 0 and case["cut"] > 1e-9
    if exact:
        # diagonal matrix: its singular values are exact, one of them equals the cutoff
        k = min(mat.shape)
        dg = np.sort(np.array([case["cut"]] + [[4.0, 2.0, 1.0, 0.25][rng.randint(4)] for _ in range(k - 1)]))[::-1]
        mat = np.zeros(mat.shape)
        mat[np.arange(k), np.arange(k)] = dg
        a = np.einsum("%s->%s" % (lp + rp, init), mat.reshape(lsh + rsh))
        case = dict(case, rank=0)
        exact = (np.linalg.svd(mat, compute_uv=False) == dg).all() and (N(torch.svd(T(mat))[1]) == dg).all()
    U, S, V = np.linalg.svd(mat, full_matrices=False)
    D = case["D"]
    svs = S[:D] if D else S
    kept = 0
    while kept < len(svs) and svs[kept] >= case["cut"]:
        kept += 1
    if not exact and np.abs(svs - case["cut"]).min(initial=9) < 1e-8 * max(1, svs.max(initial=0)) and case["cut"] > 1e-9:
        return
    if case["rank"] and case["cut"] < 1e-9:
        kept = min(kept, case["rank"])
        if (S[:kept] < 1e-6).any():
            return
    elif (S < 1e-6).any() and case["cut"] < 1e-9:
        return
    size = D if D else len(S)
    vec = torch.full([size], -7.0) if case["vec"] else None
    st = case["str"].replace("->", " -> ").replace(",", " , ") if case["sp"] else case["str"]
    kw = dict(max_D=D, cutoff=case["cut"], sv_right=case["right"], sv_vec=vec)
    X = T(a)
    X0 = X.clone()
    if kept == 0:
        try:
            u.svd_flex(X, st, **kw)
        except RuntimeError:
            return
        raise Violation("all singular values below the cutoff: no RuntimeError")
    lt, r_t, bd = u.svd_flex(X, st, **kw)
    require(torch.equal(X, X0), "svd_flex modified its input")
    require(int(bd) == kept, "bond dimension %s, expected %d" % (bd, kept))
    width = D if D else kept
    sizes = dict(zip(init, case["dims"])); sizes["x"] = width
    require(tuple(lt.shape) == tuple(sizes[c] for c in ls), "left shape %s" % (tuple(lt.shape),))
    require(tuple(r_t.shape) == tuple(sizes[c] for c in rs), "right shape %s" % (tuple(r_t.shape),))
    approx = (U[:, :kept] * S[:kept]) @ V[:kept]
    if kept < len(S) and S[kept - 1] - S[kept] < 1e-7:
        return
    want = np.einsum("%s->%s" % (lp + rp, init), approx.reshape(lsh + rsh))
    close(np.einsum("%s,%s->%s" % (ls, rs, init), N(lt), N(r_t)), want, "product of the two factors")
    lm = np.einsum("%s->%sx" % (ls, lp), N(lt)).reshape(-1, width)
    rm = np.einsum("%s->x%s" % (rs, rp), N(r_t)).reshape(width, -1)
    require((lm[:, kept:] == 0).all() and (rm[kept:] == 0).all(), "discarded triples are not exactly zero")
    if case["right"]:
        close(lm[:, :kept].conj().T @ lm[:, :kept], np.eye(kept), "orthonormality of the left factor")
        close(np.sqrt((np.abs(rm[:kept]) ** 2).sum(1)), S[:kept], "singular values on the right factor")
    else:
        close(rm[:kept] @ rm[:kept].conj().T, np.eye(kept), "orthonormality of the right factor")
        close(np.sqrt((np.abs(lm[:, :kept]) ** 2).sum(0)), S[:kept], "singular values on the left factor")
    if vec is not None:
        full = np.zeros(size)
        k = min(size, len(S))
        full[:k] = S[:k]
        full_t = full.copy(); full_t[kept:] = 0
        got = N(vec)
        if not np.allclose(got, full, atol=1e-7):
            close(vec, full, "sv_vec")


CASES["C14"] = c14_cases
RUN["C14"] = run_c14


# --------------------------------------------------------------------------
# C16 contractables
# --------------------------------------------------------------------------
def c16_cases(seed):
    rng = np.random.RandomState(seed)
    kinds = ["pair", "scalar", "region", "list", "expand", "listmul", "regionvec", "inner"]
    i = 0
    while True:
        k = kinds[i % len(kinds)]
        i += 1
        size = lambda hi, big: int(rng.randint(1, hi) if rng.randint(8) else rng.randint(hi, big))
        yield dict(kind=k, a=int(rng.randint(6)), b=int(rng.randint(6)), L=size(12, 40),
                   D=size(4, 20), bs=size(4, 40), o=size(4, 20),
                   par=bool(rng.randint(2)), side=bool(rng.randint(2)), shape=int(rng.randint(4)),
                   nob=bool(rng.randint(3) == 0), seed=int(rng.randint(10 ** 6)))


class Obj:
    """contractable together with its numpy tensor; label string w/o batch"""

    def __init__(self, c, arr, s):
        self.c, self.a, self.s = c, arr, s


def mk(kind, rng, bs, D, o, nob=False, E=None):
    ct = M("contractables")
    E = E or D           # right bond
    pre = [] if nob else [bs]
    def full(x):
        return np.broadcast_to(x, (bs,) + x.shape).copy() if nob else x
    if kind == "mat":
        x = rng.randn(*pre, D, E)
        return Obj(ct.SingleMat(T(x)), full(x), "lr")
    if kind == "core":
        x = rng.randn(*pre, o, D, E)
        return Obj(ct.OutputCore(T(x)), full(x), "olr")
    if kind == "lvec":
        x = rng.randn(*pre, E)
        return Obj(ct.EdgeVec(T(x), is_left_vec=True), full(x), "r")
    if kind == "rvec":
        x = rng.randn(*pre, D)
        return Obj(ct.EdgeVec(T(x), is_left_vec=False), full(x), "l")
    if kind == "lout":
        x = rng.randn(*pre, E, o)
        return Obj(ct.OutputMat(T(x), is_left_mat=True), full(x), "ro")
    if kind == "rout":
        x = rng.randn(*pre, D, o)
        return Obj(ct.OutputMat(T(x), is_left_mat=False), full(x), "lo")
    if kind == "gen":
        x = rng.randn(bs, D, 2, E)
        return Obj(ct.Contractable(T(x), "blqr"), x, "lqr")
    raise KeyError(kind)


def np_mul(A, As, B, Bs):
    """contract r of A with l of B; returns array and label list"""
    ren = {}
    used = set(As) | set(Bs)
    free = [c for c in "uvwxyzabcdefg" if c not in used]
    Bs2 = []
    for c in Bs:
        if c != "l" and c != "r" and c in As:
            ren[c] = free.pop()
            Bs2.append(ren[c])
        else:
            Bs2.append(c)
    sa = As.replace("r", "Z")
    sb = "".join(Bs2).replace("l", "Z")
    keep = [c for c in sa + sb if c not in "Zlr"]
    outs = "".join(keep) + ("l" if "l" in sa else "") + ("r" if "r" in sb else "")
    return np.einsum("B%s,B%s->B%s" % (sa, sb, outs), A, B), outs


def check_con(c, arr, s, what):
    """compare a contractable with array whose non-batch labels are s (o = any)"""
    got_s = c.bond_str
    require(got_s[0] == "b", what + ": no batch index")
    gs = got_s[1:]
    require(len(gs) == len(s) and ("l" in gs) == ("l" in s) and ("r" in gs) == ("r" in s),
            what + ": bond string %s, expected indices %s" % (got_s, "b" + s))
    # align l and r positions, other indices in order
    perm = []
    others = [i for i, ch in enumerate(gs) if ch not in "lr"]
    so = [i for i, ch in enumerate(s) if ch not in "lr"]
    perm = [0] * len(s)
    for i, ch in enumerate(s):
        if ch in "lr":
            perm[gs.index(ch)] = i
    for a, b in zip(others, so):
        perm[a] = b
    want = np.transpose(arr, [0] + [p + 1 for p in perm])
    close(c.tensor, want, what)


LEFTS = ["mat", "core", "lvec", "lout", "gen", "mat"]
RIGHTS = ["mat", "core", "rvec", "rout", "gen", "mat"]


def run_c16(case):
    rng = rng_of(case)
    ct = M("contractables")
    bs, D, o, L = case["bs"], case["D"], case["o"], case["L"]
    k = case["kind"]
    ct.Contractable.global_bs = bs if case["nob"] else None
    if k == "pair" and LEFTS[case["a"]] == "lout" and RIGHTS[case["b"]] == "rout":
        return  # documented as unsupported (OutputMat only multiplies vectors and matrices)
    if k == "pair":
        dl, dr = (int(x) for x in rng.randint(1, 5, size=2)) if case["seed"] % 2 else (D, D)
        A = mk(LEFTS[case["a"]], rng, bs, dl, o, E=D)
        B = mk(RIGHTS[case["b"]], rng, bs, D, o + 1, nob=case["nob"] and RIGHTS[case["b"]] != "gen", E=dr)
        if LEFTS[case["a"]] == "lvec" and RIGHTS[case["b"]] == "rvec":
            r = A.c * B.c
            close(r.tensor, (A.a * B.a).sum(-1), "inner product")
            require(r.bond_str == "b", "inner product is not a scalar")
            return
        want, s = np_mul(A.a, A.s, B.a, B.s)
        check_con(A.c * B.c, want, s, "%s * %s" % (LEFTS[case["a"]], RIGHTS[case["b"]]))
        close(A.c.tensor, A.a, "left operand after the product")
        close(B.c.tensor, B.a, "right operand after the product")
    elif k == "inner":
        A, B = mk("lvec", rng, bs, D, o), mk("rvec", rng, bs, D, o, nob=case["nob"])
        close((A.c * B.c).tensor, (A.a * B.a).sum(-1), "inner product")
    elif k == "scalar":
        kinds = ["mat", "core", "lvec", "rvec", "lout", "rout", "gen", "region"]
        kind = kinds[(case["a"] + 2 * case["shape"]) % 8]
        if kind == "region":
            x = rng.randn(bs, L, D, D)
            A = Obj(ct.MatRegion(T(x)), x, "slr")
        else:
            A = mk(kind, rng, bs, D, o)
        if case["nob"]:
            sv = rng.randn()
            S = ct.Scalar(torch.tensor(sv))
            sv = np.full(bs, sv)
        else:
            sv = rng.randn(bs)
            S = ct.Scalar(T(sv))
        r = S * A.c if case["side"] else A.c * S
        want = A.a * sv.reshape([bs] + [1] * (A.a.ndim - 1))
        close(r.tensor, want, "product of a scalar with %s" % kind)
        require(type(r) is type(A.c) and r.bond_str == A.c.bond_str, "scalar product changed the kind of %s" % kind)
    elif k == "region":
        x = rng.randn(bs, L, D, D)
        if case["nob"]:
            R = ct.MatRegion(T(x[0]))
            x = np.broadcast_to(x[0], x.shape)
        else:
            R = ct.MatRegion(T(x))
        p = np.eye(D)
        for i in range(L):
            p = p @ x[:, i]
        p = np.broadcast_to(p, (bs, D, D))
        r = R.reduce()
        close(r.tensor, p, "reduction of a matrix region of length %d" % L)
        require(r.bond_str == "blr", "reduction of a matrix region is not a matrix")
        close(R.tensor, x, "matrix region after the reduction")
    elif k == "regionvec":
        x = rng.randn(bs, L, D, D)
        R = ct.MatRegion(T(x))
        A = mk("lvec" if case["side"] else "rvec", rng, bs, D, o, nob=case["nob"])
        v = A.a
        if case["side"]:
            for i in range(L):
                v = np.einsum("bl,blr->br", v, x[:, i])
            r = A.c * R
        else:
            for i in range(L)[::-1]:
                v = np.einsum("blr,br->bl", x[:, i], v)
            r = R * A.c
        check_con(r, v, "r" if case["side"] else "l", "vector times matrix region")
    elif k in ("list", "listmul"):
        # [left end] (mat | region)* core (mat | region)* [right end]
        rect = case["seed"] % 3 == 0
        cur = D

        def items(n):
            nonlocal cur
            out = []
            for _ in range(n):
                if rng.randint(2):
                    nx = int(rng.randint(1, 5)) if rect else cur
                    out.append(mk("mat", rng, bs, cur, o, E=nx))
                    cur = nx
                else:
                    x = rng.randn(bs, int(rng.randint(1, 5) if rng.randint(8) else rng.randint(5, 20)), cur, cur)
                    out.append(Obj(ct.MatRegion(T(x)), x, "slr"))
            return out
        left = mk("lvec", rng, bs, D, o) if (case["shape"] < 2 or not case["par"]) else None
        nl, nr = (int(rng.randint(3)) if rng.randint(8) else int(rng.randint(3, 9)) for _ in range(2))
        mid = items(nl)
        if case["shape"] % 2:
            nx = int(rng.randint(1, 5)) if rect else cur
            core = [mk("core", rng, bs, cur, o, E=nx)]
            cur = nx
            mid = mid + core
        else:
            core = []
        mid = mid + items(nr)
        if not mid:
            mid = [mk("mat", rng, bs, cur, o)]
        right = mk("rvec", rng, bs, cur, o) if (case["shape"] < 2 or not case["par"]) else None
        seq = ([left] if left else []) + mid + ([right] if right else [])
        arr, s = None, None
        for it in seq:
            xs = [it] if it.s != "slr" else [Obj(None, it.a[:, j], "lr") for j in range(it.a.shape[1])]
            for z in xs:
                if arr is None:
                    arr, s = z.a, z.s
                elif s == "r" and z.s == "l":
                    arr, s = (arr * z.a).sum(-1), ""
                else:
                    arr, s = np_mul(arr, s, z.a, z.s)
        if k == "list":
            if any(x.s == "slr" for x in seq) and not case["par"] and (left is None):
                return
            if not case["par"] and case["shape"] >= 2 and len(core) and False:
                return
            r = ct.ContractableList([x.c for x in seq]).reduce(parallel_eval=case["par"])
            check_con(r, arr, s, "reduction of a list")
        else:
            inner = [x for x in mid if x.s != "slr"]
            if not inner:
                return
            if any(x.a.shape[-1] != y.a.shape[-2] for x, y in zip(inner[:-1], inner[1:])):
                return
            CL = ct.ContractableList([x.c for x in inner])
            V = mk("lvec" if case["side"] else "rvec", rng, bs, inner[0].a.shape[-2] if case["side"] else inner[-1].a.shape[-1], o)
            seq = [V] + inner if case["side"] else inner + [V]
            arr, s = seq[0].a, seq[0].s
            for z in seq[1:]:
                arr, s = np_mul(arr, s, z.a, z.s)
            r = V.c * CL if case["side"] else CL * V.c
            check_con(r, arr, s, "product with a list")
            S = ct.Scalar(T(rng.randn(bs)))
            arr, s = inner[0].a, inner[0].s
            for z in inner[1:]:
                arr, s = np_mul(arr, s, z.a, z.s)
            sv = N(S.tensor).reshape([bs] + [1] * (arr.ndim - 1))
            r = S * CL if case["a"] % 2 else CL * S
            check_con(r, arr * sv, s, "scalar times list")
    else:
        ct.Contractable.global_bs = None
        kinds = ["mat", "core", "lvec", "rvec", "lout", "rout"]
        try:
            mk(kinds[case["a"]], rng, bs, D, o, nob=True)
        except (RuntimeError, ValueError):
            pass
        else:
            raise Violation("tensor without batch index accepted although no batch size is known")
        first = mk("mat", rng, bs, D, o)
        require(ct.Contractable.global_bs == bs, "global batch size not recorded")
        A = mk(kinds[case["a"]], rng, bs, D, o, nob=True)
        close(A.c.tensor, A.a, "replication over the batch")
        require(A.c.bond_str[0] == "b", "no batch index after replication")
        bs2 = bs + 1
        second = mk("mat", rng, bs2, D, o)
        A = mk(kinds[case["b"]], rng, bs2, D, o, nob=True)
        close(A.c.tensor, A.a, "replication over the new batch")


CASES["C16"] = c16_cases
RUN["C16"] = run_c16


# --------------------------------------------------------------------------
# C17 initializers
# --------------------------------------------------------------------------
def c17_cases(seed):
    rng = np.random.RandomState(seed)
    kinds = ["init_tensor", "init_tensor", "near_eye", "normal", "initvec", "terminal", "models"]
    i = 0
    while True:
        k = kinds[i % len(kinds)]
        i += 1
        extra = "".join(rng.permutation(list("oisx"))[: int(rng.randint(3))])
        bs = "".join(rng.permutation(list("lr" + extra)))
        yield dict(kind=k, str=bs, shape=[int(rng.randint(1, 6) if rng.randint(8) else rng.randint(6, 14)) for _ in bs],
                   method=["random_eye", "min_random_eye", "random_zero"][rng.randint(3)], init=int(rng.randint(1, 8) if rng.randint(8) else rng.randint(8, 30)),
                   std=float([1e-9, 0.1, 2.0][rng.randint(3)]), d=int(rng.randint(1, 4)), D=int(rng.randint(1, 6) if rng.randint(8) else rng.randint(6, 30)),
                   pre=[int(rng.randint(1, 4)) for _ in range(int(rng.randint(3)))], cplx=bool(rng.randint(2)),
                   fix=bool(rng.randint(2)), o=int(rng.randint(1, 6)), fill=int(rng.randint(-1, 6)),
                   bias=bool(rng.randint(2)), uniform=bool(rng.randint(2)), fixed_bias=bool(rng.randint(2)),
                   strm=bool(rng.randint(2)), adaptive=bool(rng.randint(3) == 0), seed=int(rng.randint(10 ** 6)))


def gauss_ok(z, what, big=400):
    z = np.asarray(z).ravel()
    require(np.isfinite(z).all(), what + ": noise not finite")
    if z.size >= big:
        require(abs(z.mean()) < 6 / math.sqrt(z.size), what + ": noise mean %g" % z.mean())
        require(abs(z.var() - 1) < 12 / math.sqrt(z.size), what + ": noise variance %g" % z.var())
        require(abs((np.abs(z) < 0.6745).mean() - 0.5) < 4 / math.sqrt(z.size), what + ": noise is not Gaussian")
    require(len(np.unique(z)) == z.size or z.size < 2, what + ": noise entries repeat")


def run_c17(case):
    rng = rng_of(case)
    u, mb, mt, pm = M("utils"), M("mps_base"), M("torchmps"), M("prob_mps")
    k = case["kind"]
    if k == "init_tensor":
        shape, s = case["shape"], case["str"]
        meth = case["method"]
        dl, dr = shape[s.index("l")], shape[s.index("r")]
        det = np.zeros([dl, dr])
        if meth == "random_eye":
            det = np.eye(dl, dr)
        elif meth == "min_random_eye":
            q = min(case["init"], dl, dr)
            det[:q, :q] = np.eye(q)
        perm = np.zeros(shape)
        idx = [np.newaxis] * len(s)
        if s.index("l") < s.index("r"):
            sub = det
        else:
            sub = det.T
        ix = tuple(slice(None) if c in "lr" else np.newaxis for c in s)
        perm = np.broadcast_to(sub[ix], shape)
        if s.index("r") < s.index("l"):
            perm = np.broadcast_to(det.T[ix], shape)
        args = (meth, case["std"]) if meth != "min_random_eye" else (meth, case["std"], case["init"])
        if case["strm"] and meth != "min_random_eye":
            args, std = meth, 1e-9
        else:
            std = case["std"]
        big = list(shape)
        t = u.init_tensor(shape, s, args)
        require(list(t.shape) == list(shape), "init_tensor shape")
        require(not t.requires_grad, "init_tensor requires grad")
        zz = []
        for rep in range(max(1, 500 // max(1, int(np.prod(shape))))):
            t = u.init_tensor(shape, s, args)
            zz.append(((N(t) - perm) / std).ravel())
        if std > 1e-8:
            gauss_ok(np.concatenate(zz), "init_tensor " + meth)
        else:
            require(np.abs(np.concatenate(zz)).max() < 40, "init_tensor %s: deterministic part is wrong" % meth)
            require(abs(np.concatenate(zz).std() - 1) < 0.5 or len(zz) * zz[0].size < 50, "init_tensor %s: noise scale" % meth)
        rejects_v(lambda: u.init_tensor(shape, s, ("foo", 1.0)), "unknown init method")
    elif k in ("near_eye", "normal"):
        D = case["D"]
        shape = tuple(case["pre"] + [case["d"], D, D])
        fn = mb.near_eye_init if k == "near_eye" else mb.normal_init
        par = [1e-3, 0.5][case["fix"]] if k == "near_eye" else [1.0, 0.3][case["fix"]]
        kw = {} if par in (1e-3, 1.0) else ({"noise": par} if k == "near_eye" else {"rel_std": par})
        std = par / D
        det = np.broadcast_to(np.eye(D), shape) if k == "near_eye" else np.zeros(shape)
        zs, ph = [], []
        for rep in range(max(1, 600 // int(np.prod(shape)))):
            t = fn(shape, is_complex=case["cplx"], **kw)
            require(tuple(t.shape) == shape, k + " shape")
            require(t.is_complex() == case["cplx"], k + ": complex flag")
            z = (N(t) - det) / std
            if case["cplx"]:
                ph.append(np.angle(z).ravel())
                zs.append(np.abs(z).ravel())
            else:
                zs.append(z.ravel())
        z = np.concatenate(zs)
        if case["cplx"]:
            require(abs((z ** 2).mean() - 1) < 12 / math.sqrt(z.size), k + ": noise variance")
            p = np.concatenate(ph)
            # a random sign leaves the phase modulo pi uniform
            require(abs(np.exp(2j * p).mean()) < 6 / math.sqrt(p.size), k + ": phases not uniform")
            require(abs(np.exp(1j * p).mean()) < 6 / math.sqrt(p.size), k + ": phases not uniform")
            require(p.size < 3 or np.abs(np.sin(p - p[0])).max() > 1e-6, k + ": phases constant")
        else:
            gauss_ok(z, k)
        sq = (case["d"], D, D + 1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = fn(sq)
        require(tuple(t.shape) == sq, k + " non-square shape")
        rejects_v(lambda: fn((2, case["d"], D, D + 1)), k + ": batch of non-square slices")
        zero = fn(shape, is_complex=case["cplx"], **({"noise": 0.0} if k == "near_eye" else {"rel_std": 0.0}))
        close(zero, det, k + " without noise")
    elif k == "initvec":
        D = case["D"]
        fill = None if case["fill"] < 0 else case["fill"]
        if fill is not None and fill > D:
            rejects_v(lambda: mt.InitialVector(D, fill_dim=fill), "fill_dim larger than the bond")
            return
        m = mt.InitialVector(D, fill_dim=fill, fixed_vec=case["fix"], is_left_vec=case["bias"])
        w = np.ones(D)
        if fill is not None:
            w[fill:] = 0
        close(m.vec, w, "initial vector")
        require(len(list(m.parameters())) == (0 if case["fix"] else 1), "trainability of the initial vector")
        require(m.vec.requires_grad == (not case["fix"]), "trainability of the initial vector")
        M("contractables").Contractable.global_bs = 3
        v = m()
        close(v.tensor, np.broadcast_to(w, (3, D)), "initial vector as a contractable")
        require(v.bond_str == ("br" if case["bias"] else "bl"), "side of the initial vector")
    elif k == "terminal":
        D, o = case["D"], case["o"]
        if case["fix"] and o > D:
            rejects_v(lambda: mt.TerminalOutput(D, o, fixed_mat=True), "fixed terminal matrix with output_dim > bond_dim")
            return
        ms = [mt.TerminalOutput(D, o, fixed_mat=case["fix"], is_left_mat=case["bias"]) for _ in range(1 if case["fix"] else 1 + 500 // (D * o))]
        m = ms[0]
        require(tuple(m.mat.shape) == (D, o), "terminal matrix shape")
        require(m.mat.requires_grad == (not case["fix"]) and len(list(m.parameters())) == (0 if case["fix"] else 1),
                "trainability of the terminal matrix")
        if case["fix"]:
            close(m.mat, np.eye(D, o), "fixed terminal matrix")
        else:
            gauss_ok(np.concatenate([((N(x.mat) - np.eye(D, o)) * D).ravel() for x in ms]), "terminal matrix")
        M("contractables").Contractable.global_bs = 3
        v = m()
        require(v.bond_str == ("bro" if case["bias"] else "blo"), "side of the terminal matrix")
        close(v.tensor, np.broadcast_to(N(m.mat), (3, D, o)), "terminal matrix as a contractable")
    else:
        D, d, o = case["D"], case["d"], case["o"]
        n = 3
        if case["uniform"]:
            m = pm.ProbUnifMPS(d, D, complex_params=case["cplx"], use_bias=case["bias"])
            shp = (d, D, D)
        else:
            m = pm.ProbMPS(n, d, D, complex_params=case["cplx"], use_bias=case["bias"])
            shp = (n, d, D, D)
        require(tuple(m.core_tensors.shape) == shp, "core shape of a fresh model")
        require(m.core_tensors.is_complex() == case["cplx"] and m.edge_vecs.is_complex() == case["cplx"], "complex parameters")
        z = np.abs(N(m.core_tensors) - np.eye(D)) * D / 1e-3
        require(z.max() < 10 and z.max() > (1e-3 if z.size > 3 else 1e-8), "fresh model cores are not near the identity")
        require(tuple(m.edge_vecs.shape) == (2, D), "edge vector shape")
        ev = np.abs(N(m.edge_vecs))
        close(ev[0], ev[1], "magnitudes of the boundary vectors of a fresh model")
        if not case["cplx"]:
            close(m.edge_vecs[0], N(m.edge_vecs[1]), "boundary vectors of a fresh model")
        require(m.core_tensors.requires_grad and m.edge_vecs.requires_grad, "trainability")
        require(len(list(m.parameters())) == 2 + case["bias"], "number of parameters")
        if case["bias"]:
            close(N(m.bias_mat), np.zeros((D, D)), "fresh bias")
            require(m.bias_mat.is_complex() == case["cplx"] and m.bias_mat.requires_grad, "bias parameter")
        require(m.bond_dim == D and m.input_dim == d and m.use_bias == case["bias"], "model attributes")
        # supervised
        lab = int(rng.randint(0, n + 1))
        m = mt.MPS(n, o, D, feature_dim=2, label_site=lab, use_bias=case["bias"], init_std=1e-9,
                   adaptive_mode=case["adaptive"])
        if not case["adaptive"]:
            from orc_mps import mps_params
            cores, biases, out = mps_params(m, n, lab)
            require(all(c.shape == (D, D, 2) and np.abs(c).max() < 1e-7 for c in cores), "fresh MPS cores")
            require(out.shape == (o, D, D) and np.abs(out - np.eye(D)).max() < 1e-7, "fresh MPS output core")
            if case["bias"]:
                close(np.array(biases), np.broadcast_to(np.eye(D), (n, D, D)), "fresh MPS biases")
            require(all(p.requires_grad for p in m.parameters()), "trainability")
            names = [nm for nm, p in m.named_parameters() if p.numel()]
            regions = (lab > 0) + (lab < n)
            require(len(names) == 1 + regions * (1 + case["bias"]), "parameters of a fresh MPS: %s" % names)
            mm = mt.MPS(7, 2, 2)
            require(mm.label_site == 3, "default label site")
        fo = min(o, D)
        m = mt.TI_MPS(fo if case["fix"] else o, D, feature_dim=d, fixed_ends=case["fix"], use_bias=case["bias"],
                      fixed_bias=case["fixed_bias"])
        require(tuple(m.core_tensor.shape) == (D, D, d) and np.abs(N(m.core_tensor)).max() < 1e-7, "fresh TI_MPS core")
        want = 1 + (0 if case["fix"] else 2) + (1 if case["bias"] and not case["fixed_bias"] else 0)
        require(len(list(m.parameters())) == want, "parameters of a fresh TI_MPS")
        if case["bias"]:
            require(np.abs(N(m.bias_mat) - np.eye(D)).max() < (1e-12 if case["fixed_bias"] else 1e-7), "fresh TI_MPS bias")


def rejects_v(fn, what):
    try:
        fn()
    except (AssertionError, ValueError, RuntimeError):
        return
    raise Violation(what + " was not rejected")


CASES["C17"] = c17_cases
RUN["C17"] = run_c17


# --------------------------------------------------------------------------
# C18
# --------------------------------------------------------------------------
def c18_cases(seed):
    rng = np.random.RandomState(seed)
    for L in range(2, 11):
        yield dict(kind="hv", L=L, seed=L)
    i = 0
    while True:
        i += 1
        yield dict(kind=["onehot", "shuffle"][i % 2], n=int(rng.randint(0, 30) if rng.randint(8) else rng.randint(30, 3000)), K=int(rng.randint(1, 8) if rng.randint(8) else rng.randint(8, 400)),
                   tens=bool(rng.randint(2)), nd=int(rng.randint(3)), ld=int(rng.randint(2)), seed=int(rng.randint(10 ** 6)))


def run_c18(case):
    rng = rng_of(case)
    u = M("utils")
    if case["kind"] == "onehot":
        lab = rng.randint(case["K"], size=case["n"])
        arg = torch.tensor(lab) if case["tens"] else [int(x) for x in lab]
        close(u.onehot(arg, case["K"]), np.eye(case["K"])[lab].reshape(case["n"], case["K"]), "onehot")
    elif case["kind"] == "shuffle":
        n = max(case["n"], 1)
        x = np.arange(n * 2 ** case["nd"], dtype=float).reshape([n] + [2] * case["nd"])
        y = np.arange(n) if case["ld"] == 0 else np.stack([np.arange(n)] * 3, 1)
        seed0 = rng.randint(1000)
        np.random.seed(seed0)
        a, b = u.joint_shuffle(T(x), torch.tensor(y))
        a, b = N(a), N(b)
        p = b if b.ndim == 1 else b[:, 0]
        require(sorted(p.tolist()) == list(range(n)), "shuffled labels are not a permutation")
        close(a, x[p], "shuffled data do not follow the labels")
        if b.ndim == 2:
            require((b == b[:, :1]).all(), "label rows were broken up")
    else:
        L = case["L"]
        tr, trl, te, tel = u.load_HV_data(L)
        tr, trl, te, tel = map(N, (tr, trl, te, tel))
        total = 4 * (2 ** (L - 1) - 1)
        require(tr.shape == (total - total // 4, L, L) and te.shape == (total // 4, L, L), "sizes of the stripe data sets")
        require(trl.shape == (len(tr),) and tel.shape == (len(te),), "sizes of the stripe labels")
        seen = set()
        for im, l in list(zip(tr, trl)) + list(zip(te, tel)):
            pat = tuple(im[:, 0].astype(int)) if l == 0 else tuple(im[0].astype(int))
            want = np.tile(np.array(pat, float)[:, None], (1, L)) if l == 0 else np.tile(np.array(pat, float)[None], (L, 1))
            require(l in (0, 1) and (im == want).all(), "stripe image does not have the orientation of its label")
            require(0 < sum(pat) < L and set(pat) <= {0, 1}, "trivial stripe pattern")
            require((int(l), pat) not in seen, "stripe pattern repeated")
            seen.add((int(l), pat))
        require(len(seen) == total == 2 * (2 ** L - 2), "stripe patterns missing")


CASES["C18"] = c18_cases
RUN["C18"] = run_c18


# --------------------------------------------------------------------------
# C19 differentiability
# --------------------------------------------------------------------------
def c19_cases(seed):
    rng = np.random.RandomState(seed)
    import orc_prob
    from orc_mps import ti_cases
    a = mps_cases(seed)
    b = orc_prob.prob_cases(seed)
    c = ti_cases(seed)
    d = ad_cases(seed)
    while True:
        yield dict(next(a), kind="mps")
        yield dict(next(b), kind="prob", vecin=bool(rng.randint(2)))
        yield dict(next(c), kind="ti")
        yield dict(next(d), kind="ad")


def grad_check(m, fn, params, rng, what, tol=1e-4):
    """analytic gradients exist and agree with a finite difference"""
    out = fn()
    require(out.requires_grad, what + ": output is not differentiable")
    w = torch.randn_like(out.detach())
    loss = (out * w).sum()
    mag = float((out * w).abs().sum())       # size of the terms, for the rounding of the difference quotient
    for p in m.parameters():
        p.grad = None
    gs = torch.autograd.grad(loss, params, allow_unused=True)
    for p, g in zip(params, gs):
        require(g is not None, what + ": a participating parameter of shape %s has no gradient" % (tuple(p.shape),))
        require(bool(torch.isfinite(g.abs()).all()), what + ": gradient is not finite")
    dirs = [torch.randn_like(p) for p in params]
    def quotient(p, dv, eps):
        with torch.no_grad():
            p0 = p.detach().clone()
            p.copy_(p0 + eps * dv)
            up = (fn() * w).sum()
            p.copy_(p0 - eps * dv)
            dn = (fn() * w).sum()
            p.copy_(p0)
        return float((up - dn) / (2 * eps))
    for i, (p, dv) in enumerate(zip(params, dirs)):
        fd = quotient(p, dv, 1e-6)
        g = gs[i]
        an = float((g.conj() * dv).real.sum()) if g.is_complex() else float((g * dv).sum())
        sc = lambda q: 1e-3 * max(1.0, abs(an), abs(q), mag)
        if abs(fd - an) < sc(fd):
            continue
        # the difference quotient has to have converged (zero inputs of long products have huge higher derivatives)
        f2 = quotient(p, dv, 1e-7)
        if abs(f2 - an) < sc(f2) or abs(f2 - fd) > 0.05 * max(abs(fd), abs(f2)):
            continue
        require(False, what + ": derivative %g, finite difference %g (shape %s)" % (an, fd, tuple(p.shape)))


def run_c19(case):
    rng = rng_of(case)
    from orc_mps import build_mps, build_ti
    k = case["kind"]
    if k == "mps":
        case = dict(case, n=min(case["n"], 6))
        case["label"] = min(case["label"], case["n"])
        m = build_mps(case, rng, **{}) if case["vec"] else build_mps(dict(case, f=2), rng)
        f = case["f"] if case["vec"] else 2
        X = (torch.randn(case["bs"], case["n"], f) if case["vec"] else torch.rand(case["bs"], case["n"])).requires_grad_(True)
        params = [p for p in m.parameters() if p.numel()] + [X]
        grad_check(m, lambda: m(X), params, rng, "MPS")
        require(all(p.requires_grad for p in m.parameters()), "untrainable parameter")
    elif k == "ti":
        m, x = build_ti(case, rng)
        if case.get("reject"):
            return
        if isinstance(x, list):
            x = [s.requires_grad_(True) for s in x]
            params = list(m.parameters()) + x
        else:
            x = x.requires_grad_(True)
            params = list(m.parameters()) + [x]
        names = dict(m.named_parameters())
        require(("init_vector.vec" in names) == (not case["fixed_ends"]) and
                ("terminal_mat.mat" in names) == (not case["fixed_ends"]) and
                ("bias_mat" in names) == (case["bias"] and not case["fixed_bias"]), "fixed tensors among the parameters")
        grad_check(m, lambda: m(x), params, rng, "TI_MPS")
    elif k == "ad":
        from orc_misc import build_ad
        case = dict(case, thr=10 ** 9)
        m, cores, out = build_ad(case, rng)
        havoc(m, rng)
        X = torch.randn(case["bs"], case["n"], case["f"]).requires_grad_(True)
        act = list({id(p): p for p in m.linear_region.module_list.parameters()}.values())
        own = [id(p) for p in m.parameters()]
        require(all(id(p) in own for p in act), "active tensors are not parameters")
        grad_check(m, lambda: m(X), act + [X], rng, "adaptive MPS")
    else:
        import orc_prob as op
        case = dict(case, nil=False, sparse=False, scale=1.0)
        m, core, vecs, B, table = op.build_prob(case, rng)
        ok, lz = op._nonzero(case, core, vecs, B, table)
        if not ok:
            return
        F = op.alphabet_feats(case, table)
        for _ in range(20):
            idx = rng.randint(len(F), size=(2, case["n"]))
            amps = [abs(op.amplitude(case, core, vecs, B, [F[i] for i in s])) for s in idx]
            if min(amps) > 1e-3 * np.exp(lz / 2):
                break
        else:
            return
        kw = op.MODES[case["mode"]]
        params = [p for p in m.parameters()]
        if table is None and case["vecin"]:
            X = torch.randn(2, case["n"], case["d"]).requires_grad_(True)
            am = [abs(op.amplitude(case, core, vecs, B, list(f))) for f in N(X)]
            if min(am) < 1e-2 * np.exp(lz / 2):
                return
            grad_check(m, lambda: m(X, **kw), params + [X], rng, "probabilistic model (vectors)")
        else:
            grad_check(m, lambda: m(torch.tensor(idx), **kw), params, rng, "probabilistic model")
        m.zero_grad()
        m.loss(torch.tensor(idx), **kw).backward()
        for p in params:
            require(p.grad is not None, "loss has no gradient for a parameter")


CASES["C19"] = c19_cases
RUN["C19"] = run_c19
