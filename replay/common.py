"""Shared helpers of the runtime cross-checks (run with the repository's own
interpreter, against /repo's working tree).  Oracles are plain numpy and share
no code with the repository."""
import sys, types, math, itertools, warnings
warnings.filterwarnings("ignore")
import numpy as np

# scipy is imported lazily by torchmps.embeddings.trig_embed and is not
# installed in every environment; only scipy.special.binom is used.
try:
    import scipy.special  # noqa
except Exception:
    _sp = types.ModuleType("scipy")
    _sps = types.ModuleType("scipy.special")
    _sps.binom = lambda n, k: float(math.comb(int(n), int(k)))
    _sp.special = _sps
    sys.modules["scipy"] = _sp
    sys.modules["scipy.special"] = _sps

import torch
torch.set_num_threads(2)


class Violation(Exception):
    pass


def rng_of(case):
    return np.random.RandomState(case.get("seed", 0) % (2 ** 31))


def rt(rng, *shape, cplx=False, scale=1.0):
    x = rng.randn(*shape) * scale
    if cplx:
        x = x + 1j * rng.randn(*shape) * scale
    return np.asarray(x)


def T(x):
    x = np.array(x)
    return torch.from_numpy(x.copy()) if x.ndim else torch.tensor(x.item())


def N(t):
    return t.detach().resolve_conj().numpy() if isinstance(t, torch.Tensor) else np.asarray(t)


def close(got, want, what, tol=1e-7):
    got, want = N(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if got.size == 0:
        return
    bad_nan = np.isnan(got).any() and not np.isnan(want).any()
    if bad_nan:
        raise Violation("%s: nan, expected %s" % (what, short(want)))
    with np.errstate(all="ignore"):
        inf = np.isinf(want) | np.isinf(got)
        if inf.any():
            if not (np.where(inf, got, 0) == np.where(inf, want, 0)).all():
                raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))
            got = np.where(inf, 0, got)
            want = np.where(inf, 0, want)
        err = np.abs(got - want)
        scale = 1.0 + np.abs(want).max()
    if not (err <= tol * scale).all():
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))


def short(x):
    s = np.array2string(np.asarray(x), precision=5, threshold=12, edgeitems=3).replace("\n", " ")
    return s[:200]


def require(cond, what):
    if not cond:
        raise Violation(what)


def reset_state():
    """Forget everything evaluated earlier in the process."""
    from torchmps.contractables import Contractable
    Contractable.global_bs = None


def past(m, rng, calls):
    """Put a model through an arbitrary history that ends in the same parameter
    values: other modes, other parameter values, other inputs."""
    k = rng.randint(4)
    if k == 0:
        return
    keep = [(p, p.detach().clone()) for p in m.parameters()]
    for _ in range(rng.randint(1, 3)):
        m.train(bool(rng.randint(2)))
        if rng.randint(2):
            with torch.no_grad():
                for p, v in keep:
                    p.copy_(v * float(rng.uniform(0.5, 2)))
        f = calls[rng.randint(len(calls))]
        with torch.set_grad_enabled(bool(rng.randint(2))):
            f()
    m.train(k == 1)
    with torch.no_grad():
        way = rng.randint(3)
        if way == 0:
            for p, v in keep:
                p.copy_(v)
        elif way == 1:
            for p, v in keep:
                p.data = v.clone()
        else:
            names = {id(p): n for n, p in m.named_parameters(remove_duplicate=False)}
            sd = m.state_dict()
            for n, p in m.named_parameters(remove_duplicate=False):
                for q, v in keep:
                    if q is p:
                        sd[n] = v.clone()
            m.load_state_dict(sd)


def pick(rng, xs):
    return xs[rng.randint(len(xs))]
