"""Data utilities (C18)."""
import itertools as it
from .spec import *
from tvc.terms import walk_atoms

AS = ("numpy.random.shuffle / permutation apply one permutation per generator state and length, whatever the array",)
U = "torchmps.utils."


def permuted(name, g, i, n):
    """obligation: g(i) is a permutation of 0..n-1 (composition of numpy permutations)"""
    x = I(g)
    while x.key != I(i).key:
        a = single_app(x)
        if a is None or not a.args[0].startswith("perm") or I(a.args[1]).key != I(n).key:
            return true(name, False, "position %s is not a permutation of %s" % (I(g).key, I(i).key))
        x = I(a.args[2])
    return true(name, True)


def single_app(x):
    l = list(x.apps)
    top = [a for a in l if I_of(a).key == x.key]
    return top[0] if top else None


def I_of(a):
    return iapp(a.args[0], *a.args[1:])


def _onehot(kind):
    def f(w):
        ut = w.module("torchmps.utils")
        n, K = dim(0), dim()
        lab = indices("y", [n], K)
        out = ut.onehot(lab, K)
        if muted():
            return
        if decide(le(I(as_ip(n)), 0)):
            return shape("no rows", out, [0, K])
        tensor_is("one-hot rows", out, [n, K], lambda i, k: ind(eq(lab.el(i), k)))
    return f


unit("C18", "onehot[tensor]", (U + "onehot",))(_onehot("tensor"))


@unit("C18", "onehot[list of integers]", (U + "onehot",))
def _onehot_list(w):
    from tvc.seqs import Run
    ut = w.module("torchmps.utils")
    n, K = dim(0), dim()
    N, k = I(as_ip(n)), I(as_ip(K))
    C.APPAX["lab"] = lambda i: [le(0, iapp("lab", i)), lt(iapp("lab", i), k)]
    seq = VList(SSeq([Run(N, lambda i: mk_int(iapp("lab", I(i))))]))
    out = ut.onehot(seq, K)
    if muted():
        return
    if decide(le(N, 0)):
        return shape("no rows", out, [0, K])
    tensor_is("one-hot rows", out, [n, K], lambda i, q: ind(eq(iapp("lab", I(i)), q)))


def _shuffle(rd, rl, intl):
    def f(w):
        ut = w.module("torchmps.utils")
        n = dim(1)
        N = I(as_ip(n))
        ds = [dim() for _ in range(rd)]
        es = [dim() for _ in range(rl)]
        data = sym("X", n, *ds)
        lab = indices("Y", [n] + es, dim()) if intl else sym("Y", n, *es)
        i = idx(n)
        dix, lix = [idx(x) for x in ds], [idx(x) for x in es]
        lab0 = Tensor.make(lab.dims, lab._dtype, (lambda f0: lambda *ix: f0(*ix))(lab.clone().el))
        dsym = Sym("X")
        a, b = ut.joint_shuffle(data, lab)
        if muted():
            return
        if not (shape("data shape", a, [n] + ds) and shape("label shape", b, [n] + es)):
            return
        p = a.pel(i, *dix)
        at = [x for x in walk_atoms(p).values() if x.kind == "A" and x.args[0] is dsym]
        if len(at) != 1:
            raise Unsupported("shuffled entry " + p.key[:200])
        g = I(at[0].args[1][0])
        permuted("rows are permuted", g, i, N)
        equal("data rows stay intact", p, entry(dsym, [g] + dix))
        equal("labels follow their data", b.pel(i, *lix), lab0.pel(g, *lix))
    return f


for _rd in (0, 1, 2, 3):
    for _rl, _i in ((0, True), (0, False), (1, False)):
        unit("C18", "joint_shuffle[data rank %d, %s labels]" % (_rd + 1, "integer" if _i else "real" if not _rl else "vector"), (U + "joint_shuffle",), assumes=AS)(_shuffle(_rd, _rl, _i))


def _hv(L):
    def f(w):
        ut = w.module("torchmps.utils")
        out = ut.load_HV_data(L)
        if muted():
            return
        n = 4 * (2 ** (L - 1) - 1)
        if not true("four data sets", isinstance(out, tuple) and len(out) == 4, type(out)):
            return
        tr, trl, te, tel = out
        q = n // 4
        ok = [shape("training images", tr, [n - q, L, L]), shape("training labels", trl, [n - q]),
              shape("test images", te, [q, L, L]), shape("test labels", tel, [q])]
        if not all(ok):
            return
        # every image and its label are taken from one row of the generated set, the row being a permutation of the position
        apps, off = set(), {}
        for nm, ims, lbs in (("training", tr, trl), ("test", te, tel)):
            if not decide(le(1, I(as_ip(mk_int(ims.dims[0]))))):
                continue
            i = ivar(C.fresh(0, ims.dims[0]))
            mine = p_apps(lbs.pel(i))
            for r in range(L):
                for c in range(L):
                    mine |= p_apps(ims.pel(i, I(r), I(c)))
            mine = [x for x in mine if x.args[0].startswith("perm")]
            if not true(nm + ": one permutation for images and labels", len({x.key for x in mine}) == 1, [x.key for x in mine]):
                return
            apps.add((mine[0].args[0], I(mine[0].args[1]).key))
            off[nm] = (I(mine[0].args[2]) - i).const()
            if not true(nm + ": contiguous part of the shuffled rows", off[nm] is not None, mine[0].key):
                return
        if n == 0:
            return
        true("same permutation in both sets", len(apps) == 1 and all(k == I(n).key for _, k in apps), apps)
        true("the two sets are disjoint and complete", off in ({"training": q, "test": 0}, {"training": 0, "test": n - q}), off)
        perm, = {x for x, _ in apps}
        for trial in range(2):
            pi = list(range(n))
            random.Random(trial).shuffle(pi) if trial else None
            env = NumEnv({}, seed=trial)
            env.appf[perm] = lambda _, v: pi[v]
            seen = set()
            for ims, lbs, m in ((tr, trl, n - q), (te, tel, q)):
                for r in range(m):
                    im = [[_num(ims.pel(I(r), I(y), I(x)), env) for x in range(L)] for y in range(L)]
                    lb = _num(lbs.pel(I(r)), env)
                    pat = tuple(row[0] for row in im) if lb == 0 else tuple(im[0])
                    want = [[pat[y] if lb == 0 else pat[x] for x in range(L)] for y in range(L)]
                    true("label gives the orientation of the stripe", lb in (0, 1) and im == want, (lb, im))
                    true("non-trivial stripe pattern", set(pat) == {0, 1}, pat)
                    true("stripe pattern occurs once", (lb, pat) not in seen, (lb, pat))
                    seen.add((lb, pat))
            true("all stripe patterns", len(seen) == 2 * (2 ** L - 2), len(seen))
        true("training labels", trl.dtype.kind == "i" and tel.dtype.kind == "i", trl.dtype)
    return f


def _num(p, env):
    v = eval_poly(P(p), env)
    v = v.real if isinstance(v, complex) else v
    return int(v) if v == int(v) else v


def p_apps(p):
    out = set()
    for a in walk_atoms(p).values():
        for x in a.args:
            if hasattr(x, "apps"):
                out |= set(x.apps)
            elif isinstance(x, tuple):
                for y in x:
                    if hasattr(y, "apps"):
                        out |= set(y.apps)
    return out


for _L in (1, 2, 3, 4):
    unit("C18", "stripes[length %d]" % _L, (U + "load_HV_data",), assumes=AS, bounded="image length 1..4")(_hv(_L))


# ------------------------------------------------------------------ any length
@unit("C18", "stripes[any length >= 2]", (U + "load_HV_data",), assumes=AS + ("str.format / format with '0<n>b' gives the n binary digits of i, most significant first, for 0 <= i < 2**n",))
def _hv_any(w):
    ut = w.module("torchmps.utils")
    m = I(as_ip(dim(1)))
    L = m + 1
    pw = I(as_ip(2 ** mk_int(m)))          # 2 ** (L - 1)
    out = ut.load_HV_data(mk_int(L))
    if muted():
        return
    if not true("four data sets", isinstance(out, tuple) and len(out) == 4, type(out)):
        return
    tr, trl, te, tel = out
    q = pw - 1
    if not all([shape("training images", tr, [q * 3, L, L]), shape("training labels", trl, [q * 3]), shape("test images", te, [q, L, L]), shape("test labels", tel, [q])]):
        return
    true("integer labels", trl.dtype.kind == "i" and tel.dtype.kind == "i", trl.dtype)
    off = {}
    rows = I(4) * q
    for nm, ims, lbs in (("training", tr, trl), ("test", te, tel)):
        i = ivar(C.fresh(0, ims.dims[0]))
        r, c = idx(L), idx(L)
        im, lb = ims.pel(i, r, c), lbs.pel(i)
        apps = sorted({x for x in p_apps(im) | p_apps(lb) if x.args[0].startswith("perm")}, key=lambda x: x.key)
        if not true(nm + ": images and labels are taken from the same row of a permutation", len({x.key for x in apps}) == 1, [x.key for x in apps]):
            return
        a = apps[0]
        g = I_of(a)
        off[nm] = I(a.args[2]) - i
        true(nm + ": permutation of all rows", I(a.args[1]) == rows, a.key)
        true(nm + ": fixed part of the permutation", not (off[nm].fv & i.fv), a.key)
        # rows 2h-2, 2h-1 of the generated set (1 <= h <= 2^L-2): pattern h, horizontal and vertical
        dig = lambda h, x: h // I(as_ip(2 ** mk_int(m - x))) % 2
        equal(nm + ": label", lb, iite(eq(g % 2, 0), I(0), I(1)))
        equal(nm + ": stripe", im, iite(eq(g % 2, 0), dig((g + 2) // 2, r), dig((g + 1) // 2, c)))
    x, y = off["training"], off["test"]
    true("the two sets are disjoint and complete", (x == q and y == I(0)) or (x == I(0) and y == q * 3), (x.key, y.key))
