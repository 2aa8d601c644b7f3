"""Broadcasting and bundling utilities (C06)."""
import itertools as it
from .spec import *

BB = ("torchmps.utils2.batch_broadcast", "torchmps.utils2.shape_broadcast", "torchmps.utils2.batch_to", "torchmps.utils2.bundle_tensors")


def compatible(ds):
    """condition under which the sizes of one axis broadcast, and the broadcast size given the path condition"""
    return band(*[bor(eq(a, 1), eq(b, 1), eq(a, b)) for a, b in it.combinations(ds, 2)])


def axes(shapes):
    """right-aligned axes: list (from the right) of [(tensor, size)]"""
    r = max([len(s) for s in shapes], default=0)
    return [[(k, s[-q]) for k, s in enumerate(shapes) if len(s) >= q] for q in range(1, r + 1)]


def bcast_ok(shapes):
    return band(*[compatible([d for _, d in ax]) for ax in axes(shapes)])


def check_entries(name, outs, tens, shapes, nbs):
    """every output is the corresponding tensor replicated to the broadcast batch shape"""
    ax = axes(shapes)
    r = len(ax)
    # the size of each axis: one of the sizes that is not 1, or 1
    size = []
    for a in ax:
        s = a[0][1]
        for _, d in a[1:]:
            if decide(eq(s, 1)):
                s = d
        size.append(s)
    size = size[::-1]
    true(name + ".count", isinstance(outs, (tuple, list)) and len(outs) == len(tens), "one output per tensor")
    for k, (o, t) in enumerate(zip(outs, tens)):
        nb = list(t.dims[len(t.dims) - nbs[k]:])
        want = [mk_int(x) for x in size + nb]
        if not shape("%s.shape %d" % (name, k), o, want):
            continue
        ix = [idx(x) for x in want]
        own = shapes[k]
        bi = ix[r - len(own):r]
        bi = [I(0) if decide(eq(d, 1)) else i for d, i in zip(own, bi)]
        equal("%s.entries %d" % (name, k), o.pel(*ix), t.pel(*bi, *ix[r:]))


def _bb(ranks, nbs):
    def f(w):
        u2 = w.module("torchmps.utils2")
        tens = [sym("T%d" % k, *[dim(0) for _ in range(r + n)]) for k, (r, n) in enumerate(zip(ranks, nbs))]
        shapes = [list(t.dims[:r]) for t, r in zip(tens, ranks)]
        try:
            outs = u2.batch_broadcast(tens, list(nbs))
        except ValueError:
            if not muted():
                holds("raises only for incompatible shapes", bnot(bcast_ok(shapes)))
            return
        if muted():
            return
        if len(tens) > 1:
            holds("incompatible shapes are rejected", bcast_ok(shapes))
        check_entries("broadcast", outs, tens, shapes, nbs)
    return f


PAT = [(), (0,), (1,), (2,), (3,)] + list(it.product(range(5), repeat=2)) + list(it.product(range(3), repeat=3)) + [
    (1, 1, 1, 1), (2, 0, 1, 2), (1, 2, 2, 1), (3, 1, 2), (3, 3, 1), (1, 0, 1, 1, 1), (1, 1, 1, 1, 1)]
for _r in PAT:
    unit("C06", "batch_broadcast[ranks %s]" % ",".join(map(str, _r)), BB, bounded="number of tensors and of batch axes as listed; all sizes arbitrary")(
        _bb(_r, tuple((k + 1) % 3 for k in range(len(_r)))))


def _bt(r, br, nb):
    def f(w):
        u2 = w.module("torchmps.utils2")
        t = sym("T", *[dim(0) for _ in range(r + nb)])
        bs = [dim(0) for _ in range(br)]
        shapes = [list(t.dims[:r]), [I(as_ip(x)) for x in bs]]
        try:
            o = u2.batch_to(t, tuple(bs), nb)
        except ValueError:
            if not muted():
                holds("raises only for incompatible shapes", bnot(bcast_ok(shapes)))
            return
        if muted():
            return
        holds("incompatible shapes are rejected", bcast_ok(shapes))
        _one(o, t, shapes, nb)
    return f


def _one(o, t, shapes, nb):
    dummy = Tensor.make(shapes[1], F32, lambda *i: ZERO)
    ref = Tensor.make(list(o.dims[:len(o.dims) - nb]), F32, lambda *i: ZERO)
    check_entries("batch_to", [o, ref], [t, dummy], shapes, [nb, 0])


for _r in range(4):
    for _q in range(4):
        unit("C06", "batch_to[rank %d to %d]" % (_r, _q), BB, bounded="number of batch axes as listed; all sizes arbitrary")(_bt(_r, _q, 1))


def _bundle(rank, dimn, same):
    def f(w):
        from tvc.seqs import Run
        u2 = w.module("torchmps.utils2")
        L = dim()
        n = I(as_ip(L))
        M = Sym("M")
        if same:
            ds = [I(as_ip(dim(0))) for _ in range(rank)]
            dd = lambda k: ds
        else:
            C.APPAX["dm"] = lambda a: [le(0, iapp("dm", a))]
            ds = [I(as_ip(dim(0))) for _ in range(rank - 1)]
            dd = lambda k: [iapp("dm", I(k))] + ds
            p = ivar(C.fresh(0, n))
            C.add_fact(bnot(eq(iapp("dm", p), iapp("dm", I(0)))))
        mk = lambda k: Tensor.make(dd(k), F32, lambda *i: entry(M, (k,) + tuple(i)))
        seq = VList(SSeq([Run(n, mk)]))
        out = u2.bundle_tensors(seq, dimn)
        if muted():
            return
        if not same:
            true("returned unchanged", out is seq, "inhomogeneous collections are returned unchanged")
            return
        q = dimn if dimn >= 0 else rank + 1 + dimn
        want = [mk_int(x) for x in ds]
        want.insert(q, L)
        tensor_is("stacked", out, want, lambda *i: entry(M, (i[q],) + i[:q] + i[q + 1:]))
    return f


for _r in (0, 1, 2, 3):
    for _d in sorted({0, _r, -1}):
        unit("C06", "bundle[rank %d axis %d]" % (_r, _d), BB)(_bundle(_r, _d, True))
for _r in (1, 2):
    unit("C06", "bundle[different shapes, rank %d]" % _r, BB)(_bundle(_r, 0, False))


@unit("C06", "bundle[tensor or empty]", BB)
def _bundle_misc(w):
    u2 = w.module("torchmps.utils2")
    t = sym("T", dim(), dim())
    true("tensors are returned unchanged", u2.bundle_tensors(t) is t)
    e = []
    true("empty collections are returned unchanged", u2.bundle_tensors(e) is e)
