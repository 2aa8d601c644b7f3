"""Sequences whose length may be symbolic."""
from .ints import *
from .terms import Poly
from .values import *
from . import ctx as C


class Run:
    """n items gen(i), 0 <= i < n (n symbolic or simply not expanded)"""
    __slots__ = ("n", "gen", "cache")

    def __init__(self, n, gen):
        self.n, self.gen, self.cache = n, gen, {}

    def at(self, i):
        i = I(i)
        v = self.cache.get(i.key)
        if v is None:
            v = self.gen(i)
            self.cache[i.key] = v
        return v

    def sub(self, off, n):
        return Run(n, lambda i: self.at(i + off))

    def rev(self):
        return Run(self.n, lambda i: self.at(self.n - 1 - i))


class BRun(Run):
    """nb blocks of m items; item r of block q is gens[r](q)"""
    __slots__ = ("nb", "m", "gens")

    def __init__(self, nb, gens):
        self.nb, self.m, self.gens = I(nb), len(gens), gens
        Run.__init__(self, self.nb * self.m, self._pick)

    def _pick(self, i):
        r = (i % self.m).const()
        if r is None:
            for c in range(self.m):
                if C.entails(eq(i % self.m, c)):
                    r = c
                    break
            else:
                raise Unsupported("item of a list of blocks at an index of unknown residue")
        return self.gens[r]((i - r) // self.m)

    def block(self, q):
        return tuple(g(I(q)) for g in self.gens)

    def sub(self, off, n):
        off, n = I(off), I(n)
        if (off % self.m).const() == 0 and (n % self.m).const() == 0:
            o = off // self.m
            return BRun(n // self.m, [lambda q, g=g: g(q + o) for g in self.gens])
        return Run(n, lambda i: self.at(i + off))

    def rev(self):
        return BRun(self.nb, [lambda q, g=g: g(self.nb - 1 - q) for g in reversed(self.gens)])


def blocks(n, m, f):
    """run of n*m items, item r of block q is f(q)[r] (plain run when m == 1)"""
    if m == 1:
        return Run(n, lambda q: f(q)[0])
    return BRun(n, [lambda q, r=r: f(q)[r] for r in range(m)])


class SSeq:
    """immutable sequence: list of pieces, each ('i', value) or Run"""

    def __init__(self, pieces):
        self.p = pieces

    # ---- construction
    @staticmethod
    def map(n, f):
        n = as_ip(n)
        c = n.const()
        if c is not None:
            return SSeq([("i", f(I(k))) for k in range(c)])
        return SSeq([Run(n, f)])

    @staticmethod
    def of(x):
        if isinstance(x, SSeq):
            return x
        if isinstance(x, VList):
            return SSeq(list(x.p))
        if hasattr(x, "_vc_seq"):
            return x._vc_seq()
        if hasattr(x, "__iter__") or hasattr(x, "__getitem__"):
            return SSeq([("i", v) for v in x])
        raise TypeError("%r object is not iterable" % type(x).__name__)

    # ---- shape
    def length(self):
        r = I(0)
        for x in self.p:
            r = r + (x.n if isinstance(x, Run) else 1)
        return mk_int(r)

    _vc_len = length

    def clen(self):
        return None if any(isinstance(x, Run) for x in self.p) else len(self.p)

    def concrete(self):
        if self.clen() is None:
            q = self.settle()
            if q.clen() is None:
                raise Unsupported("sequence of symbolic length needed concretely")
            return q.concrete()
        return [x[1] for x in self.p]

    def settle(self):
        """expand runs whose length is fixed by the path condition"""
        out = []
        for x in self.p:
            if isinstance(x, Run) and x.n.const() is None:
                for c in (0, 1, 2, 3):
                    if C.entails(eq(x.n, c)):
                        out += [("i", x.at(k)) for k in range(c)]
                        break
                else:
                    out.append(x)
            elif isinstance(x, Run):
                out += [("i", x.at(k)) for k in range(x.n.const())]
            else:
                out.append(x)
        return SSeq(out)

    def segments(self):
        off = I(0)
        for x in self.p:
            if isinstance(x, Run):
                if not decide(le(1, x.n)):
                    continue
                yield off, x.n, x.at
                off = off + x.n
            else:
                v = x[1]
                yield off, I(1), (lambda i, v=v: v)
                off = off + 1

    def __iter__(self):
        return iter(self.concrete())

    def __len__(self):
        c = self.clen()
        if c is None:
            raise Unsupported("native len() of a symbolic sequence")
        return c

    def __bool__(self):
        return decide(bnot(eq(as_ip(self.length()), 0)))

    # ---- access
    def _norm(self, k):
        n = as_ip(self.length())
        if not decide(band(le(-n, k), lt(k, n))):
            raise IndexError("list index out of range")
        if not C.entails(le(0, k)):
            c = k.const()
            k = k + n if (c is not None and c < 0) or not decide(le(0, k)) else k
        return k

    def get(self, k):
        k = self._norm(as_ip(k))
        off = I(0)
        for q, x in enumerate(self.p):
            n = x.n if isinstance(x, Run) else I(1)
            if q == len(self.p) - 1 or decide(lt(k, off + n)):
                return x.at(k - off) if isinstance(x, Run) else x[1]
            off = off + n
        raise IndexError("list index out of range")

    def split_at(self, k):
        """(first k items, rest); 0 <= k <= length is known"""
        k = I(k)
        out = []
        off = I(0)
        for q, x in enumerate(self.p):
            n = x.n if isinstance(x, Run) else I(1)
            if k == off or C.entails(eq(k, off)):
                return SSeq(out), SSeq(self.p[q:])
            if C.entails(le(off + n, k)) or decide(le(off + n, k)):
                out.append(x)
                off = off + n
                continue
            # strictly inside (or equal to off)
            if not isinstance(x, Run):
                return SSeq(out), SSeq(self.p[q:])
            m = k - off
            if not decide(le(1, m)):
                return SSeq(out), SSeq(self.p[q:])
            return SSeq(out + _norm_pieces([x.sub(I(0), m)])), SSeq(_norm_pieces([x.sub(m, n - m)]) + self.p[q + 1:])
        return SSeq(out), SSeq([])

    def slice(self, s):
        step = 1 if s.step is None else as_ip(s.step).__index__()
        if step == 1:
            from .tensor import norm_slice
            st, n, _ = norm_slice(s, as_ip(self.length()))
            a, b = self.split_at(st)
            c, d = b.split_at(n)
            return c
        if step == -1 and s.start is None and s.stop is None:
            return SSeq([x.rev() if isinstance(x, Run) else x for x in reversed(self.p)])
        if self.clen() is not None:
            return SSeq(self.p[slice(*[None if z is None else as_ip(z).__index__() for z in (s.start, s.stop, s.step)])])
        if step > 1:
            from .tensor import norm_slice
            st, n, _ = norm_slice(s, as_ip(self.length()))
            return SSeq.map(n, lambda i: self.get(st + i * step))
        raise Unsupported("slice of a symbolic sequence")

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.slice(k)
        return self.get(k)

    def __add__(self, o):
        return SSeq(self.p + SSeq.of(o).p)

    def __radd__(self, o):
        return SSeq(SSeq.of(o).p + self.p)

    def __mul__(self, k):
        if isinstance(k, SInt):
            return seq_repeat(self, k)
        return SSeq(self.p * k)

    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_seq(o):
            return False
        return seq_eq(self, SSeq.of(o))

    def __hash__(self):
        return id(self)

    def __contains__(self, v):
        for x in self.p:
            if isinstance(x, Run):
                raise Unsupported("membership in a symbolic sequence")
            if x[1] is v or x[1] == v:
                return True
        return False

    def index(self, v):
        for q, x in enumerate(self.concrete()):
            if x is v or x == v:
                return q
        raise ValueError("not in sequence")

    def as_tuple(self):
        return tuple(self.concrete()) if self.clen() is not None else self

    # ---- mapping
    def mapv(self, f):
        """apply f to every item (f is run once at a generic index for each run)"""
        out = []
        off = I(0)
        for x in self.p:
            if not isinstance(x, Run):
                out.append(("i", f(x[1])))
                off = off + 1
                continue
            if not decide(le(1, x.n)):
                continue
            if isinstance(x, BRun):
                out.append(BRun(x.nb, [SSeq([Run(x.nb, g)]).mapv(f).p[0].gen for g in x.gens]))
                off = off + x.n
                continue
            k = C.fresh(0, x.n)
            ex = X()
            ex.template.append(k)
            nf, s0 = len(ex.mutlog), ex.nstor
            try:
                v = f(x.at(ivar(k)))
            finally:
                ex.template.pop()
            if any(e[0] == "store" and (e[1].sid or 0) <= s0 for e in ex.mutlog[nf:]):
                raise Unsupported("a symbolic map writes into an existing tensor")
            freeze(v, s0)
            out.append(Run(x.n, lambda i, v=v, k=k: subst_value(v, {k: i})))
            off = off + x.n
        return SSeq(out)

    def __repr__(self):
        return "SSeq(%s)" % (", ".join("Run[%s]" % x.n.key if isinstance(x, Run) else repr(x[1]) for x in self.p))


def _norm_pieces(ps):
    out = []
    for x in ps:
        if isinstance(x, Run) and x.n.const() is not None:
            out += [("i", x.at(k)) for k in range(x.n.const())]
        else:
            out.append(x)
    return out


def seq_repeat(s, k):
    k = as_ip(k)
    if not decide(le(0, k)):
        k = I(0)
    c = s.clen()
    if c == 0:
        return SSeq([])
    if c == 1:
        v = s.concrete()[0]
        return SSeq.map(k, lambda i: v)
    raise Unsupported("repetition of a list a symbolic number of times")


def seq_eq(a, b):
    if not decide(eq(as_ip(a.length()), as_ip(b.length()))):
        return False
    for x, y in zip(a.concrete(), b.concrete()):
        if not (x is y or x == y):
            return False
    return True


def align(seqs):
    """split several sequences at common boundaries: list of (n, [gen...]); stops at the shortest"""
    ps = [list(SSeq.of(s).p) for s in seqs]
    out = []
    while all(ps):
        heads = [p[0] for p in ps]
        if all(not isinstance(h, Run) for h in heads):
            out.append((I(1), [h[1] for h in heads], False))
            for p in ps:
                p.pop(0)
            continue
        # drop empty runs
        again = False
        for p in ps:
            h = p[0]
            if isinstance(h, Run) and not decide(le(1, h.n)):
                p.pop(0)
                again = True
        if again:
            continue
        ns = [h.n if isinstance(h, Run) else I(1) for h in heads]
        m = ns[0]
        for n in ns[1:]:
            if n == m or C.entails(le(m, n)):
                continue
            if C.entails(le(n, m)) or decide(le(n, m)):
                m = n
        one = m.const() == 1
        row = []
        for p, h, n in zip(ps, heads, ns):
            if isinstance(h, Run):
                row.append(h.at(I(0)) if one else h)
                if n == m or C.entails(eq(n, m)):
                    p.pop(0)
                else:
                    p[0] = h.sub(m, n - m)
            else:
                row.append(h[1])
                p.pop(0)
        out.append((m, row, not one))
    return out


def vc_zip(*seqs):
    ps = []
    for n, row, run in align(seqs):
        if not run:
            ps.append(("i", tuple(row)))
        else:
            ps.append(_zrun(n, row))
    return SSeq(ps)


def _zrun(n, row):
    """run of the tuples of aligned runs"""
    at = lambda i: tuple(r.at(i) if isinstance(r, Run) else r for r in row)
    ms = {r.m for r in row if isinstance(r, BRun)}
    if len(ms) == 1:
        m = ms.pop()
        if (I(n) % m).const() == 0:
            return BRun(I(n) // m, [lambda q, r=r: at(q * m + r) for r in range(m)])
    return Run(n, at)


class VList:
    """mutable list"""

    def __init__(self, items=()):
        self.p = list(SSeq.of(items).p)
        self.ser = X().register(self) if X() is not None else 0

    def _seq(self):
        return SSeq(list(self.p))

    def _mut(self):
        if X() is not None:
            X().mutlog.append(("list", self, list(self.p)))
        lk = self.__dict__.get("_locked")
        if lk:
            raise Unsupported("mutation of a list inside a symbolic map")

    def _vc_len(self):
        return self._seq().length()

    def __len__(self):
        return len(self._seq())

    def __iter__(self):
        if any(isinstance(x, Run) for x in self.p):
            return iter(self._seq().concrete())
        return self._live_iter()

    def _live_iter(self):
        k = 0
        while k < len(self.p):
            x = self.p[k]
            if isinstance(x, Run):
                raise Unsupported("native iteration over a symbolic list")
            yield x[1]
            k += 1

    def __bool__(self):
        return bool(self._seq())

    def __getitem__(self, k):
        if isinstance(k, slice):
            r = VList()
            r.p = list(self._seq().slice(k).p)
            return r
        if not (is_int(k) or hasattr(k, "_as_ip") or isinstance(k, SBool) or hasattr(k, "__index__")):
            raise TypeError("list indices must be integers or slices")
        return self._seq().get(k)

    def _locate(self, k):
        s = self._seq()
        k = s._norm(as_ip(k))
        off = I(0)
        for q, x in enumerate(self.p):
            n = x.n if isinstance(x, Run) else I(1)
            if q == len(self.p) - 1 or decide(lt(k, off + n)):
                if isinstance(x, Run):
                    a, b = SSeq(self.p).split_at(k)
                    c, d = b.split_at(I(1))
                    self.p = a.p + c.p + d.p
                    return len(a.p)
                return q
            off = off + n

    def __setitem__(self, k, v):
        self._mut()
        if isinstance(k, slice):
            if k.step is not None and k.step != 1:
                c = [x[1] for x in self.p if not isinstance(x, Run)]
                if len(c) != len(self.p):
                    raise Unsupported("slice assignment")
                c[slice(*[None if z is None else as_ip(z).__index__() for z in (k.start, k.stop, k.step)])] = SSeq.of(v).concrete()
                self.p = [("i", z) for z in c]
                return
            from .tensor import norm_slice
            st, n, _ = norm_slice(k, as_ip(self._vc_len()))
            a, b = self._seq().split_at(st)
            _, d = b.split_at(n)
            self.p = a.p + SSeq.of(v).p + d.p
            return
        q = self._locate(k)
        self.p[q] = ("i", v)

    def __delitem__(self, k):
        self._mut()
        if isinstance(k, slice):
            self[k] = []
            return
        q = self._locate(k)
        del self.p[q]

    def append(self, v):
        self._mut()
        self.p.append(("i", v))

    def extend(self, o):
        self._mut()
        self.p += SSeq.of(o).p

    def insert(self, k, v):
        self._mut()
        n = as_ip(self._vc_len())
        k = as_ip(k)
        if not C.entails(le(0, k)) and not decide(le(0, k)):
            k = k + n
            if not decide(le(0, k)):
                k = I(0)
        if not decide(le(k, n)):
            k = n
        a, b = self._seq().split_at(k)
        self.p = a.p + [("i", v)] + b.p

    def pop(self, k=-1):
        self._mut()
        if not self.p:
            raise IndexError("pop from empty list")
        q = self._locate(k)
        v = self.p[q][1]
        del self.p[q]
        return v

    def remove(self, v):
        self._mut()
        for q, x in enumerate(self.p):
            if isinstance(x, Run):
                raise Unsupported("remove")
            if x[1] is v or x[1] == v:
                del self.p[q]
                return
        raise ValueError("list.remove(x): x not in list")

    def clear(self):
        self._mut()
        self.p = []

    def reverse(self):
        self._mut()
        self.p = self._seq().slice(slice(None, None, -1)).p

    def sort(self, **k):
        self._mut()
        self.p = [("i", v) for v in sorted(self._seq().concrete(), **k)]

    def copy(self):
        return VList(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return VList([copy.deepcopy(x, memo) for x in self])

    def index(self, v):
        return self._seq().index(v)

    def count(self, v):
        return sum(1 for x in self._seq().concrete() if x is v or x == v)

    def __contains__(self, v):
        return v in self._seq()

    def __add__(self, o):
        if not (isinstance(o, (VList, list))):
            raise TypeError("can only concatenate list (not %r) to list" % type(o).__name__)
        r = VList()
        r.p = self.p + SSeq.of(o).p
        return r

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        r = VList()
        r.p = SSeq.of(o).p + self.p
        return r

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        r = VList()
        if isinstance(k, SInt):
            r.p = seq_repeat(self._seq(), k).p
        else:
            r.p = self.p * as_ip(k).__index__()
        return r

    __rmul__ = __mul__
    _smul = True

    def __eq__(self, o):
        if isinstance(o, (VList, list)):
            return seq_eq(self._seq(), SSeq.of(o))
        return False

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __repr__(self):
        return "VList(%s)" % (self._seq(),)


def vc_len(x):
    f = getattr(type(x), "_vc_len", None)
    return f(x) if f is not None else len(x)


def is_seq(x):
    return isinstance(x, (list, tuple, VList, SSeq)) or type(x).__name__ == "SRange" or isinstance(x, range)


def seq_items(x):
    return SSeq.of(x).concrete()


def freeze(v, ser, seen=None):
    """the tensors created for the generic item of a family: one storage stands for all of them, so it is not written afterwards"""
    seen = set() if seen is None else seen
    if id(v) in seen or v is None or isinstance(v, (int, float, str, bool, complex)):
        return
    seen.add(id(v))
    st = getattr(v, "st", None)
    if st is not None and hasattr(st, "sid"):
        if (st.sid or 0) > ser:
            st.frozen = True
    elif isinstance(v, (tuple, list)):
        for x in v:
            freeze(x, ser, seen)
    elif isinstance(v, dict):
        for x in v.values():
            freeze(x, ser, seen)
    elif isinstance(v, (VList, SSeq)):
        for x in v.p:
            if not isinstance(x, Run):
                freeze(x[1], ser, seen)
    elif hasattr(v, "__dict__") and not callable(v) and not isinstance(v, type):
        freeze(v.__dict__, ser, seen)


def subst_value(v, mp):
    """replace integer variables in a value (heap objects other than tensors and containers are shared)"""
    if isinstance(v, SInt):
        return mk_int(v.ip.subst(mp))
    if isinstance(v, SBool):
        return mk_bool(C.simp_bc(v.bc.subst(mp)))
    if isinstance(v, SReal):
        return mk_real(v.p.subst(mp))
    if v is None or isinstance(v, (int, float, str, bool, complex)):
        return v
    if isinstance(v, IP):
        return v.subst(mp)
    if hasattr(v, "_vc_subst"):
        return v._vc_subst(mp)
    if isinstance(v, tuple):
        r = [subst_value(x, mp) for x in v]
        return type(v)(r) if type(v) is not tuple else tuple(r)
    if isinstance(v, (list,)):
        return VList([subst_value(x, mp) for x in v])
    if isinstance(v, VList):
        r = VList()
        r.p = [_subst_piece(x, mp) for x in v.p]
        return r
    if isinstance(v, SSeq):
        return SSeq([_subst_piece(x, mp) for x in v.p])
    if hasattr(v, "__dict__") and not callable(v) and not isinstance(v, type):
        # plain object: copy with substituted attributes when they mention the variables
        d = {k: subst_value(x, mp) for k, x in v.__dict__.items()}
        if all(d[k] is v.__dict__[k] for k in d):
            return v
        o = object.__new__(type(v))
        o.__dict__.update(d)
        return o
    return v


def _subst_piece(x, mp):
    if isinstance(x, BRun):
        return BRun(x.nb.subst(mp), [lambda q, g=g: subst_value(g(q), mp) for g in x.gens])
    if isinstance(x, Run):
        return Run(x.n.subst(mp), lambda i: subst_value(x.at(i), mp))
    return ("i", subst_value(x[1], mp))
