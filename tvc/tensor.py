"""Symbolic torch.Tensor."""
import itertools
from fractions import Fraction
from .ints import *
from .terms import *
from .values import *
from .seqs import VList, SSeq, Run, BRun, vc_len, is_seq, seq_items
from . import ctx as C


class DType:
    def __init__(self, name, kind, prec):
        self.name, self.kind, self.prec = name, kind, prec
        self.is_complex = kind == "c"
        self.is_floating_point = kind == "f"

    def __repr__(self):
        return "torch." + self.name

    def __deepcopy__(self, memo):
        return self


float16 = DType("float16", "f", 0)
float32 = DType("float32", "f", 1)
float64 = DType("float64", "f", 2)
complex64 = DType("complex64", "c", 1)
complex128 = DType("complex128", "c", 2)
int64 = DType("int64", "i", 3)
int32 = DType("int32", "i", 2)
uint8 = DType("uint8", "i", 0)
bool_ = DType("bool", "b", 0)
CAT = {"b": 0, "i": 1, "f": 2, "c": 3}
DEFAULT = [float32]


def cplx_of(dt):
    return complex128 if dt is float64 else complex64 if dt.kind != "c" else dt


def real_of(dt):
    return {complex64: float32, complex128: float64}.get(dt, dt)


def promote(a, b):
    if a is b:
        return a
    ka, kb = CAT[a.kind], CAT[b.kind]
    if ka == kb:
        return a if a.prec >= b.prec else b
    if ka < kb:
        a, b = b, a
    # a has higher category
    if a.kind == "c" and b.kind == "f" and b.prec > a.prec:
        return complex128
    return a


class Size(tuple):
    def numel(self):
        r = I(1)
        for x in self:
            r = r * as_ip(x)
        return mk_int(r)

    def __getitem__(self, k):
        if isinstance(k, slice):
            f = lambda z: None if z is None else int(z.__index__())
            return Size(tuple.__getitem__(self, slice(f(k.start), f(k.stop), f(k.step))))
        return tuple.__getitem__(self, k)

    def __add__(self, o):
        if isinstance(o, tuple):
            return Size(tuple.__add__(self, o))
        return NotImplemented

    def __hash__(self):
        return hash(tuple(self))


# stop-gradient mode: when SG is a list, values cut off from differentiation are
# replaced by arbitrary ones (their names are collected in SG); an output that
# does not change with them has the derivative of its remaining part
SG = None


def _sg(dtype, ix):
    SG.append("sg#%d" % len(SG))
    return entry(Sym(SG[-1], dtype.kind == "c"), [ivar(x) for x in ix])


class Storage:
    def __init__(self, ix, shape, body, kind, lin=frozenset()):
        self.ix, self.shape, self.body, self.kind = ix, shape, body, kind
        self.lin = lin
        self.name = None
        self.origin = None       # description of an input / parameter
        self.writes = 0
        self.guard = None        # name of a borrowed object that must not be written
        self.sid = None
        if X() is not None:
            self.sid = X().register(self)
        self.exported = False


def zero_of(kind):
    return {"f": ZERO, "c": ZERO, "i": I(0), "b": FALSE}[kind]


def conv(e, k1, k2):
    """convert an element between kinds"""
    if k1 == k2 or (k1 in "fc" and k2 in "fc"):
        return e
    if k2 in "fc":
        return ipoly(e) if k1 == "i" else ind(e)
    if k2 == "i":
        if k1 == "b":
            return iite(e, I(1), I(0))
        c = e.const()
        if c is not None and c == int(c):
            return I(int(c))
        ip = poly_to_ip(e)
        if ip is not None:
            return ip
        raise Unsupported("float to int conversion")
    if k2 == "b":
        if k1 == "i":
            return bnot(eq0(e))
        return bnot(mkreq(e))
    raise Unsupported("conversion %s->%s" % (k1, k2))


def poly_to_ip(p):
    r = I(0)
    for m, c in p.d.items():
        if c.denominator != 1:
            return None
        t = I(int(c))
        for a, e in m:
            if a.kind == "iv" and e == int(e) and e > 0:
                t = t * (IP({(a.args[0],): 1}) ** int(e))
            elif a.kind == "ind":
                t = t * iite(a.args[0], I(1), I(0))
            else:
                return None
        r = r + t
    return r


def esub(e, mp):
    if isinstance(e, BC):
        return C.simp_bc(e.subst(mp)) if (e.fv & mp.keys()) else e
    return e.subst(mp)


def fresh_ix(shape):
    return tuple(C.fresh(0, d) for d in shape)


def ite_k(kind, c, a, b):
    c = C.simp_bc(c)
    if kind in "fc":
        return ite(c, a, b)
    if kind == "i":
        return iite(c, a, b)
    return bor(band(c, a), band(bnot(c), b))


class Tensor:
    __array_priority__ = 1000

    def __init__(self, *a, **k):
        raise Unsupported("Tensor constructor")

    # -------------------------------------------------------------- construction
    @staticmethod
    def _raw(st, vm, ix, shape, dtype, cls=None):
        t = object.__new__(cls or Tensor)
        t.__dict__.update(st=st, vm=vm, ix=ix, dims=tuple(shape), _dtype=dtype, _leaf=False, _rg=None, grad_fn=None)
        return t

    @staticmethod
    def make(shape, dtype, f, lin=None, deps=()):
        """new tensor with entries f(index IPs)"""
        shape = tuple(I(as_ip(s)) for s in shape)
        ix = fresh_ix(shape)
        body = f(*[ivar(x) for x in ix])
        if lin is None:
            lin = frozenset()
            if X() is None or X().grad:
                for d in deps:
                    lin |= d.lin
            elif SG is not None and dtype.kind in "fc" and any(d.lin for d in deps):
                body = _sg(dtype, ix)
            if dtype.kind not in "fc":
                lin = frozenset()
        return Tensor._raw(Storage(ix, shape, body, dtype.kind, lin), None, ix, shape, dtype)

    @staticmethod
    def sym(name, shape, dtype=None, nonneg=False, rng=None, psd=False):
        dtype = dtype or DEFAULT[0]
        if dtype.kind == "i":
            if rng is not None:
                lo, hi = rng
                C.APPAX[name] = lambda *a: [le(lo, iapp(name, *a)), lt(iapp(name, *a), hi)]
            t = Tensor.make(shape, dtype, lambda *i: iapp(name, *i))
        elif dtype.kind == "b":
            t = Tensor.make(shape, dtype, lambda *i: BC("bapp", (name,) + i))
        else:
            s = Sym(name, dtype.kind == "c", nonneg, psd)
            t = Tensor.make(shape, dtype, lambda *i: entry(s, i))
        t.st.origin = name
        return t

    def view_of(self, shape, vmf, dtype=None):
        """view: vmf(new index IPs) -> index IPs of self"""
        shape = tuple(I(as_ip(s)) for s in shape)
        ix = fresh_ix(shape)
        own = vmf(*[ivar(x) for x in ix])
        mp = dict(zip(self.ix, own))
        base = tuple(own) if self.vm is None else tuple(e.subst(mp) for e in self.vm)
        r = Tensor._raw(self.st, base, ix, shape, dtype or self._dtype)
        if X() is not None and not X().grad and self.lin:
            pass
        nograd = X() is not None and not X().grad
        r.__dict__["_nolin"] = nograd or self.__dict__.get("_nolin", False)
        if not nograd:
            # a view of a leaf is connected to it
            own = frozenset([self._pid]) if self._leaf else frozenset()
            r.__dict__["_vlin"] = own | self.__dict__.get("_vlin", frozenset())
        return r

    def _vc_subst(self, mp):
        """the same tensor with integer variables replaced (read-only copy)"""
        keys = mp.keys()
        ixs = set(self.st.ix) | set(self.ix)
        mp = {k: e for k, e in mp.items() if k not in ixs}
        hit = (self.st.body.fv & keys) or any(d.fv & keys for d in self.dims) or any(d.fv & keys for d in self.st.shape) or \
            (self.vm is not None and any(e.fv & keys for e in self.vm))
        if not hit:
            return self
        if not ((self.st.body.fv & keys) or any(d.fv & keys for d in self.st.shape)):
            # true view of an unchanged storage
            r = Tensor._raw(self.st, tuple(e.subst(mp) for e in self.vm), self.ix, [d.subst(mp) for d in self.dims], self._dtype)
            for k in ("_nolin", "_vlin"):
                if k in self.__dict__:
                    r.__dict__[k] = self.__dict__[k]
            _rerange(r)
            return r
        el = self.el
        r = Tensor.make([d.subst(mp) for d in self.dims], self._dtype, lambda *i: _subst_el(self, mp, i), lin=self.lin)
        r.st.frozen = True
        return r

    # -------------------------------------------------------------- elements
    def el(self, *idx):
        idx = [I(x) for x in idx]
        if self.vm is None:
            mp = dict(zip(self.st.ix, idx))
        else:
            m0 = dict(zip(self.ix, idx))
            mp = {n: e.subst(m0) for n, e in zip(self.st.ix, self.vm)}
        return esub(self.st.body, mp)

    def pel(self, *idx):
        return conv(self.el(*idx), self._dtype.kind, "c")

    @property
    def lin(self):
        if self._leaf:
            return self.st.lin | frozenset([self._pid])
        own = self.__dict__.get("_vlin", frozenset())
        if self.__dict__.get("_nolin"):
            return own
        return self.st.lin | own

    @property
    def kind(self):
        return self._dtype.kind

    # -------------------------------------------------------------- attributes
    @property
    def shape(self):
        return Size(mk_int(d) for d in self.dims)

    def size(self, dim=None):
        if dim is None:
            return self.shape
        return self.shape[self._dim(dim)]

    @property
    def ndim(self):
        return len(self.dims)

    def dim(self):
        return len(self.dims)

    ndimension = dim

    @property
    def dtype(self):
        return self._dtype

    @property
    def device(self):
        return Device("cpu")

    is_cuda = False

    def get_device(self):
        return -1

    @property
    def layout(self):
        return "strided"

    def is_complex(self):
        return self.kind == "c"

    def is_floating_point(self):
        return self.kind == "f"

    @property
    def requires_grad(self):
        if self._rg is not None:
            return self._rg
        return bool(self.lin)

    @requires_grad.setter
    def requires_grad(self, v):
        self._rg = bool(v)
        if v and not self._leaf:
            self.__dict__["_leaf"] = True
            self.__dict__["_pid"] = "leaf:%s" % self.st.sid

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    @property
    def is_leaf(self):
        return self._leaf or not self.lin

    @property
    def grad(self):
        return None

    @property
    def data(self):
        return self.detach()

    def numel(self):
        return self.shape.numel()

    def element_size(self):
        return 4

    def is_contiguous(self):
        return True

    def __len__(self):
        if not self.dims:
            raise TypeError("len() of a 0-d tensor")
        c = self.dims[0].const()
        if c is None:
            raise Unsupported("native len() of symbolic tensor")
        return c

    def _vc_len(self):
        if not self.dims:
            raise TypeError("len() of a 0-d tensor")
        return mk_int(self.dims[0])

    def __iter__(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d tensor")
        c = self.dims[0].const()
        if c is None:
            raise Unsupported("native iteration over symbolic tensor")
        return iter([self[i] for i in range(c)])

    def _vc_seq(self):
        if not self.dims:
            raise TypeError("iteration over a 0-d tensor")
        return SSeq.map(self.dims[0], lambda k: self.select(0, mk_int(k)))

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return self.clone()

    def __repr__(self):
        return "Tensor(%s, %s)" % (",".join(d.key for d in self.dims), self._dtype)

    def __format__(self, s):
        return "<tensor>"

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported("Tensor.%s" % name)

    def __bool__(self):
        if any(d.const() != 1 for d in self.dims):
            n = self.numel()
            if not decide(eq(as_ip(n), 1)):
                raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        e = self.el(*([I(0)] * len(self.dims)))
        return decide(conv(e, self.kind, "b"))

    def _as_bc(self):
        return conv(self.el(*([I(0)] * len(self.dims))), self.kind, "b")

    def _as_ip(self):
        self._one()
        if self.kind in "fc":
            raise TypeError("only integer tensors of a single element can be converted to an index")
        return conv(self.el(*([I(0)] * len(self.dims))), self.kind, "i")

    def _as_poly(self):
        self._one()
        return self.pel(*([I(0)] * len(self.dims)))

    def __index__(self):
        return as_ip(self).__index__()

    def _one(self):
        if not decide(eq(as_ip(self.numel()), 1)):
            raise RuntimeError("a Tensor with many elements cannot be converted to Scalar")

    def item(self):
        self._one()
        e = self.el(*([I(0)] * len(self.dims)))
        if self.kind == "i":
            return mk_int(e)
        if self.kind == "b":
            return mk_bool(e)
        return mk_real(e)

    def tolist(self):
        if not self.dims:
            return self.item()
        c = self.dims[0].const()
        if c is None:
            return VList(self._vc_seq().mapv(lambda t: t.tolist()))
        return VList([self[i].tolist() for i in range(c)])

    # -------------------------------------------------------------- shape ops
    def _dim(self, d, extra=0):
        d = int(d.__index__()) if not isinstance(d, int) else d
        n = len(self.dims) + extra
        if not (-max(n, 1) <= d < max(n, 1)):
            raise IndexError("Dimension out of range (got %d)" % d)
        return d % max(n, 1)

    def transpose(self, a, b):
        a, b = self._dim(a), self._dim(b)
        p = list(range(self.ndim))
        if p:
            p[a], p[b] = p[b], p[a]
        return self._perm(p)

    swapaxes = swapdims = transpose

    def _perm(self, p):
        n = len(p)

        def vm(*ix):
            r = [None] * n
            for k, q in enumerate(p):
                r[q] = ix[k]
            return r
        return self.view_of([self.dims[q] for q in p], vm)

    def permute(self, *p):
        if len(p) == 1 and is_seq(p[0]):
            p = tuple(p[0])
        p = [self._dim(x) for x in p]
        if sorted(p) != list(range(self.ndim)):
            raise RuntimeError("permute: bad dims")
        return self._perm(p)

    def t(self):
        if self.ndim > 2:
            raise RuntimeError("t() expects a tensor with <= 2 dimensions")
        return self.transpose(0, 1) if self.ndim == 2 else self

    @property
    def T(self):
        return self._perm(list(range(self.ndim))[::-1])

    @property
    def mT(self):
        return self.transpose(-2, -1)

    @property
    def H(self):
        return self.transpose(0, 1).conj()

    @property
    def mH(self):
        return self.transpose(-2, -1).conj()

    def unsqueeze(self, dim):
        dim = self._dim(dim, 1)
        sh = list(self.dims)
        sh.insert(dim, I(1))
        return self.view_of(sh, lambda *ix: ix[:dim] + ix[dim + 1:])

    def unsqueeze_(self, dim):
        r = self.unsqueeze(dim)
        self.__dict__.update(vm=r.vm, ix=r.ix, dims=r.dims)
        return self

    def squeeze(self, dim=None):
        if dim is None:
            ds = list(range(self.ndim))
        elif is_seq(dim):
            ds = [self._dim(d) for d in dim]
        else:
            ds = [self._dim(dim)]
        drop = [d for d in ds if self.dims and decide(eq(self.dims[d], 1))]
        sh = [s for k, s in enumerate(self.dims) if k not in drop]

        def vm(*ix):
            it = iter(ix)
            return [I(0) if k in drop else next(it) for k in range(self.ndim)]
        return self.view_of(sh, vm)

    def squeeze_(self, dim=None):
        r = self.squeeze(dim)
        self.__dict__.update(vm=r.vm, ix=r.ix, dims=r.dims)
        return self

    def _shape_args(self, a):
        if len(a) == 1 and (is_seq(a[0])):
            a = tuple(a[0])
        return [as_ip(x) for x in a]

    def view(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], DType):
            return self.to(shape[0])
        new = self._shape_args(shape)
        tot = I(1)
        for d in self.dims:
            tot = tot * d
        neg = [k for k, d in enumerate(new) if d.const() == -1]
        if len(neg) > 1:
            raise RuntimeError("only one dimension can be inferred")
        if neg:
            rest = I(1)
            for k, d in enumerate(new):
                if k != neg[0]:
                    rest = rest * d
            q = exact_div(tot, rest)
            if q is None:
                q = tot // rest
                if not decide(eq(q * rest, tot)):
                    raise RuntimeError("shape is invalid for input")
            new[neg[0]] = q
        p = I(1)
        for d in new:
            p = p * d
        if not decide(eq(p, tot)):
            raise RuntimeError("shape is invalid for input of this size")
        return self._reshape(new)

    def reshape(self, *shape):
        return self.view(*shape)

    def view_as(self, o):
        return self.view(*o.shape)

    reshape_as = view_as

    def _reshape(self, new):
        old = list(self.dims)
        groups = []
        i = j = 0
        while i < len(old) or j < len(new):
            gi, gj = [], []
            # skip trailing ones
            if i < len(old):
                gi.append(i)
                pi = old[i]
                i += 1
            else:
                pi = I(1)
            if j < len(new):
                gj.append(j)
                pj = new[j]
                j += 1
            else:
                pj = I(1)
            while not (pi == pj or C.entails(eq(pi, pj))):
                # extend the side that divides the other
                if i < len(old) and (j >= len(new) or exact_div(pj, pi) is not None or (pi.const() == 1)):
                    gi.append(i)
                    pi = pi * old[i]
                    i += 1
                elif j < len(new) and (i >= len(old) or exact_div(pi, pj) is not None or pj.const() == 1):
                    gj.append(j)
                    pj = pj * new[j]
                    j += 1
                elif i < len(old):
                    gi.append(i)
                    pi = pi * old[i]
                    i += 1
                elif j < len(new):
                    gj.append(j)
                    pj = pj * new[j]
                    j += 1
                else:
                    raise Unsupported("reshape %s -> %s" % (old, new))
            groups.append((gi, gj))

        def vm(*ix):
            out = [None] * len(old)
            for gi, gj in groups:
                o = [k for k in gi if old[k].const() != 1]
                n = [k for k in gj if new[k].const() != 1]
                for k in gi:
                    out[k] = I(0)
                if len(o) == len(n) and all(old[a] == new[b] for a, b in zip(o, n)):
                    for a, b in zip(o, n):
                        out[a] = ix[b]
                    continue
                flat = I(0)
                for b in n:
                    flat = flat * new[b] + ix[b]
                rem = flat
                for a in reversed(o[1:]):
                    out[a] = rem % old[a]
                    rem = rem // old[a]
                if o:
                    out[o[0]] = rem
            return out
        return self.view_of(new, vm)

    def flatten(self, start_dim=0, end_dim=-1):
        if not self.dims:
            return self.view(1)
        s, e = self._dim(start_dim), self._dim(end_dim)
        p = I(1)
        for d in self.dims[s:e + 1]:
            p = p * d
        return self._reshape(list(self.dims[:s]) + [p] + list(self.dims[e + 1:]))

    def ravel(self):
        return self.flatten()

    def unflatten(self, dim, sizes):
        d = self._dim(dim)
        return self.view(*(list(self.shape[:d]) + list(sizes) + list(self.shape[d + 1:])))

    def expand(self, *shape):
        new = self._shape_args(shape)
        n, k = len(new), self.ndim
        if n < k:
            raise RuntimeError("expand: number of sizes smaller than tensor dimensions")
        fin, one = [], []
        for q, d in enumerate(new):
            o = q - (n - k)
            if o < 0:
                if d.const() == -1:
                    raise RuntimeError("expand: -1 not allowed in a leading dimension")
                fin.append(d)
                continue
            od = self.dims[o]
            if d.const() == -1 or d == od or C.entails(eq(d, od)):
                fin.append(od)
                one.append(False)
            elif decide(eq(d, od)):
                fin.append(od)
                one.append(False)
            elif decide(eq(od, 1)):
                fin.append(d)
                one.append(True)
            else:
                raise RuntimeError("The expanded size must match the existing size")

        def vm(*ix):
            return [I(0) if one[o] else ix[o + n - k] for o in range(k)]
        return self.view_of(fin, vm)

    def expand_as(self, o):
        return self.expand(*o.shape)

    def broadcast_to(self, shape):
        return self.expand(*shape)

    def repeat(self, *reps):
        reps = self._shape_args(reps)
        n, k = len(reps), self.ndim
        sh = [reps[q] * (self.dims[q - (n - k)] if q >= n - k else I(1)) for q in range(n)]

        def f(*ix):
            idx = []
            for o in range(k):
                q = o + n - k
                d = self.dims[o]
                idx.append(I(0) if d.const() == 1 else ix[q] if reps[q].const() == 1 else ix[q] % d)
            return self.el(*idx)
        return Tensor.make(sh, self._dtype, f, deps=(self,))

    def contiguous(self):
        return self

    def clone(self, **k):
        return Tensor.make(self.dims, self._dtype, self.el, deps=(self,))

    def detach(self):
        if SG is not None and self.lin and self.kind in "fc":
            return Tensor.make(self.dims, self._dtype, lambda *ix: _sg(self._dtype, [i for e in ix for i in e.fv]), lin=frozenset())
        r = self.view_of(self.dims, lambda *ix: ix)
        r.__dict__["_nolin"] = True
        r.__dict__["_vlin"] = frozenset()
        return r

    def detach_(self):
        self.__dict__["_nolin"] = True
        self.__dict__["_vlin"] = frozenset()
        return self

    def cpu(self):
        return self

    def cuda(self, *a):
        return self

    def numpy(self):
        if self.lin and not self.__dict__.get("_nolin"):
            raise RuntimeError("Can't call numpy() on Tensor that requires grad.")
        return self.view_of(self.dims, lambda *ix: ix)

    def to(self, *a, **k):
        dt = k.get("dtype")
        for x in a:
            if isinstance(x, DType):
                dt = x
            elif isinstance(x, Tensor):
                dt = x._dtype
        if dt is None or dt is self._dtype:
            return self
        return self._cast(dt)

    def type(self, dt=None):
        if dt is None:
            return repr(self._dtype)
        return self._cast(dt)

    def type_as(self, o):
        return self._cast(o._dtype)

    def _cast(self, dt):
        if dt is self._dtype:
            return self
        k1, k2 = self.kind, dt.kind
        if k1 == "c" and k2 == "f":
            return self.real._cast(dt)
        return Tensor.make(self.dims, dt, lambda *i: conv(self.el(*i), k1, k2), deps=(self,))

    def float(self):
        return self._cast(float32)

    def double(self):
        return self._cast(float64)

    def long(self):
        return self._cast(int64)

    def int(self):
        return self._cast(int32)

    def bool(self):
        return self._cast(bool_)

    def cfloat(self):
        return self._cast(complex64)

    def cdouble(self):
        return self._cast(complex128)

    # -------------------------------------------------------------- indexing
    def select(self, dim, i):
        d = self._dim(dim)
        n = self.dims[d]
        i = as_ip(i)
        if not decide(band(le(-n, i), lt(i, n))):
            raise IndexError("index out of range")
        if not C.entails(le(0, i)):
            i = i if decide(le(0, i)) else i + n
        sh = self.dims[:d] + self.dims[d + 1:]
        return self.view_of(sh, lambda *ix: ix[:d] + (i,) + ix[d:])

    def narrow(self, dim, start, length):
        sl = [slice(None)] * self.ndim
        sl[self._dim(dim)] = slice(start, start + length)
        return self[tuple(sl)]

    def __getitem__(self, key):
        if isinstance(key, VList) and any(isinstance(x, slice) for x in key):
            key = tuple(key)
        if not isinstance(key, tuple):
            key = (key,)
        key = [_listidx(k) for k in key]
        nd = sum(1 for k in key if k is not None and k is not Ellipsis and not isinstance(k, bool))
        if nd > self.ndim:
            raise IndexError("too many indices for tensor of dimension %d" % self.ndim)
        if Ellipsis in [k for k in key if k is Ellipsis]:
            p = [k is Ellipsis for k in key].index(True)
            key = key[:p] + [slice(None)] * (self.ndim - nd) + key[p + 1:]
            if any(k is Ellipsis for k in key):
                raise IndexError("an index can only have a single ellipsis")
        else:
            key = key + [slice(None)] * (self.ndim - nd)
        # first basic part: a view in which advanced positions are kept as full dimensions
        sh, spec, adv = [], [], []
        d = 0
        for k in key:
            if k is None:
                sh.append(I(1))
                spec.append(("new",))
            elif isinstance(k, slice):
                st, n, step = norm_slice(k, self.dims[d])
                sh.append(n)
                spec.append(("sl", st, step))
                d += 1
            elif isinstance(k, Tensor) and k.ndim > 0 and k.kind == "i":
                adv.append((len(sh), k, self.dims[d]))
                sh.append(self.dims[d])
                spec.append(("sl", I(0), 1))
                d += 1
            elif isinstance(k, Tensor) and k.kind == "b":
                raise Unsupported("boolean mask indexing")
            elif is_int(k) or isinstance(k, Tensor) or hasattr(k, "__index__"):
                i = as_ip(k)
                n = self.dims[d]
                if not decide(band(le(-n, i), lt(i, n))):
                    raise IndexError("index out of range")
                if not C.entails(le(0, i)):
                    i = i if decide(le(0, i)) else i + n
                if isinstance(k, Tensor) and any(isinstance(q, Tensor) and q.ndim > 0 for q in key):
                    adv.append((len(sh), k, self.dims[d]))
                    sh.append(self.dims[d])
                    spec.append(("sl", I(0), 1))
                else:
                    spec.append(("int", i))
                d += 1
            else:
                raise Unsupported("index of type %s" % type(k).__name__)

        def vm(*ix):
            out, q = [], 0
            for s in spec:
                if s[0] == "new":
                    q += 1
                elif s[0] == "int":
                    out.append(s[1])
                else:
                    e = ix[q] if s[2] == 1 else ix[q] * s[2]
                    out.append(e + s[1])
                    q += 1
            return out
        v = self.view_of(sh, vm)
        if not adv:
            return v
        return v._adv(adv)

    def _adv(self, adv):
        pos = [p for p, _, _ in adv]
        bsh, maps = broadcast_shapes([t.dims for _, t, _ in adv])
        for (p, t, d), m in zip(adv, maps):
            ix = fresh_ix(t.dims)
            e = t.el(*[ivar(x) for x in ix])
            if not decide_forall(band(le(0, e), lt(e, d))):
                if not decide_forall(band(le(-d, e), lt(e, d))):
                    raise IndexError("index out of range in advanced indexing")
                raise Unsupported("negative advanced index")
        nb = len(bsh)
        contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
        at = pos[0] if contiguous else 0
        rest = [k for k in range(self.ndim) if k not in pos]
        sh = [self.dims[k] for k in rest]
        sh[at:at] = bsh

        def f(*ix):
            b = ix[at:at + nb]
            o = list(ix[:at] + ix[at + nb:])
            idx = [None] * self.ndim
            for k, x in zip(rest, o):
                idx[k] = x
            for (p, t, d), m in zip(adv, maps):
                idx[p] = as_ip(t.el(*m(b)))
            return self.el(*idx)
        return Tensor.make(sh, self._dtype, f, deps=(self,))

    def __setitem__(self, key, value):
        if isinstance(key, VList) and any(isinstance(x, slice) for x in key):
            key = tuple(key)
        ks = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, Tensor) and k.ndim > 0 for k in ks):
            raise Unsupported("advanced index assignment")
        v = self[key]
        if v.st is not self.st:
            raise Unsupported("assignment through a copy")
        v._assign(value)

    def _assign(self, value):
        if not isinstance(value, Tensor):
            if is_seq(value):
                value = tensor(value)
            else:
                p = rp(value)
                value = Tensor.make((), self._dtype if self.kind in "fc" else dtype_of_scalar(value), lambda: p if self.kind in "fc" or dtype_of_scalar(value).kind in "fc" else as_ip(value))
        if CAT[value.kind] > CAT[self.kind]:
            if value.kind == "c":
                # torch discards the imaginary part with a warning
                value = value.real
            elif self.kind in "ib":
                raise Unsupported("assigning float into integer tensor")
        vd = list(value.dims)
        if len(vd) > self.ndim:
            extra = vd[:len(vd) - self.ndim]
            for e in extra:
                if not decide(eq(e, 1)):
                    raise RuntimeError("shape mismatch in assignment")
            value = value._reshape(vd[len(extra):])
            vd = vd[len(extra):]
        off = self.ndim - len(vd)
        one = []
        for k, d in enumerate(vd):
            t = self.dims[off + k]
            if d == t or decide(eq(d, t)):
                one.append(False)
            elif decide(eq(d, 1)):
                one.append(True)
            else:
                raise RuntimeError("The expanded size of the tensor must match the existing size")
        vk, sk = value.kind, self.kind
        self._write(lambda *ix: conv(value.el(*[I(0) if one[k] else ix[off + k] for k in range(len(vd))]), vk, sk), (value,))

    def _write(self, f, deps=()):
        """in-place write of all entries of this view"""
        ex = X()
        if self._leaf and self.requires_grad and ex is not None and ex.grad:
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
        if ex is not None and ex.grad and self.__dict__.get("_is_view_of_leaf"):
            raise RuntimeError("a view of a leaf Variable that requires grad is being used in an in-place operation.")
        st = self.st
        if st.guard is not None:
            X().oblige(st.guard + " not written in place", False, "in-place write")
        if getattr(st, "frozen", False):
            raise Unsupported("in-place write into a mapped tensor")
        lin = frozenset()
        if ex is None or ex.grad:
            for d in deps:
                lin |= d.lin
        ex is not None and ex.mutlog.append(("store", st))
        st.writes += 1
        B = [ivar(x) for x in st.ix]
        if self.vm is None:
            st.body = f(*B)
            st.lin = lin
            return
        sol = {}
        conds = []
        for b, e in zip(B, self.vm):
            vs = [x for x in self.ix if x in e.fv]
            if not vs:
                conds.append(eq(b, e))
                continue
            if len(vs) > 1:
                raise Unsupported("in-place write through a reshaping view")
            x = vs[0]
            co = e.lincoeff(x)
            if not co:
                raise Unsupported("in-place write through a nonlinear view")
            if x in sol:
                raise Unsupported("in-place write through a diagonal view")
            r = e - ivar(x) * co
            if co == 1:
                sol[x] = b - r
            elif co == -1:
                sol[x] = r - b
            else:
                q = (b - r) // co
                sol[x] = q
                conds.append(eq(q * co, b - r))
        for x, d in zip(self.ix, self.dims):
            if x in sol:
                conds.append(le(0, sol[x]))
                conds.append(lt(sol[x], d))
            elif d.const() != 1:
                raise Unsupported("in-place write through an expanded view")
            else:
                sol[x] = I(0)
        c = band(*[C.simp_bc(z) for z in conds])
        with C.assume(*(c.args if c.kind == "and" else (c,))):
            nv = f(*[sol[x] for x in self.ix])
        st.body = ite_k(st.kind, c, nv, st.body)
        st.lin = st.lin | lin

    def copy_(self, src):
        self._assign(src)
        return self

    def fill_(self, v):
        self._assign(v)
        return self

    def zero_(self):
        self._assign(0)
        return self

    def scatter_(self, dim, index, src=None, value=None, reduce=None):
        if reduce is not None:
            raise Unsupported("scatter_ reduce")
        val = src if src is not None else value
        d = self._dim(dim)
        if index.ndim != self.ndim:
            raise RuntimeError("Index tensor must have the same number of dimensions as self tensor")
        for k in range(self.ndim):
            if k != d and not decide(le(index.dims[k], self.dims[k])):
                raise RuntimeError("scatter: index size larger than self")
        m = index.dims[d].const()
        if m is None:
            raise Unsupported("scatter_ with symbolic index extent")
        st_kind = self.kind
        old = [self.el]
        for q in range(m):
            ixs = fresh_ix(index.dims)
            e = index.el(*[ivar(x) if k != d else I(q) for k, x in enumerate(ixs)])
            if not decide_forall(band(le(0, e), lt(e, self.dims[d]))):
                raise RuntimeError("scatter: index out of bounds")

        base = self.clone()

        def f(*ix):
            r = base.el(*ix)
            for q in range(m):
                idx = [ix[k] if k != d else I(q) for k in range(self.ndim)]
                inb = band(*[lt(ix[k], index.dims[k]) for k in range(self.ndim) if k != d])
                v = conv(val.el(*idx), val.kind, st_kind) if isinstance(val, Tensor) else (rp(val) if st_kind in "fc" else as_ip(val))
                r = ite_k(st_kind, band(inb, eq(index.el(*idx), ix[d])), v, r)
            return r
        self._write(f, (self,) + ((val,) if isinstance(val, Tensor) else ()))
        return self

    def scatter(self, dim, index, src):
        return self.clone().scatter_(dim, index, src)

    def gather(self, dim, index):
        d = self._dim(dim)

        def f(*ix):
            i = index.el(*ix)
            return self.el(*[ix[k] if k != d else i for k in range(self.ndim)])
        return Tensor.make(index.dims, self._dtype, f, deps=(self,))

    def index_select(self, dim, index):
        d = self._dim(dim)
        sl = [slice(None)] * self.ndim
        sl[d] = index
        return self[tuple(sl)]

    def __contains__(self, x):
        raise Unsupported("in on tensor")

    # -------------------------------------------------------------- elementwise
    def _un(self, f, dtype=None, diff=True):
        dt = dtype or self._dtype
        return Tensor.make(self.dims, dt, lambda *i: f(self.el(*i)), deps=(self,) if diff else ())

    def _fl(self):
        return self if self.kind in "fc" else self._cast(DEFAULT[0])

    def __neg__(self):
        return self._un(lambda e: -e)

    neg = __neg__

    def __pos__(self):
        return self

    def abs(self):
        if self.kind == "i":
            return self._un(lambda e: iite(le(0, e), e, -e))
        return self._un(pabs, real_of(self._dtype))

    absolute = abs
    __abs__ = abs

    def conj(self):
        return self._un(pconj) if self.kind == "c" else self

    conj_physical = resolve_conj = conj

    @property
    def real(self):
        if self.kind != "c":
            return self
        return self._un(lambda e: (e + pconj(e)) * P(Fraction(1, 2)), real_of(self._dtype))

    @property
    def imag(self):
        if self.kind != "c":
            raise RuntimeError("imag is not implemented for tensors with non-complex dtypes.")
        return self._un(lambda e: (e - pconj(e)) * J * P(Fraction(-1, 2)), real_of(self._dtype))

    def _chk(self, f, name):
        """evaluate a per-entry side condition at a generic index"""
        ix = fresh_ix(self.dims)
        e = self.pel(*[ivar(x) for x in ix])
        ok = f(e)
        if not ok and getattr(X(), "sg", None):
            return True
        return X().oblige(name, ok, "for %s" % e.key[:800])

    def log(self):
        s = self._fl()
        if s.kind == "f":
            s._chk(lambda e: sign(e) is not None, "logarithm argument is non-negative")
        else:
            raise Unsupported("complex logarithm")
        return s._un(plog)

    def log_(self):
        r = self.log()
        self._assign(r)
        return self

    def exp(self):
        return self._fl()._un(pexp)

    def sqrt(self):
        s = self._fl()
        if s.kind == "f":
            s._chk(lambda e: sign(e) is not None, "square root argument is non-negative")
        return s._un(psqrt)

    def rsqrt(self):
        return 1 / self.sqrt()

    def reciprocal(self):
        return 1 / self

    def square(self):
        return self * self

    def cos(self):
        return self._fl()._un(lambda e: trigfn("cos", e))

    def sin(self):
        return self._fl()._un(lambda e: trigfn("sin", e))

    def sigmoid(self):
        return self._fl()._un(lambda e: fn("sigmoid", (e,), True, "pos"))

    def tanh(self):
        return self._fl()._un(lambda e: fn("tanh", (e,), True))

    def sign(self):
        return self._un(lambda e: ind(bor(mkrlt(-e), FALSE)) - ind(mkrlt(e)), diff=False)

    def floor(self):
        return self._fl()._un(lambda e: fn("floor", (e,), True), diff=False)

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = r._un(lambda e: ite(mkrlt(e - rp(min)), rp(min), e))
        if max is not None:
            r = r._un(lambda e: ite(mkrlt(rp(max) - e), rp(max), e))
        return r

    def clamp_min(self, m):
        return self.clamp(min=m)

    def isfinite(self):
        return self._un(lambda e: finite_bc(e) if self.kind in "fc" else TRUE, bool_, diff=False)

    def isnan(self):
        return self._un(lambda e: FALSE, bool_, diff=False)

    def isinf(self):
        return self._un(lambda e: bnot(finite_bc(e)) if self.kind in "fc" else FALSE, bool_, diff=False)

    def logical_not(self):
        return self._un(lambda e: bnot(conv(e, self.kind, "b")), bool_, diff=False)

    __invert__ = logical_not

    def _bin(self, o, f, rev=False, cmp=False, div=False):
        if not isinstance(o, Tensor):
            if isinstance(o, (int, float, complex, SInt, SReal, SBool, Fraction)):
                o = scalar_like(o)
            elif is_ndarray(o):
                o = o
            else:
                return NotImplemented
        a, b = (o, self) if rev else (self, o)
        dt = result_type(a, b)
        if div and dt.kind in "ib":
            dt = DEFAULT[0]
        sh, (ma, mb) = broadcast_shapes([a.dims, b.dims])
        k = dt.kind
        if div:
            ix = fresh_ix(sh)
            den = conv(b.el(*mb([ivar(x) for x in ix])), b.kind, "c")
            nonzero_obligation(den, "denominator nonzero")
        if cmp:
            return Tensor.make(sh, bool_, lambda *i: f(conv(a.el(*ma(i)), a.kind, k), conv(b.el(*mb(i)), b.kind, k), k), lin=frozenset())
        return Tensor.make(sh, dt, lambda *i: f(conv(a.el(*ma(i)), a.kind, k), conv(b.el(*mb(i)), b.kind, k)), deps=(a, b))

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._bin(o, lambda x, y: x + y, True)

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        return self._bin(o, lambda x, y: x * y)

    def __rmul__(self, o):
        return self._bin(o, lambda x, y: x * y, True)

    def __truediv__(self, o):
        return self._bin(o, lambda x, y: x * pinv(y), div=True)

    def __rtruediv__(self, o):
        return self._bin(o, lambda x, y: x * pinv(y), True, div=True)

    def __floordiv__(self, o):
        if self.kind != "i":
            raise Unsupported("float floor division")
        return self._bin(o, lambda x, y: x // y)

    def __mod__(self, o):
        if self.kind != "i":
            raise Unsupported("float mod")
        return self._bin(o, lambda x, y: x % y)

    def add(self, o, alpha=1):
        return self + (o if alpha == 1 else alpha * o)

    def sub(self, o, alpha=1):
        return self - (o if alpha == 1 else alpha * o)

    mul = multiply = __mul__
    div = divide = true_divide = __truediv__

    def __pow__(self, e):
        if isinstance(e, SInt):
            return self._fl()._un(lambda x: ppowi(x, e.ip))
        if isinstance(e, Tensor):
            raise Unsupported("tensor ** tensor")
        if isinstance(e, (int, float)) and e == int(e):
            e = int(e)
            if self.kind == "i":
                if e < 0:
                    raise RuntimeError("Integers to negative integer powers are not allowed.")
                return self._un(lambda x: x ** e)
            if e < 0:
                self._chk(is_nonzero, "denominator nonzero")
            return self._un(lambda x: ppow(x, e))
        if isinstance(e, SReal):
            raise Unsupported("symbolic exponent")
        self._fl()._chk(lambda z: sign(z) is not None, "power base is non-negative")
        return self._fl()._un(lambda x: ppow(x, Fraction(e)))

    pow = __pow__

    def __rpow__(self, b):
        if self.kind == "i" and isinstance(b, int):
            return self._un(lambda x: ipow(I(b), x))
        raise Unsupported("scalar ** tensor")

    def _inpl(self, r):
        if r is NotImplemented:
            return r
        if CAT[r.kind] > CAT[self.kind]:
            raise RuntimeError("result type can't be cast to the desired output type")
        if len(r.dims) != len(self.dims) or not all(a == b or decide(eq(a, b)) for a, b in zip(r.dims, self.dims)):
            raise RuntimeError("output with shape doesn't match the broadcast shape")
        r2 = r
        self._write(lambda *ix: conv(r2.el(*ix), r2.kind, self.kind), (r2, self))
        return self

    def __iadd__(self, o):
        return self._inpl(self + o)

    def __isub__(self, o):
        return self._inpl(self - o)

    def __imul__(self, o):
        return self._inpl(self * o)

    def __itruediv__(self, o):
        return self._inpl(self / o)

    add_, sub_, mul_, div_ = __iadd__, __isub__, __imul__, __itruediv__

    def _c(self, o, fi, fr):
        def f(x, y, k):
            if k == "b":
                x, y, k = iite(x, I(1), I(0)), iite(y, I(1), I(0)), "i"
            return fi(x, y) if k == "i" else fr(x, y)
        return self._bin(o, f, cmp=True)

    def __lt__(self, o):
        return self._c(o, lt, lambda a, b: mkrlt(a - b))

    def __le__(self, o):
        return self._c(o, le, lambda a, b: bnot(mkrlt(b - a)))

    def __gt__(self, o):
        return self._c(o, lambda a, b: lt(b, a), lambda a, b: mkrlt(b - a))

    def __ge__(self, o):
        return self._c(o, lambda a, b: le(b, a), lambda a, b: bnot(mkrlt(a - b)))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._c(o, eq, lambda a, b: mkreq(a - b))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._c(o, lambda a, b: bnot(eq(a, b)), lambda a, b: bnot(mkreq(a - b)))

    lt, le, gt, ge, eq, ne = __lt__, __le__, __gt__, __ge__, __eq__, __ne__

    def __and__(self, o):
        return self._bin(o, lambda x, y, k: band(conv(x, k, "b"), conv(y, k, "b")), cmp=True)

    def __or__(self, o):
        return self._bin(o, lambda x, y, k: bor(conv(x, k, "b"), conv(y, k, "b")), cmp=True)

    # -------------------------------------------------------------- reductions
    def _dims_arg(self, dim):
        if dim is None:
            return list(range(self.ndim))
        if is_seq(dim):
            ds = [self._dim(d) for d in dim]
            return ds if ds else list(range(self.ndim))
        return [self._dim(dim)] if self.ndim else []

    def _reduce(self, dim, keepdim, f, dtype=None):
        ds = self._dims_arg(dim)
        sh = [(I(1) if k in ds else d) for k, d in enumerate(self.dims) if keepdim or k not in ds]

        def g(*ix):
            idx, q = [], 0
            bs = []
            for k, d in enumerate(self.dims):
                if k in ds:
                    n = C.fresh(0, d)
                    bs.append((n, I(0), d))
                    idx.append(ivar(n))
                    if keepdim:
                        q += 1
                else:
                    idx.append(ix[q])
                    q += 1
            return f(bs, self.el(*idx))
        return Tensor.make(sh, dtype or self._dtype, g, deps=(self,))

    def sum(self, dim=None, keepdim=False, dtype=None, axis=None):
        dim = axis if axis is not None else dim
        s = self
        if s.kind == "b":
            s = s._cast(int64)
        if s.kind == "i":
            def f(bs, e):
                for n, lo, hi in reversed(bs):
                    if n in e.fv:
                        c = hi.const()
                        if c is not None and c <= 64:
                            tot = I(0)
                            for k in range(c):
                                tot = tot + e.subst({n: I(k)})
                            e = tot
                        else:
                            raise Unsupported("symbolic integer sum")
                    else:
                        e = e * hi
                return e
            return s._reduce(dim, keepdim, f)
        return s._reduce(dim, keepdim, msum)

    def mean(self, dim=None, keepdim=False):
        ds = self._dims_arg(dim)
        n = I(1)
        for d in ds:
            n = n * self.dims[d]
        r = self._fl().sum(dim, keepdim)
        return r / mk_int(n)

    def prod(self, dim=None, keepdim=False):
        if dim is None and not self.dims:
            return self
        ds = self._dims_arg(dim)
        if self.kind == "i":
            def f(bs, e):
                for n, lo, hi in bs:
                    c = hi.const()
                    if c is None:
                        raise Unsupported("symbolic product")
                    r = I(1)
                    for k in range(c):
                        r = r * e.subst({n: I(k)})
                    e = r
                return e
            return self._reduce(dim, keepdim, f)

        def f(bs, e):
            for n, lo, hi in bs:
                e = mkseg(n, (), (), (), e, lo, hi, (), ())
            return e
        return self._reduce(dim, keepdim, f)

    def norm(self, p=2, dim=None, keepdim=False):
        if p not in (2, "fro", None, 2.0):
            if p == 1:
                return self.abs().sum(dim, keepdim)
            raise Unsupported("norm p=%r" % (p,))
        a = self.abs()
        r = (a * a).sum(dim, keepdim)
        return r._un(psqrt)

    def max(self, *a, **k):
        if a or k or self.kind not in "fc":
            raise Unsupported("max")
        if self.kind == "c":
            raise RuntimeError("max is not implemented for complex tensors")
        if not self.dims:
            return self.clone()
        if not decide(band(*[le(1, x) for x in self.dims])):
            raise RuntimeError("max of an empty tensor")
        # some unspecified real value
        OPAQUE[0] += 1
        return Tensor.make((), self._dtype, lambda: entry(Sym("max%d" % OPAQUE[0]), ()))

    min = amax = amin = max

    def argmax(self, *a, **k):
        raise Unsupported("argmax")

    argmin = argmax

    def all(self, dim=None):
        e = self
        bc = TRUE
        ix = fresh_ix(self.dims)
        b = conv(self.el(*[ivar(x) for x in ix]), self.kind, "b")
        for x, d in zip(reversed(ix), reversed(self.dims)):
            b = mk_forall(x, d, b)
        return Tensor.make((), bool_, lambda: b)

    def any(self, dim=None):
        return (~self).all().logical_not()

    def trace(self):
        if self.ndim != 2:
            raise RuntimeError("trace: expected a matrix")
        n = C.fresh(0, imin(*self.dims) if self.dims[0] != self.dims[1] else self.dims[0])
        hi = C.RNG[n][1]
        return Tensor.make((), self._dtype, lambda: ssum(n, I(0), hi, self.pel(ivar(n), ivar(n))), deps=(self,))

    def diag(self, diagonal=0):
        if diagonal != 0:
            raise Unsupported("off-diagonal diag")
        if self.ndim == 1:
            d = self.dims[0]
            return Tensor.make((d, d), self._dtype, lambda i, j: ite_k(self.kind, eq(i, j), self.el(i), zero_of(self.kind)), deps=(self,))
        if self.ndim == 2:
            a, b = self.dims
            n = a if (a == b or decide(eq(a, b))) else (a if decide(le(a, b)) else b)
            return Tensor.make((n,), self._dtype, lambda i: self.el(i, i), deps=(self,))
        raise RuntimeError("matrix or a vector expected")

    def diagonal(self, offset=0, dim1=0, dim2=1):
        if offset:
            raise Unsupported("diagonal offset")
        a, b = self._dim(dim1), self._dim(dim2)
        rest = [k for k in range(self.ndim) if k not in (a, b)]
        n = self.dims[a] if (self.dims[a] == self.dims[b] or decide(le(self.dims[a], self.dims[b]))) else self.dims[b]

        def f(*ix):
            idx = [None] * self.ndim
            for k, x in zip(rest, ix):
                idx[k] = x
            idx[a] = idx[b] = ix[-1]
            return self.el(*idx)
        return Tensor.make([self.dims[k] for k in rest] + [n], self._dtype, f, deps=(self,))

    def diag_embed(self):
        d = self.dims[-1]
        return Tensor.make(self.dims + (d,), self._dtype, lambda *i: ite_k(self.kind, eq(i[-1], i[-2]), self.el(*i[:-1]), zero_of(self.kind)), deps=(self,))

    def flip(self, *dims):
        if len(dims) == 1 and is_seq(dims[0]):
            dims = tuple(dims[0])
        ds = [self._dim(d) for d in dims]
        return Tensor.make(self.dims, self._dtype, lambda *ix: self.el(*[self.dims[k] - 1 - x if k in ds else x for k, x in enumerate(ix)]), deps=(self,))

    def unbind(self, dim=0):
        d = self._dim(dim)
        c = self.dims[d].const()
        if c is None:
            return SSeq.map(self.dims[d], lambda k: self.select(d, mk_int(k))).as_tuple()
        return tuple(self.select(d, k) for k in range(c))

    def split(self, size, dim=0):
        d = self._dim(dim)
        if is_seq(size):
            out, s = [], 0
            for z in seq_items(size):
                out.append(self.narrow(d, s, z))
                s = s + z
            return tuple(out)
        return self.chunk(None, dim, size=size)

    def chunk(self, n, dim=0, size=None):
        d = self._dim(dim)
        tot = self.dims[d]
        if size is None:
            n = as_ip(n)
            if n == tot or C.entails(eq(n, tot)):
                size = I(1)
            else:
                nc = n.const()
                if nc is None or tot.const() is None:
                    raise Unsupported("chunk with symbolic sizes")
                size = I(-(-tot.const() // nc))
        else:
            size = as_ip(size)
        if size.const() == 1:
            c = tot.const()
            sl = lambda k: self.view_of(self.dims[:d] + (I(1),) + self.dims[d + 1:], lambda *ix: ix[:d] + (I(k),) + ix[d + 1:])
            if c is not None:
                return tuple(sl(k) for k in range(c))
            return SSeq.map(tot, sl).as_tuple()
        if tot.const() is None or size.const() is None:
            raise Unsupported("chunk with symbolic sizes")
        out = []
        s = 0
        while s < tot.const():
            out.append(self.narrow(d, s, min(size.const(), tot.const() - s)))
            s += size.const()
        return tuple(out)

    # -------------------------------------------------------------- products
    def __matmul__(self, o):
        return matmul(self, o)

    matmul = __matmul__

    def __rmatmul__(self, o):
        return matmul(o, self)

    def mm(self, o):
        if self.ndim != 2 or o.ndim != 2:
            raise RuntimeError("mm expects 2-D tensors")
        return matmul(self, o)

    def bmm(self, o):
        if self.ndim != 3 or o.ndim != 3:
            raise RuntimeError("bmm expects 3-D tensors")
        if not decide(eq(self.dims[0], o.dims[0])):
            raise RuntimeError("bmm: batch sizes differ")
        return matmul(self, o)

    def mv(self, o):
        return matmul(self, o)

    def dot(self, o):
        return matmul(self, o)

    vdot = None

    def new_zeros(self, *s, **k):
        return full(self._shape_args(s), 0, k.get("dtype", self._dtype))

    def new_ones(self, *s, **k):
        return full(self._shape_args(s), 1, k.get("dtype", self._dtype))

    def new_empty(self, *s, **k):
        return empty(*s, dtype=k.get("dtype", self._dtype))

    def new_full(self, size, v, **k):
        return full(self._shape_args((size,)), v, k.get("dtype", self._dtype))

    def masked_fill(self, mask, v):
        return where(mask, scalar_like(v)._cast(self._dtype), self)

    def register_hook(self, *a):
        return None

    def retain_grad(self):
        return None

    def backward(self, *a, **k):
        return None


def _subst_el(t, mp, idx):
    # rename first so that the index values cannot capture substituted variables
    tmp = ["$%d" % q for q in range(len(idx))]
    e = t.el(*[ivar(x) for x in tmp])
    e = esub(e, mp)
    return esub(e, dict(zip(tmp, idx)))


def _rerange(r):
    """give a view fresh index names with the right ranges"""
    ix = fresh_ix(r.dims)
    mp = {a: ivar(b) for a, b in zip(r.ix, ix)}
    r.__dict__["vm"] = tuple(e.subst(mp) for e in r.vm)
    r.__dict__["ix"] = ix


class Device:
    def __init__(self, s):
        self.type = s

    def __eq__(self, o):
        return str(o) == self.type or isinstance(o, Device)

    def __str__(self):
        return self.type

    def __hash__(self):
        return hash(self.type)


def is_ndarray(o):
    return False


def trigfn(name, e):
    # odd/even normalisation is not needed; keep as uninterpreted real functions
    return fn(name, (e,), True)


def finite_bc(e):
    bc = TRUE
    for a in walk_atoms(e).values():
        if a.kind == "log":
            if sign(a.args[0]) != "pos":
                bc = band(bc, bnot(mkreq(a.args[0])))
    return bc


def mk_forall(x, d, b):
    """for all x in [0,d): b"""
    if b is TRUE or b is FALSE and False:
        return TRUE
    if x not in b.fv:
        # vacuous only if the range may be empty
        return b if C.entails(le(1, d)) else bor(b, le(d, 0))
    C.RNG[x] = (I(0), d)
    if b.kind in ("le", "eq", "and", "or", "not") and C.entails(b):
        return TRUE
    if b.kind == "and":
        return band(*[mk_forall(x, d, y) for y in b.args])
    f = "$q_" + str(len(_HTQ.findall(b.key)))
    b2 = b.subst({x: ivar(f)})
    return BC("forall", (f, d, b2))


import re
_HTQ = re.compile(r"forall")


def decide_forall(bc):
    """bc over generic fresh indices: entailed for all of them? otherwise an arbitrary violation exists"""
    if bc.kind == "and":
        return all(decide_forall(x) for x in bc.args)
    if bc is TRUE or C.entails(bc):
        return True
    fresh = [v for v in bc.fv if v.startswith("?")]
    if not fresh:
        return decide(bc)
    # neither provable: treat as a branch (either all are fine or one entry violates)
    if X().choose(2, "forall " + bc.key[:80]) == 0:
        b = bc
        for v in fresh:
            b = mk_forall(v, C.RNG[v][1], b)
        C.add_fact(b)
        return True
    C.add_fact(bnot(bc))
    if not C.consistent():
        raise Infeasible()
    return False


def _listidx(k):
    if isinstance(k, (VList, list)):
        if all(is_int(x) for x in k):
            return tensor(k)
        raise Unsupported("list index")
    return k


def norm_slice(s, d):
    """(start, length, step)"""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        step = as_ip(step).__index__()
    if step <= 0:
        raise ValueError("step must be greater than zero")

    def norm(x, default):
        if x is None:
            return default
        x = as_ip(x)
        c = x.const()
        if c is not None and c < 0 or (c is None and not C.entails(le(0, x))):
            if decide(lt(x, 0)):
                x = x + d
                if not decide(le(0, x)):
                    return I(0)
                return x
        if x == d or C.entails(le(x, d)):
            return x
        if decide(le(x, d)):
            return x
        return d
    st = norm(s.start, I(0))
    en = norm(s.stop, d)
    if not decide(le(st, en)):
        return st, I(0), step
    n = en - st
    if step != 1:
        n = (n + (step - 1)) // step
    return st, n, step


def broadcast_shapes(shapes):
    """result dims and, per operand, a map from result indices to operand indices"""
    n = max(len(s) for s in shapes)
    out = []
    ones = [set() for _ in shapes]
    for q in range(n):
        cur = I(1)
        for k, s in enumerate(shapes):
            o = q - (n - len(s))
            if o < 0:
                continue
            d = s[o]
            if d.const() == 1:
                continue
            if cur.const() == 1:
                cur = d
            elif d == cur or C.entails(eq(d, cur)):
                pass
            elif decide(eq(d, cur)):
                pass
            elif decide(eq(d, 1)):
                pass
            elif decide(eq(cur, 1)):
                cur = d
            else:
                raise RuntimeError("The size of tensor a must match the size of tensor b")
        out.append(cur)
        for k, s in enumerate(shapes):
            o = q - (n - len(s))
            if o >= 0 and s[o] != cur and not C.entails(eq(s[o], cur)):
                ones[k].add(o)
    maps = []
    for k, s in enumerate(shapes):
        def m(ix, s=s, k=k):
            return [I(0) if (o in ones[k] or s[o].const() == 1) else ix[o + n - len(s)] for o in range(len(s))]
        maps.append(m)
    return out, maps


def dtype_of_scalar(x):
    if isinstance(x, (bool, SBool)):
        return bool_
    if is_int(x):
        return int64
    if isinstance(x, complex):
        return cplx_of(DEFAULT[0])
    if isinstance(x, SReal) and not is_real(x.p):
        return cplx_of(DEFAULT[0])
    return DEFAULT[0]


def scalar_like(x):
    dt = dtype_of_scalar(x)
    e = as_bc(x) if dt.kind == "b" else as_ip(x) if dt.kind == "i" else rp(x)
    t = Tensor.make((), dt, lambda: e)
    t.__dict__["_wrapped"] = True
    return t


def result_type(a, b):
    def rank(t):
        return 0 if t.__dict__.get("_wrapped") else 1 if t.ndim == 0 else 2
    ra, rb = rank(a), rank(b)
    da, db = a._dtype, b._dtype
    if ra == rb:
        return promote(da, db)
    if ra < rb:
        da, db = db, da
    # da has priority
    if CAT[db.kind] > CAT[da.kind]:
        if db.kind == "c":
            return cplx_of(da) if da.kind == "f" else db
        if db.kind == "f" and min(ra, rb) == 0:
            return DEFAULT[0]
        return db
    return da


# ------------------------------------------------------------------ functions
def tensor(data, dtype=None, device=None, requires_grad=False):
    if isinstance(data, Tensor):
        r = data.clone().detach()
        return r._cast(dtype) if dtype else r
    if is_seq(data):
        items = seq_items(data)
        ts = [tensor(x) for x in items]
        if not ts:
            return full((0,), 0, dtype or DEFAULT[0])
        r = stack(ts)
        return r._cast(dtype) if dtype else r
    t = scalar_like(data)
    t.__dict__["_wrapped"] = False
    return t._cast(dtype) if dtype else t


def _shape(a):
    if len(a) == 1 and is_seq(a[0]):
        a = tuple(seq_items(a[0]))
    sh = [as_ip(x) for x in a]
    for d in sh:
        if not decide(le(0, d)):
            raise RuntimeError("Trying to create tensor with negative dimension")
    return sh


def full(shape, v, dtype=None, **k):
    sh = _shape((shape,))
    dt = dtype or dtype_of_scalar(v)
    e = as_bc(v) if dt.kind == "b" else as_ip(v) if dt.kind == "i" else rp(v)
    return Tensor.make(sh, dt, lambda *i: e)


def zeros(*shape, dtype=None, **k):
    r = full(_shape(shape or (k.get("size"),)), 0, dtype or DEFAULT[0])
    if k.get("requires_grad"):
        r.requires_grad = True
    return r


def ones(*shape, dtype=None, **k):
    r = full(_shape(shape), 1, dtype or DEFAULT[0])
    if k.get("requires_grad"):
        r.requires_grad = True
    return r


def _cnt(name):
    ex = X()
    d = ex.__dict__.setdefault("_counters", {})
    key = (ex.npaths, name)
    d[key] = d.get(key, 0) + 1
    return "%s#%d" % (name, d[key])


def empty(*shape, dtype=None, **k):
    return Tensor.sym(_cnt("uninit"), _shape(shape), dtype or DEFAULT[0])


def randn(*shape, dtype=None, **k):
    return Tensor.sym(_cnt("randn"), _shape(shape), dtype or DEFAULT[0])


def rand(*shape, dtype=None, **k):
    return Tensor.sym(_cnt("rand"), _shape(shape), dtype or DEFAULT[0], nonneg=True)


def zeros_like(t, dtype=None, **k):
    return full(t.dims, 0, dtype or t._dtype)


def ones_like(t, dtype=None, **k):
    return full(t.dims, 1, dtype or t._dtype)


def full_like(t, v, dtype=None, **k):
    return full(t.dims, v, dtype or t._dtype)


def empty_like(t, dtype=None, **k):
    return empty(*t.dims, dtype=dtype or t._dtype)


def randn_like(t, dtype=None, **k):
    return randn(*[mk_int(d) for d in t.dims], dtype=dtype or t._dtype)


def rand_like(t, dtype=None, **k):
    return rand(*[mk_int(d) for d in t.dims], dtype=dtype or t._dtype)


def eye(n, m=None, dtype=None, **k):
    n = as_ip(n)
    m = n if m is None else as_ip(m)
    dt = dtype or DEFAULT[0]
    _shape((mk_int(n), mk_int(m)))
    return Tensor.make((n, m), dt, lambda i, j: ite_k(dt.kind, eq(i, j), ONE if dt.kind in "fc" else I(1), zero_of(dt.kind)))


def arange(*a, dtype=None, **k):
    a = [x for x in a]
    if len(a) == 1:
        st, en, step = 0, a[0], 1
    elif len(a) == 2:
        st, en, step = a[0], a[1], 1
    else:
        st, en, step = a
    if not (is_int(st) and isinstance(step, int)):
        raise Unsupported("float arange")
    if isinstance(en, (float, SReal)):
        raise Unsupported("float arange")
    st, en = as_ip(st), as_ip(en)
    n = en - st if step == 1 else (en - st + (step - 1)) // step
    if not decide(le(0, n)):
        raise RuntimeError("upper bound and lower bound inconsistent")
    t = Tensor.make((n,), int64, lambda i: i * step + st)
    return t._cast(dtype) if dtype else t


def linspace(start, end, steps=100, dtype=None, **k):
    n = as_ip(steps)
    a, b = rp(start), rp(end)
    dt = dtype or DEFAULT[0]
    if n.const() == 1:
        return Tensor.make((n,), dt, lambda i: a)
    return Tensor.make((n,), dt, lambda i: a + (b - a) * ipoly(i) * pinv(ipoly(n - 1)))


def stack(tensors, dim=0):
    if isinstance(tensors, Tensor):
        tensors = tensors._vc_seq()
    pieces = SSeq.of(tensors)
    c = pieces.clen()
    if c is not None:
        ts = pieces.concrete()
        if not ts:
            raise RuntimeError("stack expects a non-empty TensorList")
        sh = ts[0].dims
        dt = ts[0]._dtype
        for t in ts[1:]:
            if len(t.dims) != len(sh) or not all(a == b or decide(eq(a, b)) for a, b in zip(t.dims, sh)):
                raise RuntimeError("stack expects each tensor to be equal size")
            dt = promote(dt, t._dtype)
        d = ts[0]._dim(dim, 1)

        def f(*ix):
            k = ix[d]
            rest = ix[:d] + ix[d + 1:]
            kc = k.const()
            if kc is not None:
                return conv(ts[kc].el(*rest), ts[kc].kind, dt.kind)
            r = conv(ts[-1].el(*rest), ts[-1].kind, dt.kind)
            for q in range(len(ts) - 2, -1, -1):
                r = ite_k(dt.kind, eq(k, q), conv(ts[q].el(*rest), ts[q].kind, dt.kind), r)
            return r
        sh = list(sh)
        sh.insert(d, I(len(ts)))
        return Tensor.make(sh, dt, f, deps=ts)
    # symbolic number of tensors
    n = as_ip(pieces.length())
    if not decide(le(1, n)):
        raise RuntimeError("stack expects a non-empty TensorList")
    reps = []
    off = I(0)
    for pc in pieces.p:
        if isinstance(pc, Run) and not decide(le(1, pc.n)):
            continue
        if isinstance(pc, BRun):
            for r, g in enumerate(pc.gens):
                k = C.fresh(0, pc.nb)
                reps.append((off, pc.n, k, g(ivar(k)), pc.m, r))
        elif isinstance(pc, Run):
            k = C.fresh(0, pc.n)
            reps.append((off, pc.n, k, pc.at(ivar(k)), 1, 0))
        else:
            reps.append((off, I(1), C.fresh(0, 1), pc[1], 1, 0))
        off = off + (pc.n if isinstance(pc, Run) else 1)
    t0 = reps[0][3]
    dt = t0._dtype
    sh = None
    for off, ln, k, t, m, res in reps:
        if k in frozenset().union(*[d.fv for d in t.dims]) if t.dims else False:
            # all shapes must be equal
            t1 = [d.subst({k: I(0)}) for d in t.dims]
            if not decide_forall(band(*[eq(a, b) for a, b in zip(t1, t.dims)])):
                raise RuntimeError("stack expects each tensor to be equal size")
            dims = t1
        else:
            dims = list(t.dims)
        if sh is None:
            sh = dims
        elif len(sh) != len(dims) or not all(a == b or decide(eq(a, b)) for a, b in zip(sh, dims)):
            raise RuntimeError("stack expects each tensor to be equal size")
        dt = promote(dt, t._dtype)
    d = dim % (len(sh) + 1)

    def f(*ix):
        kx = ix[d]
        rest = ix[:d] + ix[d + 1:]
        r = None
        for off, ln, k, t, m, res in reversed(reps):
            j = kx - off
            inside = C.simp_bc(eq(j % m, res)) if m > 1 else TRUE
            if inside is FALSE:
                continue
            e = conv(esub(t.el(*rest), {k: j if m == 1 else (j - res) // m}), t.kind, dt.kind)
            if r is None:
                r = e
            else:
                r = ite_k(dt.kind, band(lt(kx, off + ln), inside) if m > 1 else lt(kx, off + ln), e, r)
        return r
    sh = list(sh)
    sh.insert(d, n)
    return Tensor.make(sh, dt, f, deps=[x[3] for x in reps])


def cat(tensors, dim=0, axis=None):
    dim = axis if axis is not None else dim
    sq = SSeq.of(tensors)
    c = sq.clen()
    if c is None:
        raise Unsupported("cat of a symbolic number of tensors")
    ts = sq.concrete()
    if not ts:
        raise RuntimeError("cat expects a non-empty list of Tensors")
    d = ts[0]._dim(dim)
    dt = ts[0]._dtype
    for t in ts[1:]:
        dt = promote(dt, t._dtype)
        if t.ndim != ts[0].ndim:
            raise RuntimeError("Tensors must have same number of dimensions")
        for k in range(t.ndim):
            if k != d and not (t.dims[k] == ts[0].dims[k] or decide(eq(t.dims[k], ts[0].dims[k]))):
                raise RuntimeError("Sizes of tensors must match except in dimension %d" % d)
    offs = [I(0)]
    for t in ts:
        offs.append(offs[-1] + t.dims[d])
    sh = list(ts[0].dims)
    sh[d] = offs[-1]

    def f(*ix):
        k = ix[d]
        r = None
        for q in range(len(ts) - 1, -1, -1):
            t = ts[q]
            if t.dims[d].const() == 0:
                continue
            idx = ix[:d] + (k - offs[q],) + ix[d + 1:]
            if r is None:
                r = conv(t.el(*idx), t.kind, dt.kind)
                continue
            cnd = C.simp_bc(lt(k, offs[q + 1]))
            if cnd is FALSE:
                continue
            with C.assume(cnd):
                e = conv(t.el(*idx), t.kind, dt.kind)
            r = ite_k(dt.kind, cnd, e, r)
        return r if r is not None else zero_of(dt.kind)
    return Tensor.make(sh, dt, f, deps=ts)


concat = concatenate = cat


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    if not isinstance(a, Tensor):
        a = scalar_like(a)
    if not isinstance(b, Tensor):
        b = scalar_like(b)
    dt = result_type(a, b)
    sh, (mc, ma, mb) = broadcast_shapes([c.dims, a.dims, b.dims])
    k = dt.kind
    return Tensor.make(sh, dt, lambda *i: ite_k(k, conv(c.el(*mc(i)), c.kind, "b"), conv(a.el(*ma(i)), a.kind, k), conv(b.el(*mb(i)), b.kind, k)), deps=(a, b))


def matmul(a, b):
    if a._dtype is not b._dtype:
        raise RuntimeError("expected m1 and m2 to have the same dtype")
    if a.kind not in "fc":
        a2, b2 = a, b
    if a.ndim == 0 or b.ndim == 0:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a.unsqueeze(0)
    if b1:
        b = b.unsqueeze(1)
    if not (a.dims[-1] == b.dims[-2] or decide(eq(a.dims[-1], b.dims[-2]))):
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
    n = a.dims[-1]
    bs, (ma, mb) = broadcast_shapes([a.dims[:-2], b.dims[:-2]])
    sh = list(bs)
    if not a1:
        sh.append(a.dims[-2])
    if not b1:
        sh.append(b.dims[-1])
    nb = len(bs)

    def f(*ix):
        bi = ix[:nb]
        rest = list(ix[nb:])
        i = I(0) if a1 else rest.pop(0)
        j = I(0) if b1 else rest.pop(0)
        k = C.fresh(0, n)
        if a.kind == "i":
            raise Unsupported("integer matmul")
        return ssum(k, I(0), n, a.el(*(ma(bi) + [i, ivar(k)])) * b.el(*(mb(bi) + [ivar(k), j])))
    return Tensor.make(sh, a._dtype, f, deps=(a, b))


def einsum(spec, *ops, **kw):
    if len(ops) == 1 and is_seq(ops[0]):
        ops = tuple(seq_items(ops[0]))
    if not isinstance(spec, str):
        raise Unsupported("einsum sublist format")
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins, out = spec, None
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise RuntimeError("einsum(): more operands were provided than specified in the equation" if len(ins) < len(ops) else "einsum(): fewer operands were provided than specified in the equation")
    for o in ops:
        if not isinstance(o, Tensor):
            raise Unsupported("einsum operand")
    dt = ops[0]._dtype
    mixed = any(o._dtype is not dt for o in ops[1:])
    for o in ops[1:]:
        dt = promote(dt, o._dtype)
    # ellipsis
    ell = 0
    labs = []
    for s, o in zip(ins, ops):
        if "..." in s:
            k = o.ndim - (len(s) - 3)
            if k < 0:
                raise RuntimeError("einsum(): the number of subscripts doesn't match the operand")
            ell = max(ell, k)
    names = [chr(0x3b1 + q) for q in range(ell)]
    for s, o in zip(ins, ops):
        if "..." in s:
            k = o.ndim - (len(s) - 3)
            a, b = s.split("...")
            l = list(a) + names[ell - k:] + list(b)
        else:
            l = list(s)
        if len(l) != o.ndim:
            raise RuntimeError("einsum(): the number of subscripts in the equation (%d) does not match the number of dimensions (%d)" % (len(l), o.ndim))
        labs.append(l)
    if out is None:
        cnt = {}
        for l in labs:
            for c in l:
                cnt[c] = cnt.get(c, 0) + 1
        outl = [c for c in names] + sorted(c for c in cnt if cnt[c] == 1 and c not in names)
    else:
        if "..." in out:
            a, b = out.split("...")
            outl = list(a) + names + list(b)
        else:
            outl = list(out)
    dim = {}
    one = set()
    for q, (l, o) in enumerate(zip(labs, ops)):
        for p, c in enumerate(l):
            d = o.dims[p]
            if c not in dim:
                dim[c] = d
            elif d == dim[c] or C.entails(eq(d, dim[c])):
                pass
            elif decide(eq(d, dim[c])):
                pass
            elif decide(eq(d, 1)):
                one.add((q, p))
            elif decide(eq(dim[c], 1)):
                for q2, (l2, o2) in enumerate(zip(labs[:q + 1], ops)):
                    for p2, c2 in enumerate(l2):
                        if c2 == c and (q2, p2) < (q, p):
                            one.add((q2, p2))
                dim[c] = d
            else:
                raise RuntimeError("einsum(): subscript %s has size mismatch" % c)
    if len(set(outl)) != len(outl):
        raise RuntimeError("einsum(): output subscript appears more than once")
    for c in outl:
        if c not in dim:
            raise RuntimeError("einsum(): output subscript %s does not appear in the equation for any input operand" % c)
    summed = [c for c in dim if c not in outl]
    if mixed and any(sum(c in l for l in labs) > 1 for c in summed):
        # contractions need one scalar type, element-wise products promote
        raise RuntimeError("expected scalar type to match in einsum")

    def f(*ix):
        at = dict(zip(outl, ix))
        bs = []
        for c in summed:
            n = C.fresh(0, dim[c])
            at[c] = ivar(n)
            bs.append((n, I(0), dim[c]))
        r = ONE
        for q, (l, o) in enumerate(zip(labs, ops)):
            r = r * o.pel(*[I(0) if (q, p) in one else at[c] for p, c in enumerate(l)])
        return msum(bs, r)
    if len(ops) == 1 and not summed and len(set(labs[0])) == len(labs[0]):
        t = ops[0]
        return t._perm([labs[0].index(c) for c in outl])
    return Tensor.make([dim[c] for c in outl], dt, f, deps=ops)


def trapz(y, x=None, dim=-1, dx=1):
    d = y._dim(dim)
    n = y.dims[d]
    if x is None:
        raise Unsupported("trapz without sample points")
    if x.ndim != 1 or not decide(eq(x.dims[0], n)):
        raise RuntimeError("trapz: bad sample points")
    k = x._dtype if x._dtype.prec > y._dtype.prec else y._dtype
    sh = y.dims[:d] + y.dims[d + 1:]

    def f(*ix):
        s = C.fresh(0, n - 1)
        i = ivar(s)
        a = y.pel(*(ix[:d] + (i,) + ix[d:]))
        b = y.pel(*(ix[:d] + (i + 1,) + ix[d:]))
        w = x.pel(i + 1) - x.pel(i)
        return ssum(s, I(0), n - 1, (a + b) * w * P(Fraction(1, 2)))
    return Tensor.make(sh, promote(y._dtype, x._dtype), f, deps=(y, x))


OPAQUE = [0]


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    """real-arithmetic reading: equality of all entries; a loose tolerance says nothing"""
    if any(isinstance(t, (int, float)) and t > 1e-3 for t in (rtol, atol)):
        return X().choose(2, "loose allclose") == 0
    if real_of(a._dtype) is not real_of(b._dtype) or a._dtype is not b._dtype:
        if a._dtype is not b._dtype:
            raise RuntimeError("Float did not match other dtype in allclose")
    sh, (ma, mb) = broadcast_shapes([a.dims, b.dims])
    ix = fresh_ix(sh)
    i = [ivar(x) for x in ix]
    d = a.pel(*ma(i)) - b.pel(*mb(i))
    if not d.d:
        return True
    from .prove import prove_eq
    if prove_eq(d, ZERO) is True:
        return True
    bc = mkreq(d)
    for x, dd in zip(reversed(ix), reversed(sh)):
        bc = mk_forall(x, dd, bc)
    return decide(bc)


def logsumexp(t, dim=None, keepdim=False):
    e = t.exp()
    return e.sum(dim, keepdim).log()


def svd(a, some=True, compute_uv=True):
    """contract: U diag(S) V^T = A, U^T U = V^T V = 1, S >= 0 descending"""
    if a.ndim != 2:
        raise Unsupported("batched svd")
    m, n = a.dims
    if m == n or decide(le(m, n)):
        k = m
    else:
        k = n
    nm = _cnt("svd")
    U = Tensor.sym(nm + "U", (m, k), a._dtype)
    S = Tensor.sym(nm + "S", (k,), real_of(a._dtype), nonneg=True)
    V = Tensor.sym(nm + "V", (n, k), a._dtype)
    X().svds = getattr(X(), "svds", {})
    X().svds[nm] = (a, m, n, k)
    return U, S, V


def sort(t, dim=-1, descending=False, stable=False):
    """only the singular values returned by svd (already descending) can be sorted symbolically"""
    o = t.st.origin or ""
    if descending and t.ndim == 1 and o.startswith("svd#") and o.endswith("S"):
        return t, arange(mk_int(t.dims[0]))
    raise Unsupported("sort")
