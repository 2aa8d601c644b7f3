"""Library contracts: stand-ins for torch, torch.nn, numpy, math, itertools, functools, ... seen by the code
under verification.  Every function here is an *assumed contract* on a dependency."""
import json
import os
import types
import math as _math
from .ints import *
from .terms import *
from .values import *
from .seqs import *
from . import tensor as T
from .tensor import Tensor
from . import ctx as C

_NAMES = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "names.json")))


class FakeModule:
    """module object; missing names are AttributeErrors only if the real library lacks them too"""

    def __init__(self, _name, _realnames=(), /, **attrs):
        self.__dict__.update(attrs)
        self.__dict__["__name__"] = _name
        self.__dict__["_real"] = set(_realnames)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if not self._real or k in self._real:
            raise Unsupported("%s.%s" % (self.__dict__["__name__"], k))
        raise AttributeError("module %r has no attribute %r" % (self.__dict__["__name__"], k))


# ------------------------------------------------------------------ no_grad
class _Grad:
    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        self.old = X().grad
        X().grad = self.mode
        return self

    def __exit__(self, *a):
        X().grad = self.old
        return False

    def __call__(self, f):
        import functools
        mode = self.mode

        @functools.wraps(f)
        def g(*a, **k):
            with _Grad(mode):
                return f(*a, **k)
        return g


def no_grad(f=None):
    g = _Grad(False)
    return g(f) if f is not None else g


def enable_grad(f=None):
    g = _Grad(True)
    return g(f) if f is not None else g


def set_grad_enabled(m):
    g = _Grad(m)
    g.old = X().grad
    X().grad = m
    return g


# ------------------------------------------------------------------ nn
class Parameter(Tensor):
    def __new__(cls, data=None, requires_grad=True):
        if data is None:
            data = T.zeros(0)
        if not isinstance(data, Tensor):
            raise TypeError("Parameter data must be a tensor")
        if requires_grad and data.kind not in "fc":
            raise RuntimeError("Only Tensors of floating point and complex dtype can require gradients")
        r = Tensor._raw(data.st, data.vm, data.ix, data.dims, data._dtype, cls)
        r.__dict__["_leaf"] = bool(requires_grad)
        r.__dict__["_rg"] = bool(requires_grad)
        r.__dict__["_pid"] = "p%d" % data.st.sid
        r.__dict__["_nolin"] = True
        r.__dict__["_param"] = True
        return r

    def __init__(self, *a, **k):
        pass


class Module:
    training = True

    def __init__(self, *a, **k):
        d = self.__dict__
        d["_parameters"], d["_buffers"], d["_modules"] = {}, {}, {}
        d["training"] = True

    def forward(self, *a, **k):
        raise NotImplementedError

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def __setattr__(self, k, v):
        d = self.__dict__
        pa, bu, mo = d.get("_parameters"), d.get("_buffers"), d.get("_modules")
        if isinstance(v, Parameter):
            if pa is None:
                raise AttributeError("cannot assign parameters before Module.__init__() call")
            for s in (d, bu, mo):
                s.pop(k, None)
            pa[k] = v
        elif pa is not None and k in pa:
            if v is not None:
                raise TypeError("cannot assign as parameter %r" % k)
            pa[k] = None
        elif isinstance(v, Module):
            if mo is None:
                raise AttributeError("cannot assign module before Module.__init__() call")
            for s in (d, pa, bu):
                s.pop(k, None)
            mo[k] = v
        elif mo is not None and k in mo:
            if v is not None:
                raise TypeError("cannot assign as child module %r" % k)
            mo[k] = None
        elif bu is not None and k in bu:
            if v is not None and not isinstance(v, Tensor):
                raise TypeError("cannot assign as buffer %r" % k)
            bu[k] = v
        else:
            object.__setattr__(self, k, v)

    def __getattr__(self, k):
        d = self.__dict__
        for s in ("_parameters", "_buffers", "_modules"):
            if s in d and k in d[s]:
                return d[s][k]
        if k in _MODNAMES and not k.startswith("__"):
            raise Unsupported("nn.Module.%s" % k)
        raise AttributeError("%r object has no attribute %r" % (type(self).__name__, k))

    def __delattr__(self, k):
        for s in ("_parameters", "_buffers", "_modules"):
            if k in self.__dict__[s]:
                del self.__dict__[s][k]
                return
        object.__delattr__(self, k)

    def register_parameter(self, name, param):
        if "_parameters" not in self.__dict__:
            raise AttributeError("cannot assign parameter before Module.__init__() call")
        if hasattr(self, name) and name not in self._parameters:
            raise KeyError("attribute %r already exists" % name)
        if param is not None and not isinstance(param, Parameter):
            raise TypeError("cannot assign object as parameter %r" % name)
        self._parameters[name] = param

    def register_buffer(self, name, tensor, persistent=True):
        if "_buffers" not in self.__dict__:
            raise AttributeError("cannot assign buffer before Module.__init__() call")
        if hasattr(self, name) and name not in self._buffers:
            raise KeyError("attribute %r already exists" % name)
        if tensor is not None and not isinstance(tensor, Tensor):
            raise TypeError("cannot assign object to buffer %r" % name)
        self._buffers[name] = tensor

    def add_module(self, name, m):
        self._modules[name] = m

    register_module = add_module

    def modules(self):
        return iter([m for _, m in self.named_modules()])

    def named_modules(self, memo=None, prefix=""):
        memo = [] if memo is None else memo
        out = []
        if not any(self is m for m in memo):
            memo.append(self)
            out.append((prefix, self))
            for n, m in self._modules.items():
                if m is not None:
                    out += list(m.named_modules(memo, prefix + ("." if prefix else "") + n))
        return out

    def children(self):
        return iter([m for m in self._modules.values() if m is not None])

    def named_children(self):
        return iter([(n, m) for n, m in self._modules.items() if m is not None])

    def named_parameters(self, prefix="", recurse=True):
        out, seen = [], []
        for p, m in (self.named_modules(prefix=prefix) if recurse else [(prefix, self)]):
            for n, v in m._parameters.items():
                if v is not None and not any(v is s for s in seen):
                    seen.append(v)
                    out.append((p + ("." if p else "") + n, v))
        return iter(out)

    def parameters(self, recurse=True):
        return iter([v for _, v in self.named_parameters(recurse=recurse)])

    def named_buffers(self, prefix="", recurse=True):
        out = []
        for p, m in (self.named_modules(prefix=prefix) if recurse else [(prefix, self)]):
            for n, v in m._buffers.items():
                if v is not None:
                    out.append((p + ("." if p else "") + n, v))
        return iter(out)

    def buffers(self, recurse=True):
        return iter([v for _, v in self.named_buffers(recurse=recurse)])

    def train(self, mode=True):
        for m in self.modules():
            m.__dict__["training"] = mode
        return self

    def eval(self):
        return self.train(False)

    def requires_grad_(self, v=True):
        for p in self.parameters():
            p.requires_grad_(v)
        return self

    def extra_repr(self):
        return ""

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


_MODNAMES = {"state_dict", "load_state_dict", "to", "double", "float", "half", "cuda", "cpu", "apply", "type", "zero_grad",
             "register_forward_hook", "register_full_backward_hook", "register_forward_pre_hook", "get_parameter", "get_submodule", "share_memory", "register_load_state_dict_post_hook", "_apply"}


class ModuleList(Module):
    def __init__(self, modules=None):
        super().__init__()
        if modules is not None:
            for m in SSeq.of(modules).concrete():
                self.append(m)

    def append(self, m):
        self._modules[str(len(self._modules))] = m
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def insert(self, i, m):
        l = list(self._modules.values())
        l.insert(i, m)
        self.__dict__["_modules"] = {str(k): v for k, v in enumerate(l)}

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(list(self._modules.values()))

    def __getitem__(self, i):
        l = list(self._modules.values())
        if isinstance(i, slice):
            return type(self)(l[i])
        return l[as_ip(i).__index__()]

    def __setitem__(self, i, m):
        k = as_ip(i).__index__()
        self._modules[str(k if k >= 0 else k + len(self._modules))] = m

    def __contains__(self, m):
        return any(m is x for x in self._modules.values())


class Sequential(Module):
    def __init__(self, *ms):
        super().__init__()
        for i, m in enumerate(ms):
            self._modules[str(i)] = m

    def forward(self, x):
        for m in self._modules.values():
            x = m(x)
        return x

    __len__, __iter__, __getitem__ = ModuleList.__len__, ModuleList.__iter__, ModuleList.__getitem__
    append = ModuleList.append


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features, self.out_features = in_features, out_features
        n = T._cnt("linear")
        self.weight = Parameter(Tensor.sym(n + "w", (out_features, in_features)))
        if bias:
            self.bias = Parameter(Tensor.sym(n + "b", (out_features,)))
        else:
            self.register_parameter("bias", None)

    def forward(self, x):
        if x._dtype is not self.weight._dtype:
            raise RuntimeError("mat1 and mat2 must have the same dtype")
        y = T.matmul(x, self.weight.t())
        return y if self.bias is None else y + self.bias


class _Act(Module):
    def forward(self, x):
        return getattr(x, self._f)()


class Sigmoid(_Act):
    _f = "sigmoid"


class Tanh(_Act):
    _f = "tanh"


class ReLU(_Act):
    _f = "relu"


class Identity(Module):
    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, x):
        return x


# ------------------------------------------------------------------ torch functions
def _m(name):
    def f(t, *a, **k):
        if not isinstance(t, Tensor):
            raise TypeError("%s(): argument must be Tensor, not %s" % (name, type(t).__name__))
        k.pop("input", None)
        return getattr(t, name)(*a, **k)
    f.__name__ = name
    return f


def _sum(t, *a, **k):
    if not isinstance(t, Tensor):
        raise TypeError("sum(): argument 'input' must be Tensor, not %s" % type(t).__name__)
    if "axis" in k:
        k["dim"] = k.pop("axis")
    return t.sum(*a, **k)


def _from_numpy(a):
    if not isinstance(a, Tensor):
        raise TypeError("expected np.ndarray")
    return a


def _binop(op):
    def f(a, b, **k):
        return op(a, b)
    return f


import operator as _op


def _maximum(a, b):
    return T.where(a >= b, a, b)


def _outer(a, b):
    return a[:, None] * b[None, :]


def make_torch():
    fns = {}
    for n in ("abs exp log sqrt cos sin sigmoid tanh floor sign square rsqrt reciprocal transpose permute t squeeze unsqueeze "
              "reshape flatten trace diag diagonal diag_embed flip unbind split chunk clamp mean prod norm gather scatter index_select "
              "conj real imag isfinite isnan isinf clone all any mm bmm mv dot logical_not numel is_complex is_floating_point "
              "broadcast_to max argmax diagonal narrow select masked_fill detach unflatten "
              "view_as_real allclose").split():
        fns[n] = _m(n)
    fns["absolute"] = fns["abs"]
    fns["swapaxes"] = fns["swapdims"] = fns["transpose"]
    fns["adjoint"] = lambda t: t.mH
    fns["sum"] = _sum
    fns["is_tensor"] = lambda x: isinstance(x, Tensor)
    for n in "stack cat where matmul einsum trapz allclose logsumexp svd sort zeros ones empty full eye arange linspace randn rand zeros_like ones_like full_like empty_like randn_like rand_like tensor".split():
        fns[n] = getattr(T, n)
    fns["concat"] = fns["concatenate"] = fns["cat"]
    fns["trapezoid"] = T.trapz
    fns["as_tensor"] = lambda x, dtype=None, **k: x if isinstance(x, Tensor) and dtype in (None, x._dtype) else (x._cast(dtype) if isinstance(x, Tensor) else T.tensor(x, dtype=dtype))
    for n, o in (("add", _op.add), ("sub", _op.sub), ("mul", _op.mul), ("div", _op.truediv), ("true_divide", _op.truediv), ("pow", _op.pow), ("eq", _op.eq),
                 ("ne", _op.ne), ("lt", _op.lt), ("le", _op.le), ("gt", _op.gt), ("ge", _op.ge), ("multiply", _op.mul), ("divide", _op.truediv),
                 ("logical_and", _op.and_), ("logical_or", _op.or_), ("subtract", _op.sub)):
        fns[n] = _binop(o)
    fns["maximum"] = _maximum
    fns["outer"] = fns["ger"] = _outer
    fns["no_grad"], fns["enable_grad"], fns["set_grad_enabled"], fns["inference_mode"] = no_grad, enable_grad, set_grad_enabled, no_grad
    fns["is_grad_enabled"] = lambda: X().grad
    fns["manual_seed"] = lambda *a: None
    fns["complex"] = lambda a, b: a + b * 1j
    fns["polar"] = lambda a, b: a * (b * 1j).exp()
    fns["get_default_dtype"] = lambda: T.DEFAULT[0]
    fns["result_type"] = lambda a, b: T.result_type(a, b)
    fns["promote_types"] = T.promote
    fns["broadcast_tensors"] = lambda *ts: tuple(_bt(ts))
    fns["broadcast_shapes"] = lambda *ss: T.Size(mk_int(d) for d in T.broadcast_shapes([tuple(as_ip(x) for x in s) for s in ss])[0])
    for n in ("float16", "float32", "float64", "complex64", "complex128", "int64", "int32", "uint8"):
        fns[n] = getattr(T, n)
    fns["float"], fns["double"], fns["long"], fns["int"], fns["bool"], fns["cfloat"], fns["cdouble"], fns["half"] = \
        T.float32, T.float64, T.int64, T.int32, T.bool_, T.complex64, T.complex128, T.float16
    fns["Tensor"], fns["Size"], fns["device"], fns["dtype"] = Tensor, T.Size, T.Device, T.DType
    fns["pi"], fns["inf"], fns["nan"] = _math.pi, _math.inf, _math.nan
    fns["from_numpy"] = _from_numpy
    nn = FakeModule("torch.nn", _NAMES["nn"], Module=Module, Parameter=Parameter, ModuleList=ModuleList, Sequential=Sequential, Linear=Linear,
                    Sigmoid=Sigmoid, Tanh=Tanh, ReLU=ReLU, Identity=Identity)
    nn.__dict__["functional"] = FakeModule("torch.nn.functional", _NAMES["F"], sigmoid=_m("sigmoid"))
    nn.__dict__["parameter"] = FakeModule("torch.nn.parameter", (), Parameter=Parameter)
    nn.__dict__["modules"] = FakeModule("torch.nn.modules", ())
    fns["nn"] = nn
    fns["linalg"] = FakeModule("torch.linalg", _NAMES["linalg"], norm=_linalg_norm, matmul=T.matmul, vector_norm=_linalg_norm)
    fns["cuda"] = FakeModule("torch.cuda", (), is_available=lambda: False)
    t = FakeModule("torch", _NAMES["torch"], **fns)
    t.__dict__["random"] = FakeModule("torch.random", (), manual_seed=lambda *a: None)
    return t


def _linalg_norm(t, ord=None, dim=None, keepdim=False):
    if ord not in (None, 2, "fro"):
        raise Unsupported("linalg.norm ord")
    return t.norm(2, dim, keepdim)


def _bt(ts):
    sh, _ = T.broadcast_shapes([t.dims for t in ts])
    return [t.expand(*[mk_int(d) for d in sh]) for t in ts]


# ------------------------------------------------------------------ math
def _sc(x):
    if isinstance(x, Tensor):
        return x._as_poly()
    return rp(x)


def m_sqrt(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        if x >= 0 and x == int(x) and _math.isqrt(int(x)) ** 2 != x:
            return mk_real(psqrt(P(int(x))))
        return _math.sqrt(x)
    p = _sc(x)
    if sign(p) not in ("pos", "nonneg") and sign(p) is not None and False:
        pass
    return mk_real(psqrt(p))


def m_log(x, base=None):
    if base is not None:
        return m_log(x) / m_log(base)
    if isinstance(x, (int, float)):
        return mk_real(plog(P(x))) if x > 0 else _math.log(x)
    return mk_real(plog(_sc(x)))


def m_exp(x):
    if isinstance(x, (int, float)) and x == 0:
        return 1.0
    return mk_real(pexp(_sc(x)))


def m_prod(xs, start=1):
    r = start
    for x in SSeq.of(xs).concrete():
        r = r * x
    return r


def m_ceil(x):
    if isinstance(x, (int, SInt)):
        return x
    if isinstance(x, float):
        return _math.ceil(x)
    ip = T.poly_to_ip(_sc(x))
    if ip is not None:
        return mk_int(ip)
    q = _ratio(_sc(x))
    if q is None:
        raise Unsupported("math.ceil")
    return mk_int((q[0] + (q[1] - 1)) // q[1])


def m_floor(x):
    if isinstance(x, (int, SInt)):
        return x
    if isinstance(x, float):
        return _math.floor(x)
    q = _ratio(_sc(x))
    if q is None:
        raise Unsupported("math.floor")
    return mk_int(q[0] // q[1])


def _ratio(p):
    """p = integer expression / constant"""
    d = 1
    for c in p.d.values():
        d = d * c.denominator // _math.gcd(d, c.denominator)
    ip = T.poly_to_ip(p * P(d))
    return None if ip is None else (ip, d)


def make_math():
    real = dir(_math)
    return FakeModule("math", real, sqrt=m_sqrt, log=m_log, exp=m_exp, pi=_math.pi, inf=_math.inf, nan=_math.nan, e=_math.e, prod=m_prod,
                      ceil=m_ceil, floor=m_floor, comb=_comb, factorial=_math.factorial, gcd=_math.gcd, isfinite=lambda x: True if not isinstance(x, float) else _math.isfinite(x),
                      cos=lambda x: mk_real(T.trigfn("cos", _sc(x))) if not isinstance(x, (int, float)) else _math.cos(x),
                      sin=lambda x: mk_real(T.trigfn("sin", _sc(x))) if not isinstance(x, (int, float)) else _math.sin(x),
                      isclose=_math.isclose, log2=_l2)


def _l2(x):
    raise Unsupported("math.log2")


def _comb(n, k):
    if isinstance(n, int) and isinstance(k, int):
        return _math.comb(n, k)
    c = C
    C.APPAX["comb"] = lambda a, b: [le(1, iapp("comb", a, b))] if C.entails(band(le(0, b), le(b, a))) else [le(0, iapp("comb", a, b))]
    return mk_int(iapp("comb", as_ip(n), as_ip(k)))


def _binom(n, k):
    r = _comb(n, k)
    return float(r) if isinstance(r, int) else mk_real(P(as_ip(r)))


# ------------------------------------------------------------------ itertools / functools
def it_repeat(x, times=None):
    if times is None:
        return SSeq.map(INFTY(), lambda i: x)
    return SSeq.map(as_ip(times) if decide(le(0, as_ip(times))) else I(0), lambda i: x)


def INFTY():
    raise Unsupported("infinite iterator")


def it_chain(*ss):
    r = SSeq([])
    for s in ss:
        r = r + SSeq.of(s)
    return r


class _Chain:
    def __call__(self, *ss):
        return it_chain(*ss)

    def from_iterable(self, ss):
        return it_chain(*SSeq.of(ss).concrete())


def it_accumulate(xs, f=None, **k):
    import itertools
    return SSeq.of(list(itertools.accumulate(SSeq.of(xs).concrete(), f or _op.add, **k)))


def it_product(*ss, **k):
    import itertools
    return SSeq.of(list(itertools.product(*[SSeq.of(s).concrete() for s in ss], **k)))


def it_islice(s, *a):
    return SSeq.of(s).slice(slice(*a))


def it_pairwise(s):
    s = SSeq.of(s)
    return vc_zip(s, s.slice(slice(1, None)))


def it_starmap(f, s):
    return SSeq.of(s).mapv(lambda a: f(*a))


def make_itertools():
    import itertools
    return FakeModule("itertools", dir(itertools), repeat=it_repeat, chain=_Chain(), accumulate=it_accumulate, product=it_product,
                      islice=it_islice, pairwise=it_pairwise, starmap=it_starmap, count=itertools.count)


# ------------------------------------------------------------------ numpy
class NpRandom:
    """numpy arrays are tensors here; shuffle applies a permutation determined by the generator state and the length"""

    def __init__(self):
        self.state = None

    def seed(self, s=None):
        self.state = ("%s" % s, 0) if isinstance(s, int) else None

    def _perm(self, n):
        if self.state is None:
            nm = T._cnt("perm")
        else:
            nm = "perm_%s_%d" % self.state
            self.state = (self.state[0], self.state[1] + 1)
        C.APPAX[nm] = lambda n_, i: [bor(lt(i, 0), le(n_, i), le(0, iapp(nm, n_, i))), bor(lt(i, 0), le(n_, i), lt(iapp(nm, n_, i), n_))]
        X().note("perm:" + nm)
        return lambda i: iapp(nm, n, i)

    def shuffle(self, t):
        if not isinstance(t, Tensor):
            raise Unsupported("numpy.random.shuffle of a list")
        n = t.dims[0]
        pf = self._perm(n)
        old = t.clone()
        t._write(lambda *ix: old.el(*((pf(ix[0]),) + tuple(ix[1:]))), (t,))

    def permutation(self, n):
        if isinstance(n, Tensor):
            r = n.clone()
            self.shuffle(r)
            return r
        n = as_ip(n)
        pf = self._perm(n)
        return Tensor.make((n,), T.int64, pf)

    def __getattr__(self, k):
        raise Unsupported("numpy.random." + k)


def _npdt(d):
    if d is None:
        return T.float64
    if isinstance(d, T.DType):
        return d
    if d is _math.pi:
        raise TypeError("dtype")
    nm = getattr(d, "__name__", d)
    r = {"float": T.float64, "int": T.int64, "bool": T.bool_}.get(nm)
    if r is None:
        raise Unsupported("numpy dtype %r" % (d,))
    return r


def make_numpy():
    n = FakeModule("numpy", _NAMES["numpy"], pi=_math.pi, inf=_math.inf, nan=_math.nan, sqrt=m_sqrt, log=m_log, exp=m_exp, prod=m_prod,
                   ceil=m_ceil, floor=m_floor, float32=T.float32, float64=T.float64, int64=T.int64, int32=T.int32, uint8=T.uint8, bool_=T.bool_,
                   empty=lambda s, dtype=None: T.empty(s, dtype=_npdt(dtype)), zeros=lambda s, dtype=None: T.zeros(s, dtype=_npdt(dtype)),
                   ones=lambda s, dtype=None: T.ones(s, dtype=_npdt(dtype)), arange=T.arange, concatenate=lambda ts, axis=0: T.cat(ts, axis),
                   stack=lambda ts, axis=0: T.stack(ts, axis), array=lambda d, dtype=None: T.tensor(d, dtype=_npdt(dtype) if dtype is not None else None))
    n.__dict__["random"] = NpRandom()
    return n
