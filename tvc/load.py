"""Mechanical loading of /repo's current source for symbolic execution.

The AST transformation keeps every statement; it only redirects (a) loops and comprehensions to the loop rule,
(b) list/tuple displays with possibly symbolic length, (c) attribute / item assignment to a logging wrapper and
(d) builtins and imports to the symbolic versions.  Nothing else is changed or dropped (docstrings, annotations
and type hints are evaluated as usual)."""
import ast
import builtins
import copy as _copy
import functools as _functools
import hashlib
import operator as _operator
import os
import types
import typing
from .ints import *
from .terms import *
from .values import *
from .seqs import *
from . import tensor as T
from .tensor import Tensor
from . import torchlib as L
from .loops import For, While
from . import ctx as C

REPO = os.environ.get("TVC_REPO", "/repo")


# ------------------------------------------------------------------ AST transformation
class Names(ast.NodeVisitor):
    def __init__(self):
        self.n = []

    def add(self, x):
        if x not in self.n and not x.startswith("_tvc"):
            self.n.append(x)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        # the exception variable is unbound afterwards anyway
        for b in n.body:
            self.visit(b)


def stored(nodes):
    v = Names()
    for n in nodes:
        v.visit(n)
    return v.n


def N(s, ctx=None):
    return ast.Name(id=s, ctx=ctx or ast.Load())


def call(f, *args):
    return ast.Call(func=ast.Attribute(value=N("_tvc"), attr=f, ctx=ast.Load()), args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


class Tr(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.k = 0
        self.stack = []

    def site(self, node):
        # position independent: function qualified name + ordinal of the loop within it
        q = ".".join(self.stack)
        self.cnt[q] = self.cnt.get(q, 0) + 1
        return "%s:%s#%d" % (self.fname, q, self.cnt[q])

    cnt = None

    def tmp(self):
        self.k += 1
        return "_tvc_%d" % self.k

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        saved, self.lv = getattr(self, "lv", []), []
        n = self.generic_visit(n)
        self.lv = saved
        self.stack.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n = self.generic_visit(n)
        self.stack.pop()
        return n

    lv = []

    def rebind(self, h, names):
        out = []
        for n in names:
            out.append(ast.If(test=ast.Call(func=ast.Attribute(value=N(h), attr="has", ctx=ast.Load()), args=[const(n)], keywords=[]),
                              body=[ast.Assign(targets=[N(n, ast.Store())], value=ast.Call(func=ast.Attribute(value=N(h), attr="val", ctx=ast.Load()), args=[const(n)], keywords=[]))],
                              orelse=[]))
        if not out:
            return []
        return [ast.If(test=ast.Attribute(value=N(h), attr="rebind", ctx=ast.Load()), body=out, orelse=[])]

    def meth(self, h, m, *args):
        return ast.Call(func=ast.Attribute(value=N(h), attr=m, ctx=ast.Load()), args=list(args), keywords=[])

    def visit_For(self, n):
        site = self.site(n)
        names = stored([n.target] + n.body + n.orelse)
        h = self.tmp()
        it = self.visit(n.iter)
        self.lv = self.lv + [h]
        body = [self.visit(b) for b in n.body]
        self.lv = self.lv[:-1]
        body = flat(body)
        orelse = flat([self.visit(b) for b in n.orelse])
        tgt = self.visit(n.target)
        loop = ast.While(test=self.meth(h, "head", ast.Call(func=N("_tvc_locals"), args=[], keywords=[])),
                         body=self.rebind(h, names) + [ast.Assign(targets=[tgt], value=self.meth(h, "item"))] + body,
                         orelse=self.rebind(h, names) + orelse)
        return [ast.Assign(targets=[N(h, ast.Store())], value=call("For", it, const(site), const(tuple(names)))), loop]

    def visit_While(self, n):
        if n.orelse:
            return [ast.Expr(call("unsupported", const("while-else")))]
        site = self.site(n)
        names = stored(n.body)
        h = self.tmp()
        c = self.tmp()
        test = self.visit(n.test)
        self.lv = self.lv + [h]
        body = flat([self.visit(b) for b in n.body])
        self.lv = self.lv[:-1]
        # head: while True: __c = h.test(cond); rebind; if __c != "again": break
        inner = ast.While(test=const(True), body=[
            ast.Assign(targets=[N(c, ast.Store())], value=self.meth(h, "test", test))] + self.rebind(h, names) + [
            ast.If(test=ast.Compare(left=N(c), ops=[ast.NotEq()], comparators=[const("again")]), body=[ast.Break()], orelse=[])], orelse=[])
        outer = ast.While(test=const(True), body=[ast.Expr(self.meth(h, "head", ast.Call(func=N("_tvc_locals"), args=[], keywords=[])))] +
                          self.rebind(h, names) + [inner, ast.If(test=ast.UnaryOp(op=ast.Not(), operand=N(c)), body=[ast.Break()], orelse=[])] + body, orelse=[])
        return [ast.Assign(targets=[N(h, ast.Store())], value=call("While", const(site), const(tuple(names)))), outer]

    def visit_Break(self, n):
        if self.lv:
            return [ast.Expr(self.meth(self.lv[-1], "brk")), n]
        return n

    # comprehensions
    def comp(self, n, kind):
        for g in n.generators:
            if g.is_async:
                return call("unsupported", const("async comprehension"))
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                return call("unsupported", const("walrus in comprehension"))
        def build(k):
            if k == len(n.generators):
                if kind == "dict":
                    return ast.Tuple(elts=[self.visit(_copy.deepcopy(n.key)), self.visit(_copy.deepcopy(n.value))], ctx=ast.Load())
                return self.visit(_copy.deepcopy(n.elt))
            g = n.generators[k]
            inner = build(k + 1)
            conds = [self.visit(_copy.deepcopy(c)) for c in g.ifs]
            cond = None if not conds else conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)
            it = self.visit(_copy.deepcopy(g.iter))
            f = self.lam(g.target, inner)
            cf = const(None) if cond is None else self.lam(g.target, cond)
            return call("comp", const(k + 1 < len(n.generators)), it, f, cf)
        return call("fin", const(kind), build(0))

    def lam(self, target, body):
        """lambda taking one item and unpacking it according to target"""
        p = self.tmp()
        if isinstance(target, ast.Name):
            return ast.Lambda(args=_args([target.id]), body=body)
        ns = []

        def paths(t, path):
            if isinstance(t, ast.Name):
                ns.append((t.id, path))
            elif isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(e, ast.Starred) for e in t.elts):
                for i, e in enumerate(t.elts):
                    paths(e, path + ((i, len(t.elts)),))
            else:
                raise SyntaxError("target")
        try:
            paths(target, ())
        except SyntaxError:
            return call("unsupported", const("comprehension target"))
        inner = ast.Lambda(args=_args([a for a, _ in ns]), body=body)
        return ast.Lambda(args=_args([p]), body=ast.Call(func=inner, args=[call("unp", N(p), const(path)) for _, path in ns], keywords=[]))

    def visit_ListComp(self, n):
        return self.comp(n, "list")

    def visit_SetComp(self, n):
        return self.comp(n, "set")

    def visit_DictComp(self, n):
        return self.comp(n, "dict")

    def visit_GeneratorExp(self, n):
        return self.comp(n, "gen")

    def visit_List(self, n):
        n = self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load):
            return n
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return call("star", const("list"), ast.Tuple(elts=[ast.Tuple(elts=[const(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ctx=ast.Load()) for e in n.elts], ctx=ast.Load()))
        return call("mklist", ast.Tuple(elts=n.elts, ctx=ast.Load()))

    def visit_Set(self, n):
        n = self.generic_visit(n)
        return call("mkset", ast.Tuple(elts=n.elts, ctx=ast.Load()))

    def visit_Tuple(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in n.elts):
            return call("star", const("tuple"), ast.Tuple(elts=[ast.Tuple(elts=[const(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ctx=ast.Load()) for e in n.elts], ctx=ast.Load()))
        return n

    def visit_JoinedStr(self, n):
        n = self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(ast.Tuple(elts=[v.value, const(v.conversion), v.format_spec or const("")], ctx=ast.Load()))
            else:
                parts.append(v)
        return call("fstr", ast.Tuple(elts=parts, ctx=ast.Load()))

    def visit_Call(self, n):
        n = self.generic_visit(n)
        for a in n.args:
            if isinstance(a, ast.Starred):
                a.value = call("starargs", a.value)
        return n

    def visit_Compare(self, n):
        # chained comparisons evaluate bool() of the first part anyway; `in` must not force native bool
        n = self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = call("contains", n.comparators[0], n.left)
            return ast.UnaryOp(op=ast.Not(), operand=r) if isinstance(n.ops[0], ast.NotIn) else r
        return n

    # assignments to attributes
    def visit_Assign(self, n):
        n = self.generic_visit(n)
        return self.assign(n)

    def assign(self, n):
        if any(isinstance(t, ast.Attribute) for t in n.targets):
            v = self.tmp()
            out = [ast.Assign(targets=[N(v, ast.Store())], value=n.value)]
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    out.append(ast.Expr(call("setattr", _load(t.value), const(t.attr), N(v))))
                else:
                    out += flat([self.assign(ast.Assign(targets=[t], value=N(v)))])
            return out
        if any(isinstance(t, ast.Subscript) for t in n.targets) and len(n.targets) == 1:
            t = n.targets[0]
            v = self.tmp()
            return [ast.Assign(targets=[N(v, ast.Store())], value=n.value), ast.Expr(call("setitem", _load(t.value), t.slice if not isinstance(t.slice, ast.Slice) else _slice(t.slice), N(v)))]
        # tuple targets containing attributes
        out = [n]
        for t in n.targets:
            if isinstance(t, (ast.Tuple, ast.List)):
                post = []
                for i, e in enumerate(t.elts):
                    if isinstance(e, (ast.Attribute, ast.Subscript)):
                        v = self.tmp()
                        t.elts[i] = N(v, ast.Store())
                        post.append(ast.Assign(targets=[e], value=N(v)))
                for p in post:
                    out += flat([self.assign(p)])
                v0 = self.tmp()
                if not any(isinstance(e, ast.Starred) for e in t.elts) and len(n.targets) == 1:
                    n.value = call("unpack", n.value, const(len(t.elts)))
        return out

    def visit_AnnAssign(self, n):
        if n.value is None:
            return n
        return self.visit(ast.Assign(targets=[n.target], value=n.value, lineno=n.lineno))

    def visit_AugAssign(self, n):
        n = self.generic_visit(n)
        op = type(n.op).__name__
        if isinstance(n.target, ast.Attribute):
            o, v = self.tmp(), self.tmp()
            return [ast.Assign(targets=[N(o, ast.Store())], value=_load(n.target.value)),
                    ast.Assign(targets=[N(v, ast.Store())], value=call("aug", const(op), ast.Attribute(value=N(o), attr=n.target.attr, ctx=ast.Load()), n.value)),
                    ast.Expr(call("setattr", N(o), const(n.target.attr), N(v)))]
        if isinstance(n.target, ast.Subscript):
            o, k, v = self.tmp(), self.tmp(), self.tmp()
            sl = _slice(n.target.slice) if isinstance(n.target.slice, ast.Slice) else n.target.slice
            return [ast.Assign(targets=[N(o, ast.Store())], value=_load(n.target.value)),
                    ast.Assign(targets=[N(k, ast.Store())], value=sl),
                    ast.Assign(targets=[N(v, ast.Store())], value=call("aug", const(op), ast.Subscript(value=N(o), slice=N(k), ctx=ast.Load()), n.value)),
                    ast.Expr(call("setitem", N(o), N(k), N(v)))]
        return n

    def visit_ExceptHandler(self, n):
        n = self.generic_visit(n)
        if n.type is None:
            n.type = N("Exception")
        return n

    def visit_Match(self, n):
        return ast.Expr(call("unsupported", const("match statement")))

    def visit_IfExp(self, n):
        return self.generic_visit(n)


def _slice(s):
    return ast.Call(func=N("_tvc_slice"), args=[s.lower or const(None), s.upper or const(None), s.step or const(None)], keywords=[])


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def _load(e):
    e = _copy.deepcopy(e)
    for x in ast.walk(e):
        if hasattr(x, "ctx"):
            x.ctx = ast.Load()
    return e


def flat(l):
    out = []
    for x in l:
        if isinstance(x, list):
            out += flat(x)
        elif x is not None:
            out.append(x)
    return out


def transform(src, fname):
    tree = ast.parse(src)
    t = Tr(fname)
    t.cnt = {}
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return tree


# ------------------------------------------------------------------ runtime support
class SRange:
    def __init__(self, *a):
        a = [as_ip(x) for x in a]
        self.start, self.stop, self.step = (I(0), a[0], I(1)) if len(a) == 1 else (a[0], a[1], I(1)) if len(a) == 2 else a
        if self.step.const() is None or self.step.const() == 0:
            raise Unsupported("range step")

    def n(self):
        s = self.step.const()
        d = self.stop - self.start if s > 0 else self.start - self.stop
        if not decide(le(1, d)):
            return I(0)
        s = abs(s)
        return d if s == 1 else (d + (s - 1)) // s

    def _vc_seq(self):
        st, sp = self.start, self.step
        return SSeq.map(self.n(), lambda i: mk_int(st + sp * i))

    def _vc_len(self):
        return mk_int(self.n())

    def __iter__(self):
        return iter(self._vc_seq())

    def __getitem__(self, k):
        return self._vc_seq()[k]


def vc_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    r = SRange(*a)
    if all(x.const() is not None for x in (r.start, r.stop, r.step)):
        return range(r.start.const(), r.stop.const(), r.step.const())
    return r


class VSet:
    def __init__(self, items=()):
        self.items = []
        self.runs = []          # representative of runs that may contain several values
        for x in SSeq.of(items).p:
            if isinstance(x, Run):
                if not decide(le(1, x.n)):
                    continue
                k = C.fresh(0, x.n)
                v0, v = x.at(I(0)), x.at(ivar(k))
                bc = _eq_bc(v, v0)
                if bc is TRUE or C.entails(bc):
                    self.add(v0)
                    continue
                fb = T.mk_forall(k, x.n, bc)
                if X().choose(2, "all equal") == 0:
                    C.add_fact(fb)
                    if not C.consistent():
                        raise Infeasible()
                    self.add(v0)
                else:
                    if C.entails(fb):
                        raise Infeasible()
                    C.add_fact(bnot(fb))
                    self.runs.append(x)
            else:
                self.add(x[1])

    def add(self, v):
        for y in self.items:
            if v is y or _truth(v == y):
                return
        self.items.append(v)

    def _vc_len(self):
        if self.runs:
            n = C.fresh(2, None)
            return mk_int(ivar(n))
        return len(self.items)

    def __len__(self):
        return self._vc_len().__index__()

    def _conc(self):
        if self.runs:
            raise Unsupported("set of a symbolic family")
        return self.items

    def __iter__(self):
        return iter(list(self._conc()))

    def __contains__(self, v):
        return any(v is y or _truth(v == y) for y in self._conc())

    def union(self, *os):
        r = VSet(self._conc())
        for o in os:
            for x in seq_items(o):
                r.add(x)
        return r

    __or__ = union

    def intersection(self, *os):
        r = VSet()
        for x in self._conc():
            if all(any(_truth(x == y) for y in o) for o in os):
                r.add(x)
        return r

    __and__ = intersection

    def difference(self, *os):
        r = VSet()
        for x in self._conc():
            if not any(any(_truth(x == y) for y in o) for o in os):
                r.add(x)
        return r

    __sub__ = difference

    def discard(self, v):
        self.items = [y for y in self._conc() if not _truth(y == v)]

    def update(self, o):
        for x in seq_items(o):
            self.add(x)

    def issubset(self, o):
        return all(x in o for x in self._conc())

    __le__ = issubset

    def issuperset(self, o):
        return all(x in self for x in o)

    def pop(self):
        return self._conc().pop(0)

    def remove(self, v):
        if v not in self:
            raise KeyError(v)
        self.discard(v)

    def copy(self):
        return VSet(self)

    def __bool__(self):
        return bool(self.items or self.runs)

    def __eq__(self, o):
        return isinstance(o, VSet) and len(self.items) == len(o.items) and self.issubset(o)

    __hash__ = None


def _truth(b):
    return bool(b)


def _eq_bc(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return FALSE
        return band(*[_eq_bc(x, y) for x, y in zip(a, b)]) if a else TRUE
    if is_int(a) and is_int(b):
        return eq(as_ip(a), as_ip(b))
    if a is b:
        return TRUE
    if isinstance(a, (str, type(None), type)) or isinstance(b, (str, type(None), type)):
        return TRUE if a == b else FALSE
    if isinstance(a, (SReal, float)) and isinstance(b, (SReal, float)):
        return mkreq(rp(a) - rp(b))
    raise Unsupported("set of symbolic values")


_MISS = object()


class VDict(dict):
    """native dict; mutation is logged"""


def _class(name, check, make, getitem=None):
    class M(type):
        def __instancecheck__(cls, o):
            return check(o)

        def __call__(cls, *a, **k):
            return make(*a, **k)

        def __subclasscheck__(cls, o):
            return o is cls or type.__subclasscheck__(cls, o)

        def __eq__(cls, o):
            return cls is o or o is getattr(builtins, name, _MISS)

        def __hash__(cls):
            return hash(name)

        def __repr__(cls):
            return "<class %r>" % name

        def __or__(cls, o):
            return typing.Any

        def __ror__(cls, o):
            return typing.Any
    return M(name, (), {"__class_getitem__": classmethod(lambda cls, x: cls)})


def _mk_list(x=_MISS):
    return VList() if x is _MISS else VList(SSeq.of(x))


def _mk_tuple(x=_MISS):
    if x is _MISS:
        return ()
    if isinstance(x, tuple) and type(x) is tuple:
        return x
    return SSeq.of(x).settle().as_tuple() if SSeq.of(x).clen() is None else tuple(SSeq.of(x).concrete())


def _mk_int(x=0, base=_MISS):
    if base is not _MISS:
        return int(x, base)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return mk_int(as_ip(x))
    if isinstance(x, Tensor):
        e = x.item()
        return _mk_int(e)
    if isinstance(x, SReal):
        ip = T.poly_to_ip(x.p)
        if ip is not None:
            return mk_int(ip)
        q = L._ratio(x.p)
        if q is not None:
            a, d = q
            if decide(le(0, a)):
                return mk_int(a // d)
            return mk_int(-((-a) // d))
        raise Unsupported("int() of a symbolic real")
    return int(x)


def _mk_float(x=0.0):
    if isinstance(x, SReal):
        return x
    if isinstance(x, (SInt, SBool)):
        return mk_real(rp(x))
    if isinstance(x, Tensor):
        return mk_real(x._as_poly())
    return float(x)


def _mk_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return mk_bool(bnot(eq(x.ip, 0)))
    if isinstance(x, Tensor):
        x._one()
        return mk_bool(x._as_bc())
    return bool(x)


def _mk_complex(*a):
    if len(a) == 1 and isinstance(a[0], (SReal, complex)):
        return a[0]
    if all(isinstance(z, (int, float)) for z in a):
        return complex(*a)
    return a[0] + a[1] * 1j


V_list = _class("list", lambda o: isinstance(o, (list, VList)), _mk_list)
V_tuple = _class("tuple", lambda o: isinstance(o, (tuple, SSeq)), _mk_tuple)
V_int = _class("int", lambda o: isinstance(o, (int, SInt, SBool)), _mk_int)
V_float = _class("float", lambda o: isinstance(o, (float, SReal)), _mk_float)
V_bool = _class("bool", lambda o: isinstance(o, (bool, SBool)), _mk_bool)
V_complex = _class("complex", lambda o: isinstance(o, complex), _mk_complex)
V_set = _class("set", lambda o: isinstance(o, (set, VSet)), lambda *a: VSet(*a))
V_range = _class("range", lambda o: isinstance(o, (range, SRange)), vc_range)


# ------------------------------------------------------------------ strings with symbolic integers
class SStr:
    """concatenation of strings and decimal representations of symbolic integers"""

    def __init__(self, parts):
        out = []
        for x in parts:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "":
                out.append(x)
        self.parts = out

    def __add__(self, o):
        return SStr(self.parts + _sparts(o)) if isinstance(o, (str, SStr)) else NotImplemented

    def __radd__(self, o):
        return SStr(_sparts(o) + self.parts) if isinstance(o, str) else NotImplemented

    def format(self, *a, **k):
        if not k and len(a) == 1 and len(self.parts) == 3 and self.parts[0] == "{:0" and self.parts[2] == "b}":
            return vformat(a[0], SStr(["0", self.parts[1], "b"]))
        raise Unsupported("formatting with a symbolic template")

    def __repr__(self):
        return "".join(x if isinstance(x, str) else str(x) for x in self.parts)

    __str__ = __repr__

    def __getattr__(self, k):
        raise Unsupported("str.%s with symbolic integers" % k)

    def _bad(self, *a):
        raise Unsupported("string with symbolic integers")

    __eq__ = __ne__ = __len__ = __iter__ = __getitem__ = __bool__ = __mul__ = __mod__ = __contains__ = _bad
    __hash__ = object.__hash__


def _sparts(x):
    return list(x.parts) if isinstance(x, SStr) else [x]


def binary_digits(i, n):
    """contract of format(i, '0<n>b') for 0 <= i < 2**n: the n binary digits of i, most significant first"""
    i, n = as_ip(i), as_ip(n)
    if not decide(band(le(0, i), lt(0, n))) or not decide(lt(i, as_ip(2 ** mk_int(n)))):
        raise Unsupported("binary representation longer than its width")
    return SSeq([Run(n, lambda j: (mk_int(i) // 2 ** mk_int(n - 1 - j)) % 2)])


def vformat(v, spec=""):
    if isinstance(spec, SStr):
        if len(spec.parts) == 3 and spec.parts[0] == "0" and spec.parts[2] == "b" and is_int(v):
            return binary_digits(v, spec.parts[1])
        raise Unsupported("format specification with symbolic integers")
    if isinstance(v, SInt) and spec in ("", "d"):
        return SStr([v])
    return format(v, spec)


def vfstr(parts):
    out = []
    for x in parts:
        if isinstance(x, tuple):
            v, conv, spec = x
            v = {-1: lambda z: z, 115: _mk_str, 114: repr, 97: ascii}[conv](v)
            x = vformat(v, spec) if not (isinstance(v, (SStr, SSeq)) and spec == "") else v
        out += _sparts(x)
    return "".join(out) if all(isinstance(x, str) for x in out) else out[0] if len(out) == 1 and isinstance(out[0], SSeq) else SStr(out)


def _mk_str(x="", *a):
    if isinstance(x, SInt):
        return SStr([x])
    return x if isinstance(x, SStr) else str(x, *a)


V_str = _class("str", lambda o: isinstance(o, (str, SStr)), _mk_str)
type(V_str).__getattr__ = lambda cls, k: getattr(str, k)


def _type(o, *a, **k):
    if a:
        return type(o, *a, **k)
    t = type(o)
    return {VList: V_list, list: V_list, SSeq: V_tuple, tuple: V_tuple, SInt: V_int, int: V_int, SReal: V_float, float: V_float,
            bool: V_bool, SBool: V_bool, VSet: V_set, range: V_range, SRange: V_range, str: V_str, SStr: V_str, complex: V_complex}.get(t, t)


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, type)

    def __call__(cls, *a, **k):
        return _type(*a, **k)


class V_type(type, metaclass=_TypeMeta):
    pass


def vlen(x):
    f = getattr(type(x), "_vc_len", None)
    if f is not None:
        return f(x)
    g = getattr(type(x), "__len__", None)
    if isinstance(g, types.FunctionType):
        return g(x)
    if g is None:
        raise TypeError("object of type %r has no len()" % type(x).__name__)
    return len(x)


def _lazy(x):
    return isinstance(x, (SSeq, VList, SRange, Tensor)) or hasattr(x, "_vc_seq")


def vzip(*s, strict=False):
    if not s:
        return zip()
    if any(_lazy(x) for x in s):
        return vc_zip(*[x if _lazy(x) else list(x) for x in s])
    return zip(*s)


def venumerate(x, start=0):
    if not _lazy(x):
        return SSeq.of(list(enumerate(x, start)))
    s = SSeq.of(x)
    out = []
    off = as_ip(start)
    for p in s.p:
        if isinstance(p, Run):
            if isinstance(p, BRun):
                out.append(BRun(p.nb, [lambda q, g=g, r=r, p=p, off=off: (mk_int(off + q * p.m + r), g(q)) for r, g in enumerate(p.gens)]))
            else:
                out.append(Run(p.n, lambda i, p=p, off=off: (mk_int(off + i), p.at(i))))
            off = off + p.n
        else:
            out.append(("i", (mk_int(off), p[1])))
            off = off + 1
    return SSeq(out)


def vsum(x, start=0):
    if isinstance(x, Tensor):
        x = SSeq.of(x)
    r = start
    for p in SSeq.of(x).p:
        if not isinstance(p, Run):
            r = r + p[1]
            continue
        if not decide(le(1, p.n)):
            continue
        if isinstance(p, BRun):
            for g in p.gens:
                r = vsum(SSeq([Run(p.nb, g)]), r)
            continue
        k = C.fresh(0, p.n)
        v = p.at(ivar(k))
        if is_int(v) and k not in as_ip(v).fv:
            r = r + mk_int(as_ip(v) * p.n)
        elif is_int(v) or isinstance(v, SBool):
            raise Unsupported("sum of a symbolic family of integers")
        elif isinstance(v, (SReal, float)):
            r = r + mk_real(ssum(k, I(0), p.n, rp(v)))
        elif isinstance(v, Tensor):
            r = r + Tensor.make(v.dims, v._dtype, lambda *ix: ssum(k, I(0), p.n, v.pel(*ix)), deps=(v,))
        else:
            raise Unsupported("sum of a symbolic family")
    return r


def _fold(name, pick):
    def f(*a, **kw):
        key = kw.get("key")
        default = kw.get("default", _MISS)
        if len(a) == 1:
            s = SSeq.of(a[0])
            pcs = s.p
        else:
            pcs = [("i", x) for x in a]
        best = _MISS
        for p in pcs:
            if isinstance(p, Run):
                if not decide(le(1, p.n)):
                    continue
                k = C.fresh(0, p.n)
                v = p.at(ivar(k))
                kv = key(v) if key else v
                k0 = key(p.at(I(0))) if key else p.at(I(0))
                if is_int(kv) and is_int(k0) and (k not in as_ip(kv).fv or same_ip(kv, k0)):
                    v = p.at(I(0))
                elif is_int(kv) and key is None:
                    # maximum of a family of integers: fresh bound attained somewhere
                    if not C.entails(le(0, as_ip(kv))):
                        raise Unsupported("%s over a symbolic family of possibly negative integers" % name)
                    m = C.fresh(0, None)
                    C.add_fact(T.mk_forall(k, p.n, le(as_ip(kv), ivar(m)) if name == "max" else le(ivar(m), as_ip(kv))))
                    w = C.fresh(0, p.n)
                    C.add_fact(eq(ivar(m), as_ip(p.at(ivar(w)))))
                    v = mk_int(ivar(m))
                else:
                    raise Unsupported("%s over a symbolic family" % name)
            else:
                v = p[1]
            if best is _MISS:
                best = v
            else:
                x, y = (key(best), key(v)) if key else (best, v)
                if key is None and is_int(x) and is_int(y):
                    best = mk_int(pick(as_ip(best), as_ip(v)))
                elif key is None and isinstance(x, (int, SInt, SReal, float)) and isinstance(y, (int, SInt, SReal, float)) and (isinstance(x, SReal) or isinstance(y, SReal)):
                    c = (y > x) if name == "max" else (y < x)
                    best = y if c else x
                else:
                    c = (y > x) if name == "max" else (y < x)
                    best = v if c else best
        if best is _MISS:
            if default is not _MISS:
                return default
            raise ValueError("%s() arg is an empty sequence" % name)
        return best
    f.__name__ = name
    return f


def same_ip(a, b):
    return as_ip(a) == as_ip(b) or C.entails(eq(as_ip(a), as_ip(b)))


vmax = _fold("max", imax)
vmin = _fold("min", imin)


def _run_bc(v):
    """truth of a value at a generic index, as a condition"""
    if isinstance(v, (SBool, Tensor)):
        return as_bc(v)
    if isinstance(v, SInt):
        return bnot(eq(v.ip, 0))
    return TRUE if v else FALSE


def vall(x):
    for p in SSeq.of(x).p:
        if isinstance(p, Run):
            if not decide(le(1, p.n)):
                continue
            k = C.fresh(0, p.n)
            bc = _run_bc(p.at(ivar(k)))
            if not _forall(k, p.n, bc):
                return False
        elif not p[1]:
            return False
    return True


def vany(x):
    for p in SSeq.of(x).p:
        if isinstance(p, Run):
            if not decide(le(1, p.n)):
                continue
            k = C.fresh(0, p.n)
            bc = bnot(_run_bc(p.at(ivar(k))))
            if not _forall(k, p.n, bc):
                return True
        elif p[1]:
            return True
    return False


def _forall(k, n, bc):
    if bc is TRUE or C.entails(bc):
        return True
    if bc is FALSE:
        return False
    if k not in bc.fv:
        return decide(bc)
    fb = T.mk_forall(k, n, bc)
    if fb is TRUE or fb in C.FACTS:
        return True
    if bnot(fb) in C.FACTS:
        return False
    if X().choose(2, "forall " + bc.key[:80]) == 0:
        C.add_fact(fb)
        if not C.consistent():
            raise Infeasible()
        return True
    if C.entails(fb):
        raise Infeasible()
    C.add_fact(bnot(fb))
    # witness
    w = C.fresh(0, n)
    C.add_fact(bnot(bc.subst({k: ivar(w)})))
    if not C.consistent():
        raise Infeasible()
    return False


def vmap(f, *s):
    if len(s) == 1:
        return SSeq.of(s[0]).mapv(f)
    return vc_zip(*s).mapv(lambda t: f(*t))


def vfilter(f, s):
    return SSeq.of([x for x in SSeq.of(s).concrete() if (f(x) if f else x)])


def vreversed(s):
    if _lazy(s):
        return SSeq.of(s).slice(slice(None, None, -1))
    return reversed(s)


def vsorted(s, key=None, reverse=False):
    xs = SSeq.of(s).concrete()
    return VList(sorted(xs, key=key, reverse=reverse))


def vabs(x):
    return abs(x)


def vround(x, n=None):
    if isinstance(x, (SInt,)):
        return x
    if isinstance(x, (SReal, Tensor)):
        raise Unsupported("round")
    return round(x) if n is None else round(x, n)


def vpow(a, b, *c):
    return pow(a, b, *c)


def vdivmod(a, b):
    return a // b, a % b


def vsetattr(o, k, v):
    ex = X()
    if ex is not None:
        d = getattr(o, "__dict__", {})
        if id(o) not in ex.objs:
            # objects that come into being by attribute assignment are young
            ex.nstor += 1
            ex.objs[id(o)] = (ex.nstor, o) if not d else (0, o)
        same = False
        try:
            old = getattr(o, k, _MISS) if isinstance(o, type) or k in d else _MISS
            from .loops import same_value
            same = old is not _MISS and same_value(old, v)
        except Exception:
            pass
        ex.mutlog.append(("attr", o, same))
    setattr(o, k, v)


class VC:
    fstr = staticmethod(vfstr)
    """namespace available to transformed code as _tvc"""
    For = staticmethod(lambda it, site, names: For(it, site, names))
    While = staticmethod(lambda site, names: While(site, names))
    setattr = staticmethod(vsetattr)

    @staticmethod
    def unsupported(m):
        raise Unsupported(m)

    @staticmethod
    def setitem(o, k, v):
        if isinstance(o, (dict, list)):
            X().mutlog.append(("dict", o, False))
        o[k] = v

    @staticmethod
    def aug(op, a, b):
        f = {"Add": _operator.iadd, "Sub": _operator.isub, "Mult": _operator.imul, "Div": _operator.itruediv, "FloorDiv": _operator.ifloordiv,
             "Mod": _operator.imod, "Pow": _operator.ipow, "BitAnd": _operator.iand, "BitOr": _operator.ior, "MatMult": _operator.imatmul}.get(op)
        if f is None:
            raise Unsupported("augmented " + op)
        return f(a, b)

    @staticmethod
    def comp(nested, it, f, cond):
        s = SSeq.of(it) if _lazy(it) else SSeq.of(list(it))
        if cond is not None:
            out = []
            for p in s.p:
                if isinstance(p, Run):
                    k = C.fresh(0, p.n)
                    if not decide(le(1, p.n)):
                        continue
                    c = _run_bc(cond(p.at(ivar(k))))
                    if _forall(k, p.n, c):
                        out.append(p)
                    elif _forall(k, p.n, bnot(c)):
                        pass
                    else:
                        raise Unsupported("filtered comprehension over a symbolic family")
                elif cond(p[1]):
                    out.append(p)
            s = SSeq(out)
        r = s.mapv(f)
        if nested:
            out = []
            for p in r.p:
                if isinstance(p, Run):
                    raise Unsupported("nested comprehension over a symbolic family")
                out += SSeq.of(p[1]).p
            r = SSeq(out)
        return r

    @staticmethod
    def fin(kind, r):
        if kind == "list":
            return VList(r)
        if kind == "set":
            return VSet(r)
        if kind == "dict":
            return {k: v for k, v in r.concrete()}
        return GenSeq(r.p)

    @staticmethod
    def unp(v, path):
        for i, n in path:
            v = VC.unpack(v, n)[i]
        return v

    @staticmethod
    def unpack(v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise ValueError("not enough values to unpack" if len(v) < n else "too many values to unpack")
            return v
        s = SSeq.of(v) if _lazy(v) else SSeq.of(list(v))
        m = as_ip(s.length())
        if not decide(eq(m, n)):
            raise ValueError("cannot unpack: wrong number of values")
        return tuple(s[k] for k in range(n))

    @staticmethod
    def mklist(t):
        return VList(t)

    @staticmethod
    def mkset(t):
        return VSet(t)

    @staticmethod
    def star(kind, parts):
        pc = []
        for st, v in parts:
            if st:
                pc += (SSeq.of(v) if _lazy(v) else SSeq.of(list(v))).p
            else:
                pc.append(("i", v))
        s = SSeq(pc)
        return VList(s) if kind == "list" else s.as_tuple()

    @staticmethod
    def starargs(v):
        return SSeq.of(v).concrete() if _lazy(v) else v

    @staticmethod
    def contains(c, x):
        if isinstance(c, (tuple, list)) or type(c) in (VList, SSeq, VSet):
            for y in (c if not isinstance(c, VSet) else c._conc()):
                if x is y:
                    return True
                r = (x == y)
                if r is NotImplemented:
                    continue
                if r:
                    return True
            return False
        if isinstance(c, (range, SRange)):
            if isinstance(c, range) and isinstance(x, int):
                return x in c
            if isinstance(c, range):
                if c.step != 1:
                    raise Unsupported("in range with step")
                return mk_bool(band(le(c.start, as_ip(x)), lt(as_ip(x), c.stop)))
            if c.step.const() != 1:
                raise Unsupported("in range with step")
            return mk_bool(band(le(c.start, as_ip(x)), lt(as_ip(x), c.stop)))
        return x in c


class GenSeq(SSeq):
    """value of a generator expression (evaluated eagerly)"""

    def __init__(self, p):
        super().__init__(p)
        self.pos = 0

    def __next__(self):
        if self.pos >= len(self.p):
            raise StopIteration
        v = self.p[self.pos]
        if isinstance(v, Run):
            raise Unsupported("next() on a symbolic generator")
        self.pos += 1
        return v[1]

    def __len__(self):
        raise TypeError("object of type 'generator' has no len()")

    _vc_len = None

    def __bool__(self):
        return True


def vnext(it, *d):
    if isinstance(it, (GenSeq,)):
        try:
            return it.__next__()
        except StopIteration:
            if d:
                return d[0]
            raise
    return next(it, *d)


def viter(x):
    if _lazy(x):
        return GenSeq(list(SSeq.of(x).p))
    return iter(x)


def vprint(*a, **k):
    return None


class _Warn:
    def warn(self, *a, **k):
        return None

    def __getattr__(self, k):
        raise Unsupported("warnings." + k)


class _reduce:
    pass


def vreduce(f, seq, *init):
    s = SSeq.of(seq)
    if s.clen() is None:
        raise Unsupported("functools.reduce over a symbolic sequence")
    return _functools.reduce(f, s.concrete(), *init)


REDUCE_SRC = '''
def reduce(function, sequence, *initial):
    it = _tvc_seq(sequence)
    if initial:
        value = initial[0]
        rest = it
    else:
        if len(it) == 0:
            raise TypeError("reduce() of empty iterable with no initial value")
        value = it[0]
        rest = it[1:]
    for element in rest:
        value = function(value, element)
    return value
'''


class World:
    """one fresh copy of the package under verification"""
    cache = {}

    def __init__(self, repo=None, ffi=None):
        self.repo = repo or REPO
        self.mods = {}
        self.torch = L.make_torch()
        b = dict(vars(builtins))
        b.update(len=vlen, range=V_range, str=V_str, format=vformat, zip=vzip, enumerate=venumerate, sum=vsum, max=vmax, min=vmin, all=vall, any=vany, map=vmap, filter=vfilter,
                 reversed=vreversed, sorted=vsorted, list=V_list, tuple=V_tuple, int=V_int, float=V_float, bool=V_bool, complex=V_complex, set=V_set, frozenset=V_set, type=V_type,
                 round=vround, print=vprint, next=vnext, iter=viter, divmod=vdivmod, setattr=vsetattr, __import__=self.imp, _tvc=VC, _tvc_locals=locals, _tvc_slice=slice,
                 _tvc_seq=lambda s: SSeq.of(s) if _lazy(s) else SSeq.of(list(s)), open=_nofile, input=_nofile, eval=_nofile, exec=_nofile)
        self.b = b
        ft = dict(vars(_functools))
        g = {"__builtins__": b, "__name__": "functools"}
        exec(World.comp("functools", REDUCE_SRC), g)
        self.functools = types.SimpleNamespace(**{k: v for k, v in ft.items() if not k.startswith("__")})
        self.functools.reduce = g["reduce"]
        self.functools.lru_cache = _nocache
        self.functools.cache = _nocache
        self.np = L.make_numpy()
        self.math = L.make_math()
        self.itertools = L.make_itertools()

    @staticmethod
    def comp(name, src):
        h = (name, hashlib.sha256(src.encode()).hexdigest())
        if h not in World.cache:
            World.cache[h] = compile(transform(src, name), "<%s>" % name, "exec")
        return World.cache[h]

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            base = pkg.split(".")[:len(pkg.split(".")) - level + 1]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top == "torchmps":
            m = self.module(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self.path(name + "." + f):
                        setattr(m, f, self.module(name + "." + f))
                return m
            return self.module(top)
        if top == "torch":
            return self._sub(self.torch, name, fromlist)
        if top == "numpy":
            return self._sub(self.np, name, fromlist)
        if top == "math":
            return self.math
        if top == "cmath":
            raise Unsupported("cmath")
        if top == "itertools":
            return self.itertools
        if top == "functools":
            return self.functools
        if top == "warnings":
            return _Warn()
        if top == "opt_einsum":
            return types.SimpleNamespace(contract=_oe_contract)
        if top == "scipy":
            sp = types.SimpleNamespace(binom=L._binom, comb=L._binom)
            return sp if fromlist else types.SimpleNamespace(special=sp)
        if top in ("typing", "typing_extensions", "abc", "collections", "dataclasses", "enum", "__future__", "string", "operator", "copy", "contextlib", "numbers", "types", "logging"):
            return __import__(name, None, None, fromlist or (), 0)
        raise Unsupported("import of %s" % name)

    def _sub(self, m, name, fromlist):
        if not fromlist:
            for p in name.split(".")[1:]:
                getattr(m, p)
            return m
        for p in name.split(".")[1:]:
            m = getattr(m, p)
        return m

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        for q in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.isfile(q):
                return q
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path(name)
        if p is None:
            raise ModuleNotFoundError("No module named %r" % name)
        if "." in name:
            parent = self.module(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if p.endswith("__init__.py") else name.rpartition(".")[0]
        m.__builtins__ = self.b
        self.mods[name] = m
        if "." in name:
            setattr(self.mods[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        with open(p) as f:
            src = f.read()
        exec(World.comp(name, src), m.__dict__)
        return m

    def run_source(self, src, name="spec", **glob):
        g = {"__builtins__": self.b, "__name__": name, "__package__": ""}
        g.update(glob)
        exec(World.comp(name, src), g)
        return g


def _oe_contract(spec, *ops, backend=None, **k):
    return T.einsum(spec, *ops)


def _nocache(f=None, **k):
    if callable(f):
        return f
    return lambda g: g


def _nofile(*a, **k):
    raise Unsupported("file or dynamic-code access")
