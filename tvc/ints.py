"""Symbolic integers (multivariate integer polynomials over atoms) and Boolean conditions.

Everything is immutable and interned through a canonical key string.
"""
from fractions import Fraction
from functools import reduce
import itertools

_IA = {}
ENT = [None]     # hook: entailment test used to simplify divisions


class IAtom:
    __slots__ = ("kind", "args", "key", "fv", "apps")

    def __new__(cls, kind, args):
        if kind == "var":
            key = args[0]
        else:
            key = kind + "(" + ",".join(a.key if hasattr(a, "key") else str(a) for a in args) + ")"
        o = _IA.get(key)
        if o is None:
            o = object.__new__(cls)
            o.kind, o.args, o.key = kind, args, key
            if kind == "var":
                o.fv = frozenset((args[0],))
                o.apps = frozenset()
            else:
                fv = frozenset()
                apps = frozenset()
                for a in args:
                    if hasattr(a, "fv"):
                        fv |= a.fv
                        apps |= a.apps
                o.fv = fv
                o.apps = apps | {o} if kind == "app" else apps
            _IA[key] = o
        return o

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return self.key


class IP:
    """integer polynomial: sum of coeff * product of atoms"""
    __slots__ = ("t", "key", "fv", "apps", "_h")

    def __init__(self, d):
        items = sorted(((m, c) for m, c in d.items() if c != 0), key=lambda mc: tuple(a.key for a in mc[0]))
        self.t = tuple(items)
        self.key = "+".join((("%d" % c) if not m else (("" if c == 1 else "%d*" % c) + "*".join(a.key for a in m))) for m, c in self.t) or "0"
        if len(self.t) > 1:
            self.key = "(" + self.key + ")"
        fv = frozenset()
        apps = frozenset()
        for m, _ in self.t:
            for a in m:
                fv |= a.fv
                apps |= a.apps
        self.fv = fv
        self.apps = apps
        self._h = hash(self.key)

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if isinstance(o, int):
            o = I(o)
        return isinstance(o, IP) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return self.key

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and not self.t[0][0]:
            return self.t[0][1]
        return None

    def c0(self):
        for m, c in self.t:
            if not m:
                return c
        return 0

    def __add__(self, o):
        o = I(o)
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return IP(d)

    __radd__ = __add__

    def __neg__(self):
        return IP({m: -c for m, c in self.t})

    def __sub__(self, o):
        return self + (-I(o))

    def __rsub__(self, o):
        return I(o) + (-self)

    def __mul__(self, o):
        o = I(o)
        d = {}
        for m, c in self.t:
            for m2, c2 in o.t:
                mm = tuple(sorted(m + m2, key=lambda a: a.key))
                d[mm] = d.get(mm, 0) + c * c2
        return IP(d)

    __rmul__ = __mul__

    def __pow__(self, k):
        r = I(1)
        for _ in range(k):
            r = r * self
        return r

    def __floordiv__(self, o):
        o = I(o)
        k = o.const()
        if k is not None and k > 0:
            if k == 1:
                return self
            q, r = {}, {}
            for m, c in self.t:
                if m:
                    q[m] = c // k if c % k == 0 else 0
                    if c % k:
                        # split coefficient
                        q[m] = c // k
                        r[m] = c % k
                else:
                    q[m] = c // k
                    r[m] = c % k
            rp = IP(r)
            if rp.const() is not None:
                return IP(q) + (rp.const() // k)
            return IP(q) + mkivar("fd", (rp, o))
        if o == self:
            return I(1)
        # polynomial divided by a factor monomial (dims > 0 assumed by callers)
        q = exact_div(self, o)
        if q is not None:
            return q
        if len(o.t) == 1 and ENT[0] is not None:
            qd, rd = {}, {}
            for m, c in self.t:
                e = exact_div(IP({m: c}), o)
                if e is None:
                    rd[m] = c
                else:
                    for m2, c2 in e.t:
                        qd[m2] = qd.get(m2, 0) + c2
            if qd or self.t:
                r = IP(rd)
                if ENT[0](band(le(0, r), lt(r, o))):
                    return IP(qd)
        return mkivar("fd", (self, o))

    def __mod__(self, o):
        return self - I(o) * (self // o)

    def subst(self, mp):
        if not (self.fv & mp.keys()):
            return self
        r = I(0)
        for m, c in self.t:
            p = I(c)
            for a in m:
                p = p * isubst_atom(a, mp)
            r = r + p
        return r

    def lincoeff(self, name):
        """coefficient of variable `name` if it occurs only linearly at top level, else None"""
        co = 0
        for m, c in self.t:
            for a in m:
                if name in a.fv:
                    if len(m) == 1 and a.kind == "var":
                        co = c
                    else:
                        return None
        return co

    def __index__(self):
        c = self.const()
        if c is None:
            raise TypeError("symbolic integer used as concrete index: " + self.key)
        return c


def exact_div(p, q):
    if len(q.t) != 1:
        return None
    mq, cq = q.t[0]
    out = {}
    for m, c in p.t:
        l = list(m)
        for a in mq:
            if a in l:
                l.remove(a)
            else:
                return None
        if c % cq:
            return None
        out[tuple(l)] = c // cq
    return IP(out)


def isubst_atom(a, mp):
    if a.kind == "var":
        r = mp.get(a.args[0])
        return IP({(a,): 1}) if r is None else I(r)
    if not (a.fv & mp.keys()):
        return IP({(a,): 1})
    if a.kind == "fd":
        return a.args[0].subst(mp) // a.args[1].subst(mp)
    if a.kind == "ite":
        return iite(a.args[0].subst(mp), a.args[1].subst(mp), a.args[2].subst(mp))
    return mkivar(a.kind, tuple(x.subst(mp) if hasattr(x, "subst") else x for x in a.args))


_IC = {}


def I(x):
    if isinstance(x, IP):
        return x
    if isinstance(x, bool):
        x = int(x)
    r = _IC.get(x)
    if r is None:
        r = _IC[x] = IP({(): int(x)})
    return r


def mkivar(kind, args):
    return IP({(IAtom(kind, args),): 1})


def ivar(name):
    return mkivar("var", (name,))


def iapp(f, *args):
    return mkivar("app", (f,) + tuple(I(a) for a in args))


ITE_RES = {}        # conditions decided by the current case split


def iite(c, a, b):
    if c is TRUE:
        return I(a)
    if c is FALSE:
        return I(b)
    if ITE_RES:
        r = ITE_RES.get(c.key)
        if r is not None:
            return I(a if r else b)
    a, b = I(a), I(b)
    if a == b:
        return a
    return mkivar("ite", (c, a, b))


def imax(a, b):
    a, b = I(a), I(b)
    if (a - b).const() is not None:
        return a if (a - b).const() >= 0 else b
    return iite(le(b, a), a, b)


def imin(a, b):
    a, b = I(a), I(b)
    if (a - b).const() is not None:
        return a if (a - b).const() <= 0 else b
    return iite(le(a, b), a, b)


# ---------------------------------------------------------------- conditions
_BC = {}


class BC:
    __slots__ = ("kind", "args", "key", "fv", "apps")

    def __new__(cls, kind, args):
        key = kind + "[" + ";".join(a.key if hasattr(a, "key") else str(a) for a in args) + "]"
        o = _BC.get(key)
        if o is None:
            o = object.__new__(cls)
            o.kind, o.args, o.key = kind, args, key
            fv = frozenset()
            apps = frozenset()
            for a in args:
                if hasattr(a, "fv"):
                    fv |= a.fv
                if hasattr(a, "apps"):
                    apps |= a.apps
            o.fv = fv
            o.apps = apps
            if kind == "forall":
                o.fv = fv - {args[0]}
            _BC[key] = o
        return o

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return self.key

    def __bool__(self):
        raise TypeError("symbolic condition used as Python bool: " + self.key)

    def subst(self, mp):
        if not (self.fv & mp.keys()):
            return self
        k = self.kind
        if k == "le":
            return le0(self.args[0].subst(mp))
        if k == "eq":
            return eq0(self.args[0].subst(mp))
        if k == "not":
            return bnot(self.args[0].subst(mp))
        if k == "and":
            return band(*[a.subst(mp) for a in self.args])
        if k == "or":
            return bor(*[a.subst(mp) for a in self.args])
        if k == "forall":
            mp2 = {n: v for n, v in mp.items() if n != self.args[0]}
            return BC("forall", (self.args[0], self.args[1].subst(mp2), self.args[2].subst(mp2)))
        return mkreal(k, tuple(a.subst(mp) if hasattr(a, "subst") else a for a in self.args))


def mkreal(k, args):
    """real-valued conditions: rlt(p): p<0 ; req(p): p==0 ; bapp(name,...)"""
    if k in ("rlt", "req"):
        p = args[0]
        c = p.const()
        if c is not None:
            return TRUE if ((c < 0) if k == "rlt" else (c == 0)) else FALSE
    return BC(k, args)


TRUE = BC("true", ())
FALSE = BC("false", ())


def _content(p):
    from math import gcd
    g = 0
    for m, c in p.t:
        if m:
            g = gcd(g, abs(c))
    return g


def le0(p):
    p = I(p)
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    g = _content(p)
    if g > 1:  # g*q + c <= 0  <=> q <= floor(-c/g)
        c0 = p.c0()
        d = {m: co // g for m, co in p.t if m}
        d[()] = -((-c0) // g)
        p = IP(d)
    return BC("le", (p,))


def eq0(p):
    p = I(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    g = _content(p)
    if g > 1:
        if p.c0() % g:
            return FALSE
        p = IP({m: co // g for m, co in p.t})
    lead = [co for m, co in p.t if m][0]
    if lead < 0:
        p = -p
    return BC("eq", (p,))


def le(a, b):
    return le0(I(a) - I(b))


def lt(a, b):
    return le0(I(a) - I(b) + 1)


def eq(a, b):
    return eq0(I(a) - I(b))


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.kind == "not":
        return c.args[0]
    if c.kind == "le":
        return le0(I(1) - c.args[0])
    if c.kind == "and":
        return bor(*[bnot(a) for a in c.args])
    if c.kind == "or":
        return band(*[bnot(a) for a in c.args])
    return BC("not", (c,))


def band(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        if c.kind == "and":
            out.extend(c.args)
        else:
            out.append(c)
    u = []
    for c in sorted(set(out), key=lambda c: c.key):
        u.append(c)
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    for c in u:
        if bnot(c) in u:
            return FALSE
    return BC("and", tuple(u))


def bor(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        if c.kind == "or":
            out.extend(c.args)
        else:
            out.append(c)
    u = sorted(set(out), key=lambda c: c.key)
    if not u:
        return FALSE
    if len(u) == 1:
        return u[0]
    return BC("or", tuple(u))


# ---------------------------------------------------------------- z3 translation
import z3

_zi, _zb = {}, {}
_zf = {}


def zfun(name, n, sort="i"):
    k = (name, n, sort)
    f = _zf.get(k)
    if f is None:
        f = _zf[k] = z3.Function(str(name) + "/" + sort, *([z3.IntSort()] * n), z3.IntSort() if sort == "i" else z3.BoolSort())
    return f


def to_z3i(p):
    r = _zi.get(p.key)
    if r is None:
        terms = []
        for m, c in p.t:
            t = None
            for a in m:
                za = atom_z3(a)
                t = za if t is None else t * za
            if t is None:
                terms.append(z3.IntVal(c))
            else:
                terms.append(t if c == 1 else c * t)
        r = terms[0] if len(terms) == 1 else (z3.Sum(terms) if terms else z3.IntVal(0))
        _zi[p.key] = r
    return r


def atom_z3(a):
    if a.kind == "var":
        return z3.Int(a.args[0])
    if a.kind == "fd":
        return to_z3i(a.args[0]) / to_z3i(a.args[1])
    if a.kind == "ite":
        return z3.If(to_z3b(a.args[0]), to_z3i(a.args[1]), to_z3i(a.args[2]))
    if a.kind == "app":
        args = a.args[1:]
        return zfun(getattr(a.args[0], "key", a.args[0]), len(args))(*[to_z3i(x) for x in args])
    raise NotImplementedError(a.kind)


def to_z3b(c):
    r = _zb.get(c.key)
    if r is None:
        k = c.kind
        if k == "true":
            r = z3.BoolVal(True)
        elif k == "false":
            r = z3.BoolVal(False)
        elif k == "le":
            r = to_z3i(c.args[0]) <= 0
        elif k == "eq":
            r = to_z3i(c.args[0]) == 0
        elif k == "not":
            r = z3.Not(to_z3b(c.args[0]))
        elif k == "and":
            r = z3.And(*[to_z3b(a) for a in c.args])
        elif k == "or":
            r = z3.Or(*[to_z3b(a) for a in c.args])
        elif k == "forall":
            v = z3.Int(c.args[0])
            r = z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < to_z3i(c.args[1])), to_z3b(c.args[2])))
        elif k == "bapp":
            args = c.args[1:]
            if all(isinstance(x, IP) for x in args) and args:
                r = zfun(str(c.args[0]), len(args), "b")(*[to_z3i(x) for x in args])
            else:
                r = z3.Bool(c.key)
        else:  # real conditions are opaque propositional atoms
            r = z3.Bool(c.key)
        _zb[c.key] = r
    return r
