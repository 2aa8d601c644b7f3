"""Symbolic Python scalars, path exploration, obligations."""
import traceback
from fractions import Fraction
from .ints import *
from .terms import *
from . import ctx as C
from .ctx import Unsupported, Infeasible


class PathEnd(BaseException):
    """this path was explored only to discharge an obligation"""


# ------------------------------------------------------------------ explorer
class Explorer:
    cur = None

    def __init__(self):
        self.trail = []
        self.pos = 0
        self.tables = {}
        self.obligations = {}     # name -> list of (status, detail)
        self.npaths = 0
        self.labels = []
        self.template = []
        self.notes = []
        self.mutlog = []
        self.grad = True
        self.deadline = None
        self.muted = 0
        self.loop_exit = "closed"
        self.loop_monitor = None
        self.pathnotes = []
        self.heap = {}
        self.nstor = 0
        self.inv_ok = 0
        self.onpath = []

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def register(self, obj):
        self.nstor += 1
        self.heap[self.nstor] = obj
        return self.nstor

    def objser(self, obj):
        v = self.objs.get(id(obj))
        return v[0] if v else 0

    def choose(self, n, label=""):
        if self.pos < len(self.trail):
            i = self.trail[self.pos][0]
        else:
            i = 0
            self.trail.append([0, n, label])
        self.pos += 1
        return i

    def prefix(self):
        return tuple(t[0] for t in self.trail[:self.pos])

    def decide(self, bc):
        if bc is TRUE:
            return True
        if bc is FALSE:
            return False
        bc = C.simp_bc(bc)
        if bc is TRUE:
            return True
        if bc is FALSE:
            return False
        if bc.kind in ("req", "rlt"):
            if bc in C.FACTS:
                return True
            if bnot(bc) in C.FACTS:
                return False
        for tv in self.template:
            if tv in bc.fv:
                raise Unsupported("branch inside a symbolic map depends on its index: " + bc.key)
        if bc.kind in ("and", "or"):
            # decide component-wise to keep facts simple
            if bc.kind == "and":
                for a in bc.args:
                    if not self.decide(a):
                        return False
                return True
            for a in bc.args:
                if self.decide(a):
                    return True
            return False
        i = self.choose(2, bc.key[:120])
        if i == 0:
            C.add_fact(bc)
            return True
        C.add_fact(bnot(bc))
        return False

    def oblige(self, name, ok, detail=None):
        if self.muted:
            return ok is True
        if ok is not True and getattr(detail, "verdict", None) == "refuted":
            self.nref = getattr(self, "nref", 0) + 1
        self.obligations.setdefault(name, []).append((ok is True, None if ok is True else (detail or ok), self.prefix()))
        return ok is True

    def run(self, fn, max_paths=4000):
        import time
        import sys
        sys.setrecursionlimit(20000)
        self.trail = []
        old = Explorer.cur
        Explorer.cur = self
        try:
            while True:
                self.pos = 0
                self.labels = []
                self.template = []
                self.mutlog = []
                self.grad = True
                self.muted = 0
                self.nstor = 0
                self.heap = {}
                self.objs = {}
                self._counters = {}
                self.svds = {}
                C.reset()
                POS_HYPS.clear()
                self.npaths += 1
                if self.npaths > max_paths:
                    raise Unsupported("too many paths")
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time budget for path exploration exceeded")
                try:
                    fn()
                except PathEnd:
                    pass
                except Infeasible:
                    pass
                if getattr(self, "nref", 0) >= 4:
                    break       # refuted: the remaining paths cannot change the verdict
                self.trail = self.trail[:self.pos]
                while self.trail and self.trail[-1][0] + 1 >= self.trail[-1][1]:
                    self.trail.pop()
                if not self.trail:
                    break
                self.trail[-1][0] += 1
        finally:
            Explorer.cur = old


def X():
    return Explorer.cur


def decide(bc):
    return Explorer.cur.decide(bc)


def require(name, bc):
    ok = bc is TRUE or C.entails(bc)
    return X().oblige(name, ok, "not entailed: %s" % bc.key)


# ------------------------------------------------------------------ scalars
def mk_int(ip):
    if isinstance(ip, int):
        return ip
    c = ip.const()
    return c if c is not None else SInt(ip)


def as_ip(x):
    if isinstance(x, bool):
        return I(int(x))
    if isinstance(x, int):
        return I(x)
    if isinstance(x, SInt):
        return x.ip
    if isinstance(x, IP):
        return x
    if isinstance(x, SBool):
        return iite(x.bc, I(1), I(0))
    if hasattr(x, "_as_ip"):
        return x._as_ip()
    if hasattr(x, "__index__"):
        return I(x.__index__())
    raise TypeError("expected an integer, got %r" % type(x).__name__)


def is_int(x):
    return isinstance(x, (int, SInt))


def mk_bool(bc):
    if bc is TRUE:
        return True
    if bc is FALSE:
        return False
    return SBool(bc)


def as_bc(x):
    if isinstance(x, SBool):
        return x.bc
    if isinstance(x, BC):
        return x
    if hasattr(x, "_as_bc"):
        return x._as_bc()
    return TRUE if x else FALSE


class SBool:
    __slots__ = ("bc",)

    def __init__(self, bc):
        self.bc = bc

    def __bool__(self):
        return decide(self.bc)

    def __and__(self, o):
        return mk_bool(band(self.bc, as_bc(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(bor(self.bc, as_bc(o)))

    __ror__ = __or__

    def __invert__(self):
        return mk_bool(bnot(self.bc))

    def __int__(self):
        return int(decide(self.bc))

    def __index__(self):
        return int(decide(self.bc))

    def __add__(self, o):
        return mk_int(as_ip(self)) + o

    __radd__ = __add__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            a, b = self.bc, as_bc(o)
            return mk_bool(bor(band(a, b), band(bnot(a), bnot(b))))
        return mk_int(as_ip(self)) == o

    def __hash__(self):
        return hash(self.bc.key)

    def __repr__(self):
        return "SBool(%s)" % self.bc.key


def _num(x):
    return isinstance(x, (int, float, complex, SInt, SReal, Fraction)) and True


class SInt:
    __slots__ = ("ip",)

    def __init__(self, ip):
        self.ip = ip

    def __repr__(self):
        return "SInt(%s)" % self.ip.key

    def __hash__(self):
        raise Unsupported("hash of a symbolic integer")

    def __index__(self):
        c = self.ip.const()
        if c is None:
            # a variable may be determined by the path condition
            raise Unsupported("symbolic integer needed as concrete value: " + self.ip.key)
        return c

    __int__ = None

    def __bool__(self):
        return decide(bnot(eq0(self.ip)))

    def _bin(self, o, f):
        if is_int(o) or isinstance(o, SBool):
            return mk_int(f(self.ip, as_ip(o)))
        return NotImplemented

    def _rb(self, o, fi, fr):
        if is_int(o) or isinstance(o, SBool):
            return mk_int(fi(self.ip, as_ip(o)))
        if isinstance(o, (float, complex)):
            return mk_real(fr(P(self.ip), P(o)))
        return NotImplemented

    def __add__(self, o):
        return self._rb(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._rb(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._rb(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            from .seqs import SSeq, VList, seq_repeat
            r = seq_repeat(SSeq.of(o), self)
            return VList(r) if isinstance(o, list) else r
        return self._rb(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(-self.ip)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if decide(le(0, self.ip)) else mk_int(-self.ip)

    def __floordiv__(self, o):
        def f(a, b):
            if not decide(bnot(eq(b, 0))):
                raise ZeroDivisionError("integer division by zero")
            return a // b
        return self._bin(o, f)

    def __rfloordiv__(self, o):
        return mk_int(I(o)) .__floordiv__(self) if isinstance(o, SInt) else mk_int(_fd(as_ip(o), self.ip))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a % b)

    def __rmod__(self, o):
        if isinstance(o, int):
            return mk_int(I(o) % self.ip)
        return NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if _num(o):
            return mk_real(rdiv(P(self.ip), rp(o)))
        return NotImplemented

    def __rtruediv__(self, o):
        if _num(o):
            return mk_real(rdiv(rp(o), P(self.ip)))
        return NotImplemented

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            return mk_int(self.ip ** o)
        if isinstance(o, (float, Fraction)):
            return mk_real(ppow(P(self.ip), Fraction(o)))
        if isinstance(o, int):
            return mk_real(ppow(P(self.ip), o))
        return NotImplemented

    def __rpow__(self, o):
        if isinstance(o, int) and o > 0:
            if not decide(le(0, self.ip)):
                raise Unsupported("power with a negative symbolic exponent")
            return mk_int(ipow(I(o), self.ip))
        if isinstance(o, float):
            return mk_real(ppowi(P(o), self.ip))
        return NotImplemented

    def _cmp(self, o, f, fr):
        if is_int(o) or isinstance(o, SBool):
            return mk_bool(f(self.ip, as_ip(o)))
        if isinstance(o, (float, SReal, Fraction)):
            if isinstance(o, float) and o != o:
                return False
            if o == float("inf") or o == float("-inf"):
                return fr is _RC["lt"] or fr is _RC["le"] if o > 0 else fr is _RC["gt"] or fr is _RC["ge"]
            if isinstance(o, float) and o == int(o):
                return mk_bool(f(self.ip, I(int(o))))
            return mk_bool(fr(P(self.ip), rp(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lt, _RC["lt"])

    def __le__(self, o):
        return self._cmp(o, le, _RC["le"])

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt(b, a), _RC["gt"])

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: le(b, a), _RC["ge"])

    def __eq__(self, o):
        if is_int(o) or isinstance(o, SBool):
            return mk_bool(eq(self.ip, as_ip(o)))
        if isinstance(o, (float, SReal)):
            return mk_bool(mkreq(P(self.ip) - rp(o)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mk_bool(bnot(r.bc))

    def __rshift__(self, o):
        return self // (2 ** o)

    def __lshift__(self, o):
        return self * (2 ** o)

    def __rlshift__(self, o):
        return o * 2 ** self

    def __rrshift__(self, o):
        return o // 2 ** self

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0 and o & (o + 1) == 0:
            return self % (o + 1)
        return NotImplemented

    __rand__ = __and__

    def __format__(self, spec):
        if spec:
            raise Unsupported("formatting of a symbolic integer")
        return "<%s>" % self.ip.key

    def __str__(self):
        return "<%s>" % self.ip.key

    def __float__(self):
        raise Unsupported("float() of symbolic integer")

    def bit_length(self):
        raise Unsupported("bit_length")


def _fd(a, b):
    if not decide(bnot(eq(b, 0))):
        raise ZeroDivisionError("integer division by zero")
    return a // b


def ipow(b, e):
    """b ** e for a positive constant b and e >= 0 (checked by the caller)"""
    c = e.const()
    if c is not None and c >= 0:
        return b ** c
    bc = b.const()
    if bc == 1:
        return I(1)
    name = "pow%d" % bc
    C.APPAX[name] = lambda x: [bor(lt(x, 0), le(x + 1, iapp(name, x)))]
    c0 = e.c0()
    if c0 > 0 and C.entails(le(0, e - c0)):
        return iapp(name, e - c0) * (bc ** c0)
    return iapp(name, e)


_RC = {
    "lt": lambda a, b: mkrlt(a - b),
    "gt": lambda a, b: mkrlt(b - a),
    "le": lambda a, b: bnot(mkrlt(b - a)),
    "ge": lambda a, b: bnot(mkrlt(a - b)),
}


def rp(x):
    """Python/symbolic scalar -> Poly"""
    if isinstance(x, SReal):
        return x.p
    if isinstance(x, SInt):
        return P(x.ip)
    if isinstance(x, SBool):
        return ind(x.bc)
    if hasattr(x, "_as_poly"):
        return x._as_poly()
    return P(x)


def rdiv(p, q):
    if q.const() == 0:
        raise ZeroDivisionError("division by zero")
    nonzero_obligation(q)
    return p * pinv(q)


def nonzero_obligation(q, name="denominator nonzero"):
    q0 = q
    c = q.const()
    if c is not None and c != 0:
        return True
    ok = is_nonzero(q)
    if not ok and X() and getattr(X(), "sg", None):
        # arbitrary stand-ins for detached values: definedness is obliged for the real ones
        return True
    return X().oblige(name, ok, "cannot prove nonzero: %s" % q0.key[:600]) if X() else ok


def by_cases(q, f, depth=0):
    """f(q) holds, splitting on the undecided conditions inside q (integer ones first)"""
    if f(q):
        return True
    if depth > 12:
        return False
    cands = []
    for k, a in walk_atoms(q).items():
        if a.kind == "ind" and not any(v.startswith("$") for v in a.fv):
            cands.append((a.args[0].kind not in ("le", "eq"), len(k), k, a))
    if not cands:
        return False
    a = min(cands)[3]
    c = a.args[0]
    for cc, val in ((c, ONE), (bnot(c), ZERO)):
        if not C.feasible(cc):
            continue
        with C.assume(cc):
            q2 = rewrite(q, lambda x: val if x is a else None)
            if val is ONE and c.kind in ("req", "eq") and a in top_inds(q):
                q2 = cond_true(q, a)
            if not by_cases(resimplify(q2), f, depth + 1):
                return False
    return True


def _nz(q):
    if q.const() is not None:
        return q.const() != 0
    return sign(q) == "pos" or sign(-q) == "pos" or nonzero_known(q)


def is_nonzero(q):
    return by_cases(q, _nz)


def mk_real(p):
    c = p.const()
    if c is not None:
        return float(c)
    return SReal(p)


class SReal:
    """symbolic Python float/complex"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "SReal(%s)" % self.p.key[:200]

    def __hash__(self):
        return hash(self.p.key)

    def _b(self, o, f):
        if _num(o) or isinstance(o, SBool):
            return mk_real(f(self.p, rp(o)))
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, rdiv)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: rdiv(b, a))

    def __neg__(self):
        return mk_real(-self.p)

    def __abs__(self):
        return mk_real(pabs(self.p))

    def __pow__(self, o):
        if isinstance(o, SInt):
            return mk_real(ppowi(self.p, o.ip))
        return mk_real(ppow(self.p, Fraction(o)))

    def __lt__(self, o):
        return mk_bool(_RC["lt"](self.p, rp(o)))

    def __le__(self, o):
        return mk_bool(_RC["le"](self.p, rp(o)))

    def __gt__(self, o):
        return mk_bool(_RC["gt"](self.p, rp(o)))

    def __ge__(self, o):
        return mk_bool(_RC["ge"](self.p, rp(o)))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if _num(o):
            return mk_bool(mkreq(self.p - rp(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ((not r) if isinstance(r, bool) else mk_bool(bnot(r.bc)))

    def __bool__(self):
        return decide(bnot(mkreq(self.p)))

    def __float__(self):
        raise Unsupported("float() of symbolic real")

    def __format__(self, spec):
        return "<real>"
