"""Global proof context: integer facts, ranges of index variables, entailment through z3."""
import os
DEBUG = bool(os.environ.get("TVC_DEBUG2"))
import z3
from .ints import *
from . import ints as _ints


class Unsupported(BaseException):
    """construct outside the reach of the engine (never caught by code under verification)"""


class Infeasible(BaseException):
    """current path is impossible"""


RNG = {}          # var name -> (lo IP, hi IP or None)
APPAX = {}        # app name -> fn(args) -> list of BC
_fresh = [0]
FACTS = []        # list of BC
PINNED = set()    # variables some equality fact speaks about
STATS = {"z3": 0, "z3_time": 0.0, "cache": 0}
_cache = {}


def reset():
    RNG.clear()
    APPAX.clear()
    FACTS.clear()
    PINNED.clear()
    _fresh[0] = 0
    from .ints import _IA
    RNG["?"] = None
    del RNG["?"]


def fresh(lo=0, hi=None, tag="?"):
    _fresh[0] += 1
    n = "%s%d" % (tag, _fresh[0])
    RNG[n] = (I(lo), None if hi is None else I(hi))
    return n


class assume:
    def __init__(self, *cs):
        self.cs = [c for c in cs if c is not TRUE]

    def __enter__(self):
        self.n = len(FACTS)
        FACTS.extend(self.cs)

    def __exit__(self, *a):
        del FACTS[self.n:]


def add_fact(c):
    if c is TRUE:
        return
    FACTS.append(c)
    if c.kind == "eq":
        PINNED.update(c.fv)
    if c.kind == "le" and len(c.fv) == 1 and not c.apps:
        # a bound that pins a variable to the end of its range
        v, = c.fv
        r = RNG.get(v)
        if r is not None:
            for b in (r[0], None if r[1] is None else r[1] - 1):
                if b is not None and b.const() is not None:
                    q = eq(ivar(v), b)
                    if q is not TRUE and q not in FACTS and entails(q):
                        FACTS.append(q)
                        PINNED.add(v)


def _range_facts(fv, out, seen):
    st = list(fv)
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        r = RNG.get(v)
        if r is None:
            continue
        lo, hi = r
        x = ivar(v)
        if lo is not None:
            out.append(le(lo, x))
            st.extend(lo.fv)
        if hi is not None:
            out.append(lt(x, hi))
            st.extend(hi.fv)


def relevant(c):
    """facts connected to the variables of c"""
    seen = set()
    out = []
    _range_facts(c.fv, out, seen)
    seen |= set(c.fv)
    apps = set(c.apps)
    pend = list(FACTS)
    used = []
    appdone = set()
    changed = True
    while changed:
        changed = False
        rest = []
        for f in pend:
            if not f.fv or (f.fv & seen) or (f.apps & apps):
                used.append(f)
                apps |= f.apps
                _range_facts(f.fv, out, seen)
                seen |= f.fv
                changed = True
            else:
                rest.append(f)
        pend = rest
        for a in list(apps):
            if a in appdone:
                continue
            appdone.add(a)
            ax = APPAX.get(a.args[0])
            if ax:
                for f in ax(*a.args[1:]):
                    out.append(f)
                    _range_facts(f.fv, out, seen)
                    seen |= f.fv
                    apps |= f.apps
                    changed = True
    return used + out


def _check(fs, timeout=1500):
    import time
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    for f in fs:
        s.add(to_z3b(f))
    r = s.check()
    STATS["z3"] += 1
    STATS["z3_time"] += time.time() - t0
    return r


def entails(c):
    if c is TRUE:
        return True
    nc = bnot(c)
    if c in FACTS:
        return True
    if c is FALSE:
        c_for = FALSE
    fs = relevant(c)
    key = (frozenset(f.key for f in fs), c.key)
    r = _cache.get(key)
    if r is None:
        r = _check(fs + [nc]) == z3.unsat
        _cache[key] = r
    else:
        STATS["cache"] += 1
    return r


def feasible(c):
    """is c possibly consistent with the facts"""
    if c is FALSE:
        return False
    if c is TRUE:
        return consistent()
    fs = relevant(c)
    key = (frozenset(f.key for f in fs), "F" + c.key)
    r = _cache.get(key)
    if r is None:
        r = _check(fs + [c]) != z3.unsat
        _cache[key] = r
    return r


def consistent():
    fs = list(FACTS)
    out, seen = [], set()
    for f in fs:
        _range_facts(f.fv, out, seen)
    key = (frozenset(f.key for f in fs), "CONS")
    r = _cache.get(key)
    if r is None:
        r = _check(fs + out) != z3.unsat
        _cache[key] = r
    return r


def model(extra=()):
    """a z3 model of all facts (dict var->int) or None"""
    fs = list(FACTS) + list(extra)
    out, seen = [], set()
    apps = set()
    for f in fs:
        _range_facts(f.fv, out, seen)
        apps |= f.apps
    for v in list(RNG):
        if not v.startswith("?"):
            _range_facts([v], out, seen)
    for a in apps:
        ax = APPAX.get(a.args[0])
        if ax:
            out.extend(ax(*a.args[1:]))
    o = z3.Solver()
    o.set("timeout", 3000)
    for f in fs + out:
        o.add(to_z3b(f))
    vs = [z3.Int(v) for v in seen]
    for bound in (3, 5, 9, 40, None):
        o.push()
        if bound is not None:
            for v in vs:
                o.add(v <= bound, v >= -bound)
        if o.check() == z3.sat:
            m = o.model()
            return {v: m.eval(z3.Int(v), model_completion=True).as_long() for v in seen}
        o.pop()
    return None


def simp_bc(c):
    if c is TRUE or c is FALSE:
        return c
    if c.kind in ("rlt", "req") or (c.kind == "bapp"):
        if c in FACTS:
            return TRUE
        if bnot(c) in FACTS:
            return FALSE
        return c
    if entails(c):
        return TRUE
    if entails(bnot(c)):
        return FALSE
    return c


def _ent_hook(c):
    return all(entails(x) for x in (c.args if c.kind == "and" else (c,)))


_ints.ENT[0] = _ent_hook
