"""Vocabulary of the contracts: symbolic arguments, reference terms, obligations."""
import itertools
import random
import time
import traceback
from tvc.ints import *
from tvc import ctx as C
from tvc import terms as TT
from tvc import tensor as T
from tvc.terms import (Poly, P, Sym, entry, ind, ssum, msum, mkseg, delta, pexp, plog, pconj, pabs, ite as rite, ZERO, ONE, J, PI, fn as rfn)
from tvc.prove import prove_eq, NumEnv, eval_poly, eval_bc
from tvc.values import X, mk_int, as_ip, mk_bool, as_bc, decide, PathEnd, SInt, Explorer
from tvc.ctx import Unsupported, Infeasible
from tvc.tensor import Tensor
from tvc.load import World, VList
from tvc.seqs import SSeq

F32, F64, C64, I64, BOOL = T.float32, T.float64, T.complex64, T.int64, T.bool_ if hasattr(T, "bool_") else None


# ------------------------------------------------------------------ registry
UNITS = {}


class Unit:
    def __init__(self, props, name, fn, functions, assumes, bounded, tier, timeout, loop_exit):
        self.props, self.name, self.fn = props, name, fn
        self.functions, self.assumes, self.bounded = functions, assumes, bounded
        self.tier, self.timeout, self.loop_exit = tier, timeout, loop_exit


def unit(props, name, functions=(), assumes=(), bounded=None, tier="quick", timeout=None, loop_exit="closed"):
    """register a contract: fn(world) builds symbolic arguments satisfying the
    precondition, calls the real function and states the postcondition"""
    def deco(fn):
        ps = [props] if isinstance(props, str) else list(props)
        if name in UNITS:
            raise KeyError(name)
        UNITS[name] = Unit(ps, name, fn, tuple(functions), tuple(assumes), bounded, tier, timeout, loop_exit)
        return fn
    return deco


# ------------------------------------------------------------------ arguments
def dim(lo=1, hi=None):
    """an arbitrary integer >= lo (and < hi)"""
    return mk_int(ivar(C.fresh(lo, hi)))


def idx(d):
    return ivar(C.fresh(0, I(as_ip(d))))


def sym(name, *shape, cplx=False, dtype=None, **k):
    return Tensor.sym(name, tuple(shape), dtype or (C64 if cplx else F32), **k)


def indices(name, shape, alphabet):
    return Tensor.sym(name, tuple(shape), I64, rng=(I(0), I(as_ip(alphabet))))


def amplitudes_nonzero():
    """precondition `amplitudes are not all zero': the partial traces are positive"""
    TT.POS_HYPS.append(lambda p: TT.psd_form(p))


# ------------------------------------------------------------------ reference terms
def total(d, f):
    n = C.fresh(0, I(as_ip(d)))
    return ssum(n, I(0), I(as_ip(d)), f(ivar(n)))


def product(n, f, i, j, d, lo=0):
    """entry (i, j) of f(lo) f(lo+1) ... f(n-1), matrices of constant size d (or d(pos))"""
    dims = (I(as_ip(d)),) if not callable(d) else (d(ivar("$t")),)
    t = C.fresh(lo, I(as_ip(n)))
    u, v = C.fresh(0, dims[0].subst({"$t": ivar(t)})), C.fresh(0, dims[0].subst({"$t": ivar(t) + 1}))
    body = f(ivar(t), ivar(u), ivar(v))
    return mkseg(t, (u,), (v,), dims, body, I(lo), I(as_ip(n)), (I(i),), (I(j),))


def product2(n, f, i, j, d):
    """ordered product of matrices acting on pairs of indices"""
    D = I(as_ip(d))
    t = C.fresh(0, I(as_ip(n)))
    u = (C.fresh(0, D), C.fresh(0, D))
    v = (C.fresh(0, D), C.fresh(0, D))
    body = f(ivar(t), tuple(map(ivar, u)), tuple(map(ivar, v)))
    return mkseg(t, u, v, (D, D), body, I(0), I(as_ip(n)), tuple(map(I, i)), tuple(map(I, j)))


# ------------------------------------------------------------------ obligations
class Detail(str):
    """text of a failed obligation with a verdict: refuted / unknown / undecided"""
    verdict = "unknown"
    model = None


def detail(text, verdict="unknown", model=None):
    d = Detail(text)
    d.verdict = verdict
    d.model = model
    return d


def _int_models(extra_fv, k, seed=0):
    """random small integer models of the facts"""
    import z3
    facts = list(C.FACTS)
    out, seen, apps = [], set(), set()
    for f in facts:
        C._range_facts(f.fv, out, seen)
        apps |= f.apps
        seen |= set(f.fv)
    C._range_facts(extra_fv, out, seen)
    seen |= set(extra_fv)
    ifacts = [f for f in facts + out if _intonly(f)]
    ifacts = [f for f in ifacts if not f.apps]
    names = sorted(seen)
    res = []
    rnd = random.Random(seed)
    for r in range(k):
        s = z3.Solver()
        s.set("timeout", 2000)
        for f in ifacts:
            s.add(to_z3b(f))
        if s.check() != z3.sat:
            return res
        order = names[:]
        rnd.shuffle(order)
        for v in order:
            for _ in range(3):
                s.push()
                s.add(z3.Int(v) == rnd.choice([0, 1, 1, 2, 2, 3, 3, 4]))
                if s.check() == z3.sat:
                    break
                s.pop()
            else:
                s.push()
                s.add(z3.Int(v) <= 4)
                if s.check() != z3.sat:
                    s.pop()
        if s.check() != z3.sat:
            continue
        m = s.model()
        res.append({v: m.eval(z3.Int(v), model_completion=True).as_long() for v in names})
    return res


def _intonly(f):
    if f.kind in ("le", "eq", "true", "false"):
        return True
    if f.kind in ("not", "and", "or"):
        return all(_intonly(a) for a in f.args)
    return False


class _AppTab:
    def __init__(self, name, seed):
        self.name, self.seed, self.t = name, seed, {}
        self.env = None

    def __call__(self, *a):
        if a not in self.t:
            r = random.Random(repr((self.name, self.seed, a)))
            cand = list(range(0, 6))
            r.shuffle(cand)
            ax = C.APPAX.get(self.name)
            pick = None
            for v in cand:
                self.t[a] = v
                if ax is None or all(eval_bc(b, self.env) for b in ax(*[I(x) for x in a])):
                    pick = v
                    break
            if pick is None:
                raise KeyError("no value for " + self.name)
            self.t[a] = pick
        return self.t[a]


def _power(nm):
    if nm[:3] == "pow" and nm[3:].isdigit():
        return lambda x: int(nm[3:]) ** x if x >= 0 else 0
    return None


QUICK = 8.0        # seconds before a numeric counterexample is looked for


def triage(d, fv, tries=6, seed=0):
    """_triage with the integer variables that only occur in the ranges of others"""
    fv = set(fv)
    for _ in range(6):
        miss = set()
        r = _triage(d, fv, tries, seed, miss)
        if r[0] != "unknown" or not miss - fv:
            return r
        fv |= miss
    return r


def _triage(d, fv, tries, seed, miss):
    """numeric evaluation of a difference under random models of the path
    condition: 'refuted', 'undecided' (always zero) or 'unknown'"""
    import signal
    ok = 0
    try:
        models = _int_models(fv, tries, seed)
    except Exception:
        return "unknown", None
    for s, m in enumerate(models):
        try:
            env = NumEnv(m, seed=s)
            for nm in list(C.APPAX):
                t = _AppTab(nm, s)
                t.env = env
                env.appf[nm] = _power(nm) or t
            good = True
            rng = []
            C._range_facts(m.keys(), rng, set())
            for f in C.FACTS + rng:
                if not eval_bc(f, env):
                    good = False
                    break
            if not good:
                continue
            if not isinstance(d, Poly):
                v = 0.0 if eval_bc(d, env) else 1.0
                sc = 1.0
            else:
                v = eval_poly(d, env)
                sc = 1.0 + max([abs(eval_poly(TT.mono_poly(mo, c), env)) for mo, c in d.d.items()] or [0])
            if abs(v) > 1e-6 * sc:
                return "refuted", {"integers": {k: x for k, x in m.items()}, "difference": str(v),
                                   "entries": {str(k): str(x) for k, x in list(env.tab.items())[:24]}}
            ok += 1
        except Exception as e:
            if isinstance(e, KeyError) and e.args and e.args[0] in C.RNG:
                miss.add(e.args[0])
            if C.DEBUG:
                traceback.print_exc()
            continue
    return ("undecided", ok) if ok >= 3 else ("unknown", None)


def equal(name, p, q):
    """obligation: two terms are equal under the path condition"""
    p, q = P(p), P(q)
    d = p - q
    t0 = time.time()
    r = prove_eq(p, q, limit=QUICK)
    if r is True:
        return X().oblige(name, True)
    if X().muted:
        return X().oblige(name, False, r)
    v, m = triage(d, d.fv)
    if time.time() - t0 > QUICK and not (v == "refuted" and triage(d, d.fv, seed=17)[0] == "refuted"):
        # no counterexample on two sets of models: the full time limit
        r = prove_eq(p, q)
        if r is True:
            return X().oblige(name, True)
    return X().oblige(name, False, detail(r, v, m))


def holds(name, bc):
    """obligation: an integer/boolean condition is entailed by the path condition"""
    bc = as_bc(bc)
    if bc is TRUE or C.entails(bc):
        return X().oblige(name, True)
    v, m = triage(bc, bc.fv)
    return X().oblige(name, False, detail("not entailed: %s under %s" % (bc.key, [str(f) for f in C.FACTS][:30]), v, m))


def _rsimp(b):
    """a real-valued comparison with its terms simplified under the path condition"""
    if b.kind == "not":
        return bnot(_rsimp(b.args[0]))
    if b.kind in ("and", "or"):
        return (band if b.kind == "and" else bor)(*[_rsimp(x) for x in b.args])
    if b.kind in ("rlt", "req"):
        p = TT.resimplify(b.args[0])
        return TT.mkrlt(p) if b.kind == "rlt" else TT.mkreq(p)
    return b


def instantiate(*ix):
    """add the instances of the quantified facts at the given indices"""
    for f in list(C.FACTS):
        if f.kind == "forall":
            q, d, b = f.args
            for i in ix:
                i = I(as_ip(i))
                if C.entails(band(le(0, i), lt(i, d))):
                    C.add_fact(_rsimp(b.subst({q: i})))


def by_contradiction(name, bc, *ix):
    """obligation: the negation contradicts the quantified facts instantiated at ix (proved facts are kept)"""
    if not C.entails(bc):
        neg = bnot(bc)
        with C.assume(*(neg.args if neg.kind == "and" else (neg,))):
            n = len(C.FACTS)
            instantiate(*ix)
            bad = not C.consistent() or any(_rsimp(f) is FALSE for f in list(C.FACTS) if f.kind != "forall")
            del C.FACTS[n:]
        if not bad:
            return holds(name, bc)
    r = X().oblige(name, True)
    C.add_fact(bc)
    return r


def rholds(name, bc):
    """obligation: a comparison of real terms follows from one fact of the path condition"""
    bc = _rsimp(bc)
    neg = bc.kind == "not"
    core = bc.args[0] if neg else bc
    if bc is TRUE:
        return X().oblige(name, True)
    if core.kind in ("rlt", "req"):
        for f in list(C.FACTS):
            n2 = f.kind == "not"
            c2 = f.args[0] if n2 else f
            if n2 == neg and c2.kind == core.kind and prove_eq(TT.resimplify(c2.args[0]), core.args[0]) is True:
                return X().oblige(name, True)
    return holds(name, bc)


def true(name, b, why=""):
    """obligation: a concrete fact about the result object"""
    return X().oblige(name, bool(b), detail("does not hold: " + str(why), "refuted"))


def shape(name, t, want):
    if not isinstance(t, Tensor):
        return true(name, False, "result is %s, not a tensor" % type(t).__name__)
    want = [I(as_ip(d)) for d in want]
    if len(t.dims) != len(want):
        return true(name, False, "rank %d, expected %d" % (len(t.dims), len(want)))
    return holds(name, band(*[eq(a, b) for a, b in zip(t.dims, want)])) if want else true(name, True)


def tensor_is(name, t, want, f):
    """obligation: t has the shape `want' and entries f(indices)"""
    if not shape(name + ".shape", t, want):
        return False
    ix = [idx(d) for d in want]
    return equal(name + ".value", t.pel(*ix), f(*ix))


def log_tensor_is(name, t, log, want, f):
    """obligation: t * exp(log) has the shape `want' and entries f(indices)"""
    if not shape(name + ".shape", t, want):
        return False
    ls = T.Tensor.expand(log, *[mk_int(I(as_ip(d))) for d in want]) if len(log.dims) != len(want) or True else log
    ix = [idx(d) for d in want]
    return equal(name + ".value", t.pel(*ix) * pexp(ls.pel(*ix)), f(*ix))


def unchanged(name, t, f, shape):
    ix = [idx(d) for d in shape]
    return equal(name, t.pel(*ix), f(*ix))


def raises(name, fn, exc, allow_other=()):
    """obligation: calling fn raises exc"""
    try:
        fn()
    except (PathEnd, Infeasible, Unsupported):
        raise
    except exc as e:
        return true(name, True)
    except Exception as e:
        return true(name, False, "raised %s: %s" % (type(e).__name__, e))
    if X().muted:
        return True
    return true(name, False, "no exception raised under %s" % [str(f) for f in C.FACTS][:20])


def rejects(name, fn):
    """obligation: calling fn raises an error"""
    from .run import classify
    try:
        fn()
    except (PathEnd, Infeasible, Unsupported):
        raise
    except Exception as e:
        if not isinstance(e, (AssertionError, ValueError, RuntimeError, TypeError, IndexError)) or classify(e) == "engine" and not isinstance(e, TypeError):
            raise Unsupported("%s: %s" % (type(e).__name__, str(e)[:200]))
        if isinstance(e, TypeError) and classify(e) == "engine":
            raise Unsupported("TypeError: %s" % str(e)[:200])
        return true(name, True)
    if X().muted:
        return True
    return true(name, False, "no exception raised under %s" % [str(f) for f in C.FACTS][:20])


class stopgrad:
    """within: values cut off from differentiation are arbitrary; .used tells whether there were any"""

    def __enter__(self):
        self.l = T.SG = X().sg = []
        return self

    def __exit__(self, *a):
        T.SG = X().sg = None
        self.used = bool(self.l)
        return False


def muted():
    return bool(X().muted)


def done():
    """end a harness inside a muted exploration"""
    return bool(X().muted)


# ------------------------------------------------------------------ models
def havoc(t, name, view=False, **k):
    """replace the value of a tensor (with view: of its whole storage) by an arbitrary one (any training history)"""
    s = Sym(name, t.dtype.kind == "c", **k)
    st = t.st
    if not view and t.vm is not None and not (len(t.vm) == len(t.ix) and all(e.key == ivar(x).key for e, x in zip(t.vm, t.ix))):
        raise Unsupported("parameter is a view")
    st.body = entry(s, [ivar(x) for x in st.ix])
    return s


def havoc_params(model, tag=""):
    """arbitrary values for all parameters and buffers of a model; returns name -> Sym"""
    out = {}
    seen = set()
    for n, p in list(model.named_parameters()) + list(model.named_buffers()):
        if p.st.sid in seen:
            continue
        seen.add(p.st.sid)
        out[n] = havoc(p, tag + n)
    return out


def emb_index(name, d, cplx=False):
    """arbitrary embedding of integer data: index k -> vector name[k, :]"""
    s = Sym(name, cplx)

    def fun(t):
        return Tensor.make(list(t.dims) + [I(as_ip(d))], C64 if cplx else F32, lambda *i: entry(s, (t.el(*i[:-1]), i[-1])))
    fun.entry = lambda k, j: entry(s, (k, j))
    return fun


def emb_real(name, d, cplx=False):
    """arbitrary embedding of real data: x -> vector of functions of x"""
    def fun(t):
        return Tensor.make(list(t.dims) + [I(as_ip(d))], C64 if cplx else F32, lambda *i: fun.entry(t.pel(*i[:-1]), i[-1]))
    fun.entry = lambda x, j: rfn(name, (P(x), I(j)), real=not cplx)
    return fun
