"""Prover process: discharge the contract units of one property against the
current tree.   python3-vt -m contracts.run --prop C01 --out F [--tier T] [--jobs N]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)

SKIP = {"run", "spec"}


def load_units():
    import contracts
    from contracts import spec
    for m in sorted(x.name for x in pkgutil.iter_modules([HERE])):
        if m not in SKIP:
            importlib.import_module("contracts." + m)
    return spec.UNITS


ENGINE_ERRORS = (AttributeError, TypeError, NameError, KeyError, NotImplementedError, RecursionError, MemoryError, ImportError, SyntaxError)


def classify(e):
    """is this exception an outcome of the code under verification, or a limit of the engine?"""
    tb = traceback.extract_tb(e.__traceback__)
    inner = tb[-1].filename if tb else ""
    in_engine = "/tvc/" in inner or "/contracts/" in inner or "z3" in inner
    if isinstance(e, ENGINE_ERRORS):
        if isinstance(e, NotImplementedError) and not in_engine:
            return "code"
        return "engine"
    if isinstance(e, (AssertionError, StopIteration, UnboundLocalError)) and in_engine:
        return "engine"
    return "code"


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = [f for f in tb if f.filename.startswith("<torchmps")]
    f = loc[-1] if loc else (tb[-1] if tb else None)
    return "%s:%s:%s" % (f.filename.strip("<>"), f.name, f.lineno) if f else "?"


def run_unit(u, tier, budget, q=None):
    from contracts import spec
    from tvc import ctx as C
    from tvc.values import Explorer, PathEnd, X
    from tvc.ctx import Unsupported, Infeasible
    t0 = time.time()
    ex = Explorer()
    ex.loop_exit = u.loop_exit
    ex.deadline = t0 + budget
    stat = {"complete": 0}
    res = {"unit": u.name, "functions": list(u.functions), "assumes": list(u.assumes), "bounded": u.bounded}

    def harness():
        try:
            w = spec.World(repo=os.environ.get("VERIF_REPO", "/repo"))
            u.fn(w)
        except (PathEnd, Infeasible, Unsupported):
            raise
        except Exception as e:
            if X().muted:
                return
            if classify(e) == "engine":
                raise Unsupported("%s: %s at %s" % (type(e).__name__, str(e)[:200], where(e)))
            X().oblige(u.name + ":no-exception", False,
                       spec.detail("%s: %s at %s under %s" % (type(e).__name__, str(e)[:200], where(e), [str(f) for f in C.FACTS][:30]), "unknown"))
            return
        if not X().muted:
            # reachability guard: the path condition must be consistent
            if C.entails(spec.FALSE):
                X().oblige(u.name + ":reachable", False, spec.detail("path condition is contradictory", "unknown"))
            else:
                stat["complete"] += 1
                X().oblige(u.name + ":no-exception", True)

    status, reason = "proved", None
    try:
        ex.run(harness)
    except Unsupported as e:
        status, reason = "unsupported", str(e)[:500]
    except Infeasible:
        pass
    except Exception as e:
        status, reason = "unsupported", "engine %s: %s at %s" % (type(e).__name__, str(e)[:300], where(e))
        if os.environ.get("TVC_DEBUG"):
            traceback.print_exc()
    obl, fails, n, ok = {}, [], 0, 0
    for name, l in ex.obligations.items():
        good = sum(1 for a, _, _ in l if a)
        obl[name] = [good, len(l)]
        n += len(l)
        ok += good
        for a, d, pre in l:
            if not a:
                fails.append({"obligation": u.name + "/" + name, "path": list(pre), "detail": str(d)[:1500],
                              "verdict": getattr(d, "verdict", "unknown"), "model": getattr(d, "model", None)})
    vs = [f["verdict"] for f in fails]
    if fails:
        if any(v in ("refuted", "unknown") for v in vs):
            status = "failed" if status != "unsupported" or "refuted" in vs else status
        elif status == "proved":
            status, reason = "undecided", "term prover incomplete; numerically equal on all tried models"
    elif status == "proved" and (n == 0 or stat["complete"] == 0):
        status, reason = "unsupported", "no obligation generated"
    res.update(status=status, reason=reason, obligations=n, discharged=ok, named=obl, failures=fails[:8], paths=ex.npaths,
               complete_paths=stat["complete"], invariants=ex.inv_ok, z3_queries=C.STATS["z3"], z3_time=round(C.STATS["z3_time"], 3),
               notes=ex.notes[:20], time=round(time.time() - t0, 2))
    return res


def worker(name, tier, budget, conn):
    try:
        import resource
        import signal
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)
        lim = int(float(os.environ.get("VERIF_MEM_GB", "6")) * 2 ** 30)
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        from contracts import spec
        r = run_unit(spec.UNITS[name], tier, budget)
    except BaseException as e:
        r = {"unit": name, "status": "unsupported", "reason": "prover %s: %s" % (type(e).__name__, str(e)[:300]), "obligations": 0,
             "discharged": 0, "failures": [], "functions": [], "assumes": [], "bounded": None, "time": 0, "z3_queries": 0, "z3_time": 0, "named": {}}
    conn.send(json.dumps(r))
    conn.close()


GRACE = 90       # seconds left once a failing input is known (SIGUSR1)


def run_all(names, tier, jobs, budget, deadline):
    import signal

    def hurry(*_):
        nonlocal deadline
        deadline = min(deadline, time.time() + GRACE)
    signal.signal(signal.SIGUSR1, hurry)
    ctx = mp.get_context("fork")
    pend, run, out = list(names), [], []
    from contracts import spec
    while pend or run:
        while pend and len(run) < jobs:
            n = pend.pop(0)
            u = spec.UNITS[n]
            b = u.timeout or budget
            a, c = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(n, tier, b, c))
            p.start()
            c.close()
            run.append((n, p, a, time.time(), b))
        nxt = []
        for n, p, a, t, b in run:
            if a.poll():
                try:
                    out.append(json.loads(a.recv()))
                except EOFError:
                    out.append(_dead(n, "prover process died"))
                p.join(5)
            elif not p.is_alive():
                out.append(_dead(n, "prover process died"))
            elif time.time() - t > b + 20 or time.time() > deadline:
                p.kill()
                out.append(_dead(n, "time limit of %d s" % b))
            else:
                nxt.append((n, p, a, t, b))
        run = nxt
        if time.time() > deadline:
            for n in pend:
                out.append(_dead(n, "overall time limit"))
            pend = []
        time.sleep(0.05)
    order = {n: i for i, n in enumerate(names)}
    out.sort(key=lambda r: order[r["unit"]])
    return out


def _dead(n, why):
    from contracts import spec
    u = spec.UNITS[n]
    return {"unit": n, "status": "unsupported", "reason": why, "obligations": 0, "discharged": 0, "failures": [], "functions": list(u.functions),
            "assumes": list(u.assumes), "bounded": u.bounded, "time": 0, "z3_queries": 0, "z3_time": 0, "named": {}}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--unit", default=None)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--budget", type=float, default=150)
    ap.add_argument("--deadline", type=float, default=500)
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    units = load_units()
    names = [n for n, u in units.items() if (a.prop is None or a.prop in u.props) and (a.unit is None or a.unit in n) and (a.tier == "thorough" or u.tier == "quick")]
    res = run_all(names, a.tier, a.jobs, a.budget, t0 + a.deadline)
    d = {"prop": a.prop, "units": res, "wall_s": round(time.time() - t0, 2)}
    if a.out:
        json.dump(d, open(a.out, "w"), indent=1)
    if a.v or not a.out:
        for r in res:
            print("%-52s %-11s %3d/%-3d paths=%s t=%.1f %s" % (r["unit"], r["status"], r["discharged"], r["obligations"], r.get("paths"), r["time"], r.get("reason") or ""))
            for f in r["failures"][:3]:
                print("     FAIL", f["obligation"], f["verdict"], f["path"], f["detail"][:700], f["model"])
    return 0


if __name__ == "__main__":
    sys.exit(main())
