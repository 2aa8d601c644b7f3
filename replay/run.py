"""run.py --prop C01 --seed S --budget SECONDS [--min N] --out F
   run.py --replay FILE          (re-run the one case of a replay file)"""
import argparse, json, signal, sys, time, traceback, os, hashlib, importlib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def run_case(mod, prop, case):
    from common import Violation, reset_state
    import torch
    torch.set_default_dtype(torch.float64)
    torch.manual_seed(case.get("seed", 0) % (2 ** 31))
    reset_state()

    def late(*_):
        raise TimeoutError("no result within 60 s")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(60)
    try:
        mod.RUN[prop](case)
        return None
    except Violation as e:
        return "wrong result: " + str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = ""
        for f in tb:
            if "torchmps" in f.filename:
                loc = " at %s:%s" % (os.path.basename(f.filename), f.name)
        return "unexpected %s: %s%s" % (type(e).__name__, str(e)[:300], loc)
    finally:
        signal.alarm(0)


def literals():
    """the integers of the program text: sizes at which it may treat an input specially"""
    import ast
    import torchmps
    out = set()
    d = os.path.dirname(os.path.abspath(torchmps.__file__))
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            try:
                t = ast.parse(open(os.path.join(d, f)).read())
            except (OSError, SyntaxError):
                continue
            out |= {int(n.value) for n in ast.walk(t) if isinstance(n, ast.Constant) and type(n.value) in (int, float) and 2 < abs(n.value) < 1000 and int(n.value) == n.value}
    return {x for h in out for x in (h - 1, h, h + 1)}


def hinted(hints, share):
    """the generators draw their sizes from RandomState.randint: a share of the draws takes a number of the program text or of the
    prover's counterexample instead (generation only; the data of a case follows from its seed)"""
    import numpy as np
    real = np.random.RandomState

    class Hinted(real):
        def randint(self, low, high=None, size=None, dtype=int):
            v = super().randint(low, high, size, dtype)
            lo, hi = (0, low) if high is None else (low, high)
            if size is None and 3 < hi - lo <= 2000 and self.random_sample() < share:
                c = [h for h in hints if lo <= h < hi]
                if c:
                    return c[super().randint(len(c))]
            return v
    return real, Hinted


def cases(mod, prop, seed, hints, share):
    import numpy as np
    real, hint = hinted(sorted(hints), share)
    it = mod.CASES[prop](seed)
    while True:
        np.random.RandomState = hint
        try:
            c = next(it)
        except StopIteration:
            return
        finally:
            np.random.RandomState = real
        yield c


def module_for(prop):
    import oracles
    return oracles


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--max", type=int, default=100000)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--hints", default="", help="sizes of a counterexample of the prover")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        if d.get("case") is None:
            print("no failing input recorded: " + str(d.get("message")))
            return 2
        mod = module_for(d["property"])
        msg = run_case(mod, d["property"], d["case"])
        print("REPRODUCED: " + msg if msg else "not reproduced")
        return 1 if msg else 0
    mod = module_for(a.prop)
    t0 = time.time()
    fails, seen, samples, n = [], set(), [], 0
    hints = {int(x) for x in a.hints.split(",") if x}
    for case in cases(mod, a.prop, a.seed, hints or literals(), 0.4 if hints else 0.15):
        if time.time() - t0 > a.budget or n >= a.max:
            break
        n += 1
        key = json.dumps(case, sort_keys=True)
        seen.add(hashlib.sha1(key.encode()).hexdigest())
        if len(samples) < 3:
            samples.append(case)
        msg = run_case(mod, a.prop, case)
        if msg:
            fails.append({"case": case, "message": msg})
            if len(fails) >= 5:
                break
    json.dump({"evaluations": n, "distinct": len(seen), "samples": samples,
               "failures": fails, "wall_s": time.time() - t0}, open(a.out, "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
