#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]      decide one property on /repo's working tree
   check.py --replay FILE                          re-run the failing input (or obligation) of a replay file
   check.py --setup                                test the interpreters the checks need

Deciding step: the contract units of the property (contracts/, engine tvc/), whose
obligations are generated from /repo's current source and discharged by tvc's term
prover and z3.  Beside it, replay/ runs the real code on concrete inputs against
independent oracles: it confirms failed obligations with a failing input, and is the
bounded stand-in (labelled so in the evidence) where a unit is out of the prover's reach."""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROVER = "python3-vt"
REAL = "/opt/venv/bin/python"
TRUST = [
    "tvc: loader/AST rewriting, symbolic torch/numpy/opt_einsum library model, loop rules, term prover (/verif/tvc)",
    "z3 (integer obligations)", "CPython (executes the rewritten code of /repo)",
    "tensor entries are mathematical reals/complex numbers, torch operations follow their documented semantics; machine rounding is not modelled",
]
RULE = ("runtime cross-check of the real code against independent numpy oracles: cases drawn by the seeded generators of /verif/replay "
        "(sizes, modes, dtypes, magnitudes, histories vary); distinct = distinct generated case descriptions; every case executes the property's "
        "operation on the real code and compares all outputs")


def log(*a):
    print(*a, flush=True)


def env(repo=True):
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["OMP_NUM_THREADS"] = "1"
    e["MKL_NUM_THREADS"] = "1"
    e["PYTHONPATH"] = REPO if repo else HERE
    return e


def model_sizes(failed):
    """the integers of the prover's counterexamples"""
    out = set()
    for u in failed:
        for f in u.get("failures", []):
            m = f.get("model")
            if isinstance(m, dict):
                out |= {int(v) for v in m.get("integers", {}).values() if 0 < int(v) < 1000}
    return sorted(out)


def start_runtime(tmp, prop, seed, budget, maxn=1000000, hints=()):
    out = os.path.join(tmp, "rt-%d-%d.json" % (seed, int(time.time() * 1000) % 10 ** 9))
    p = subprocess.Popen([REAL, os.path.join(HERE, "replay", "run.py"), "--prop", prop, "--seed", str(seed), "--budget", str(budget), "--max", str(maxn), "--out", out, "--hints", ",".join(map(str, hints))],
                         cwd=tmp, env=env(), stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), stdin=subprocess.DEVNULL, start_new_session=True)
    p.t_end = time.time() + budget * 1.5 + 60
    p.out, p.seed = out, seed
    return p


def finish_runtime(p):
    try:
        p.wait(max(1, p.t_end - time.time()))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "wall_s": 0, "error": "a case did not end within the time limit", "hang": True, "seed": p.seed}
    try:
        d = json.load(open(p.out))
    except Exception:
        err = open(p.out + ".err").read()[-1500:]
        d = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "wall_s": 0, "error": err or "no output"}
    d["seed"] = p.seed
    return d


def start_prover(tmp, prop, tier, jobs, budget, deadline):
    out = os.path.join(tmp, "prover.json")
    p = subprocess.Popen([PROVER, "-m", "contracts.run", "--prop", prop, "--tier", tier, "--jobs", str(jobs), "--budget", str(budget), "--deadline", str(deadline), "--out", out],
                         cwd=HERE, env=env(False), stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), stdin=subprocess.DEVNULL, start_new_session=True)
    p.out, p.t_end = out, time.time() + deadline + 60
    return p


def finish_prover(p):
    try:
        p.wait(max(1, p.t_end - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
    try:
        return json.load(open(p.out))
    except Exception:
        return {"units": [], "error": open(p.out + ".err").read()[-1500:]}


def hurry(p):
    try:
        os.kill(p.pid, 10)
    except OSError:
        pass


def known():
    """open findings: lines `finding: property=<id> match=<text> <what fails>'"""
    res = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            if l.startswith("finding:"):
                f = l.split(None, 3)
                d = dict(x.split("=", 1) for x in f[1:3])
                res.append((d["property"], d["match"], f[3].strip()))
    except OSError:
        pass
    return res


LEAN = ("C01", "C12", "C18")     # properties whose argument ends with a Lean lemma: re-checked in every tier


def lean_check(tmp):
    """re-check the Lean lemmas (in the thorough tier, and always for LEAN)"""
    d = os.path.join(HERE, "lean")
    if not os.path.isdir(d):
        return None
    files = sorted(f for f in os.listdir(d) if f.endswith(".lean"))
    res = {}
    for f in files:
        t = time.time()
        try:
            r = subprocess.run(["lean", os.path.join(d, f)], cwd=tmp, capture_output=True, text=True, timeout=120)
            res[f] = {"ok": r.returncode == 0 and "sorry" not in r.stdout, "s": round(time.time() - t, 1), "out": (r.stdout + r.stderr)[:300]}
        except Exception as e:
            res[f] = {"ok": False, "out": str(e)[:300]}
    return res


def write_replay(prop, seed, d):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    body = json.dumps(d, sort_keys=True, default=str)
    path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return path


def decide(prop, tier, seed):
    t0 = time.time()
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    entry = [c for c in man["checks"] if c["property"] == prop]
    level = entry[0]["level"] if entry else "exploration"
    thorough = tier == "thorough"
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        ncpu = os.cpu_count() or 4
        nrt = 3 if thorough else 1
        rt = [start_runtime(tmp, prop, seed + 7919 * i, 300 if thorough else 30) for i in range(nrt)]
        pv = start_prover(tmp, prop, tier, max(2, ncpu - nrt), 600 if thorough else 150, 780 if thorough else 420)
        rts = [finish_runtime(p) for p in rt]
        if any(d["failures"] for d in rts) and not thorough:
            # the real code fails on an input: the verdict is known, the prover may finish what it has begun
            hurry(pv)
        pr = finish_prover(pv)
        units = pr.get("units", [])
        failed = [u for u in units if u["status"] == "failed"]
        fails = [(d["seed"], f) for d in rts for f in d["failures"]]
        if failed and not fails and time.time() - t0 < 600:
            # a failed obligation: look for a concrete failing input on the real code
            left = 780 - (time.time() - t0)
            # (half of the searches use the sizes of the counterexample)
            sizes = model_sizes(failed)
            more = [start_runtime(tmp, prop, seed + 104729 * (i + 1), min(90, left / 2), hints=sizes if i % 2 else ()) for i in range(min(7, ncpu))]
            extra = [finish_runtime(p) for p in more]
            rts += extra
            fails = [(d["seed"], f) for d in extra for f in d["failures"]]
        lean = lean_check(tmp) if thorough or prop in LEAN else None
    out, nviol = [], 0
    kn = [k for k in known() if k[0] == prop]
    kseen = set()

    def report(text, replay, tail=""):
        nonlocal nviol
        for k in kn:
            if k[1] in text:
                if k[2] not in kseen:
                    kseen.add(k[2])
                    out.append("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
                return
        nviol += 1
        out.append("VIOLATION property=%s replay=%s%s" % (prop, write_replay(prop, seed, replay), tail))
    ob = [f["obligation"] for u in failed for f in u["failures"]]
    for s, f in fails[:3]:
        report(f["message"], {"property": prop, "case": f["case"], "message": f["message"], "seed": s, "failed_obligations": ob[:20],
                              "how": "python3 /verif/check.py --replay <this file>"})
    if failed and not fails:
        for u in failed[:3]:
            f = u["failures"][0] if u["failures"] else {"obligation": u["unit"], "detail": ""}
            report(f["obligation"] + " " + f["detail"],
                   {"property": prop, "case": None, "unit": u["unit"], "obligation": f["obligation"], "message": "obligation not discharged: " + f["obligation"],
                    "verifier_output": u["failures"], "functions": u["functions"]}, " no-failing-input-found")
    for u in failed:
        for f in u["failures"][:2]:
            log("failed obligation: %s [%s] %s" % (f["obligation"], f["verdict"], f["detail"][:300].replace("\n", " ")))
    for s, f in fails[:3]:
        log("failing input (seed %s): %s  %s" % (s, f["message"][:300], json.dumps(f["case"])[:300]))
    for u in units:
        if u["status"] in ("undecided", "unsupported"):
            log("not decided by the prover (bounded stand-in only): %s: %s" % (u["unit"], str(u.get("reason"))[:200]))
    for d in rts:
        if d.get("error"):
            log("runtime cross-check: " + d["error"][-400:])
    funcs = sorted({f for u in units if u["status"] == "proved" for f in u["functions"]})
    assumes = sorted({a for u in units for a in u["assumes"]})
    cov = {
        "evaluations": sum(d["evaluations"] for d in rts), "distinct_nontrivial": sum(d["distinct"] for d in rts), "rule": RULE,
        "samples": [x for d in rts for x in d["samples"]][:4],
        "obligations": sum(u["obligations"] for u in units), "discharged": sum(u["discharged"] for u in units),
        "checker_cmd": "python3-vt -m contracts.run --prop %s --tier %s -v   (cwd /verif)" % (prop, tier),
        "trusted_base": TRUST,
        "contract_units": len(units), "units_proved": sum(u["status"] == "proved" for u in units),
        "functions_under_contract": funcs,
        "back_ends": {"tvc term prover": "all term equalities", "z3": {"queries": sum(u["z3_queries"] for u in units), "seconds": round(sum(u["z3_time"] for u in units), 2)}},
        "prover_seconds": round(sum(u["time"] for u in units), 1),
        "units": [{k: u.get(k) for k in ("unit", "status", "obligations", "discharged", "paths", "bounded", "time", "reason")} for u in units],
        "not_proved_bounded_standin_only": [u["unit"] for u in units if u["status"] != "proved"],
        "bounded_units": [{"unit": u["unit"], "bound": u["bounded"]} for u in units if u["bounded"]],
        "explanation": "obligations are generated from /repo's current source; units listed under not_proved_bounded_standin_only are decided only by the bounded runtime cross-check",
    }
    if pr.get("error"):
        cov["prover_error"] = pr["error"]
        log("prover: " + pr["error"][-600:])
    if lean is not None:
        cov["lean_lemmas"] = lean
    elif os.path.isdir(os.path.join(HERE, "lean")):
        cov["lean_lemmas"] = "re-checked in the thorough tier only"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumes + ["floating-point rounding is not modelled", "torch, numpy, opt_einsum behave as the library model of tvc states"],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)
    log("%s %s: %d/%d obligations of %d units (%d proved), %d runtime cases, %.0f s" % (
        prop, tier, cov["discharged"], cov["obligations"], len(units), cov["units_proved"], cov["evaluations"], ev["wall_s"]))
    for l in out:
        log(l)
    if not nviol and cov["evaluations"] == 0 and not any(u["status"] == "proved" for u in units):
        # nothing could be run at all: the package does not import, or no case ends
        err = " ".join(str(d.get("error")) for d in rts)[-1500:]
        log("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, write_replay(prop, seed, {"property": prop, "case": None, "message": "no operation of the property can be executed", "verifier_output": err})))
        return 1
    return 1 if nviol else 0


def replay(path):
    d = json.load(open(path))
    if d.get("case") is not None:
        with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
            return subprocess.run([REAL, os.path.join(HERE, "replay", "run.py"), "--replay", os.path.abspath(path)], env=env(), cwd=tmp).returncode
    if d.get("unit"):
        return subprocess.run([PROVER, "-m", "contracts.run", "--unit", d["unit"], "-v"], env=env(False), cwd=HERE).returncode
    print(d.get("message"))
    return 2


def setup():
    a = subprocess.run([PROVER, "-c", "import z3; print('z3', z3.get_version_string())"], env=env(False))
    b = subprocess.run([REAL, "-c", "import torch, numpy; print('torch', torch.__version__)"], env=env())
    return a.returncode or b.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    if a.replay:
        return replay(a.replay)
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = int(seed)
    except ValueError:
        seed = int(hashlib.sha1(seed.encode()).hexdigest()[:8], 16)
    return decide(a.prop, a.tier, abs(seed) % 10 ** 8)


if __name__ == "__main__":
    sys.exit(main())
