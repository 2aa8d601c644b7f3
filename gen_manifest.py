import json
PROOF = {i: "" for i in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20")}
PROOF["C12"] = ("Symbolic numbers of sites on either side of the label (every combination of parities, boundary condition and merge offset). svd_flex enters by the contract "
                "proved for C14, restricted to splits that discard no non-zero singular value; rescale_norm by its contract (own units). Lean lemmas regroup, scale_prod, factors_one. "
                "Extra units with n=1..3 inputs (thorough: 9) and concrete structure are labelled bounded. ")
PROOF["C13"] = ("One evaluation from an arbitrary state (counter, threshold, recorded bonds), hence every history, with symbolic numbers of sites on either side of the label. "
                "svd_flex by its C14 contract. Extra units with n=1..3 inputs (thorough: 9) are labelled bounded. ")
PROOF["C18"] = ("Stripe images of any length >= 2 (Lean lemmas digits_*: binary strings are in bijection with numbers); extra units evaluate lengths 1..4 completely. ")
PROOF["C16"] = ("All pairs of contractable classes (generic objects with up to two further indices). Lists of any length: loop invariant `the list holds consecutive partial "
                "products', over an abstract product that may reject pairs. Extra units execute the list compositions of the models with the real classes (labelled bounded). ")
# contracts whose structural parameters are enumerated up to a stated bound (sizes and values arbitrary)
PARTIAL = {
           "C06": "Ranks (0..3) and numbers of tensors (0..3) are enumerated, dimensions and entries are arbitrary: bounded in rank and count only. "}
BASE = ("Contracts on the real functions; every obligation generated from /repo's current source and discharged by tvc (symbolic execution of the "
        "mechanically rewritten source + term prover + z3), unbounded in all sizes, lengths and values. Trusted: tvc's library model of torch/opt_einsum, "
        "real instead of floating-point arithmetic. A runtime cross-check of the real code accompanies it and supplies failing inputs. ")
EXPL = ("Contracts for this property are not complete yet: decided by the bounded runtime contract check of the real code against independent oracles. ")
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    pr = i in PROOF
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "contract-based deductive verification (tvc symbolic VCs + z3)" if pr or i in PARTIAL else "runtime-checked contracts on the real functions (bounded stand-in)",
                   "level": "proof" if pr else "other" if i in PARTIAL else "exploration",
                   "level_note": (BASE + PROOF[i]) if pr else (BASE.replace("unbounded in all sizes, lengths and values", "for arbitrary sizes and values") + PARTIAL[i]) if i in PARTIAL else EXPL})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: contracts are sidecar files in /verif/contracts. known_findings.txt lists the repaired defects."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
