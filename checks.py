"""The properties, and what each check covers: generates properties.jsonl and MANIFEST.json."""
import json, os

ROOT = os.path.dirname(os.path.abspath(__file__))

TECHNIQUE = "symbolic execution of the crate's LLVM IR (own executor), every branch and assertion decided by z3"

COMMON = [
    "rustc and LLVM compile the encoded copy (release, overflow checks on) as they compile the user's build",
    "z3 4.8.12 and the executor's encoding of LLVM IR are right; sampled paths are replayed natively on every run, and every counterexample must reproduce natively before it is reported",
    "every word of the random generator is an unconstrained symbolic value; rand's own rejection loops are replaced by their result (any value of the requested range)",
    "hashed collections are modelled with an arbitrary (symbolic) iteration order; rayon is modelled by its sequential semantics, except in C39, where its schedule is symbolic",
]

# id -> title, statement, over, text, why, files, mechanism[(name, where)], observe, bounds, outside
P = {}


def prop(id, title, statement, over, text, why, files, mechanism, bounds=None, outside="", opts=(), na=None, assumptions=()):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                 bounds=bounds, outside=outside, opts=list(opts), na=na, assumptions=list(assumptions))


exec(open(os.path.join(ROOT, "catalogue.py")).read())

CHECKS = {k: v for k, v in P.items() if not v["na"]}


def write_manifest():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for k, v in sorted(P.items()):
            f.write(json.dumps({
                "id": k, "title": v["title"], "statement": v["statement"],
                "quantifier": {"over": v["over"], "text": v["text"]},
                "why_tests_cant": v["why"],
                "anchors": {"files": v["files"], "mechanism": [{"name": a, "where": b} for a, b in v["mechanism"]], "hook_needed": None},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 vp.py setup",
        "checks": [{
            "property": k,
            "quick_cmd": f"python3 vp.py check {k} --tier quick",
            "thorough_cmd": f"python3 vp.py check {k} --tier thorough",
            "evidence_file": f"evidence/{k}.json",
            "technique": v.get("technique") or TECHNIQUE,
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds: " + v["bounds"] + (" Outside: " + v["outside"] if v["outside"] else "")
                          + " Trusted: rustc, the IR executor, z3, the models of rayon, the hashed collections and rand's range reduction.",
        } for k, v in sorted(CHECKS.items())],
        "not_applicable": [{"property": k, "reason": v["na"]} for k, v in sorted(P.items()) if v["na"]],
        "notes": "See DESIGN.md. known-findings.txt lists the defects found and what became of them.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
