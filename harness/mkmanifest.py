"""MANIFEST.json from properties.jsonl and CLAIMS."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = ("TLA+ specification of the interpreter; recorded runs of the real VM are checked against it "
         "with TLC (trace validation)")
TRACE_NOTE = ("Every run of a generated or hand-written program in the real VM is compared, step by step, "
              "with the only behaviour the specification allows for that program. Bounded by the programs "
              "generated: nothing is claimed about constructs the generator and the corpus do not have. "
              "Trusts xdis' opcode tables, harness/minicomp.py (the compiler for the old versions) and TLC.")
CLAIMS = json.load(open(os.path.join(VERIF, "harness", "claims.json")))


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        c = CLAIMS.get(p["id"])
        if c is None or "reason" in c:
            na.append({"property": p["id"], "reason": (c or {}).get("reason", "not built yet")})
            continue
        cmd = "/opt/venv/bin/python -W ignore harness/check.py --property %s --tier " % p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": c.get("technique", TRACE), "level": c.get("level", "model_checking"),
                       "level_note": c.get("note", TRACE_NOTE)})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
                   "not_applicable": na,
                   "notes": "No hooks in /repo: runs are observed through the public API "
                            "(PyVM, PyVMTraced, the command line)."}, f, indent=1)
        f.write("\n")


main()
