"""check.py --property C05 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1, and a line
"VIOLATION property=<id> replay=<file>": it is broken.
"""
import argparse
import hashlib
import json
import os
import re
import shutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("XPY_REPO", "/repo"))

import families  # noqa: E402
import props  # noqa: E402
import record  # noqa: E402
import tlc  # noqa: E402

EVIDENCE = os.environ.get("XPY_EVIDENCE") or os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """identifications of the recorded defects of a property -> their text"""
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


class Run:
    """One run of a check: what it explored, and what failed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.dropped = []        # programs without a verdict
        self.unsupported = []    # programs the specification does not cover
        self.failures = []       # (id, what, replay data)
        self.samples = []
        self.cover = {}          # version -> opcodes executed by accepted programs
        self.more = {}           # further measurements
        self.exhaustive = False

    def quick(self):
        return self.tier == "quick"

    def fail(self, ident, what, data):
        self.failures.append((ident, what, data))

    def note(self, key, n=1):
        self.more[key] = self.more.get(key, 0) + n


# ---------------------------------------------------------------- programs
def tlc_verdicts(run, progs, recs, timeout=600):
    """Verdicts for (prog, record) pairs, by position; drops what TLC cannot do."""
    todo = list(range(len(progs)))
    verdict = {}
    for attempt in range(6):
        if not todo:
            break
        ids = ["q%d" % i for i in todo]
        try:
            v, st, rc, text = tlc.check_batch([progs[i] for i in todo], [recs[i] for i in todo],
                                              ids, timeout=timeout)
        except Exception as e:
            v, st, rc, text = {}, (0, 0), 99, "%s: %s" % (type(e).__name__, str(e)[:300])
        run.transitions += st[0]
        run.states += st[1]
        for k, x in v.items():
            verdict[int(k[1:])] = x
        done = {i for i in todo if i in verdict}
        for vs, ops in tlc.covered(text):
            run.cover.setdefault(vs, set()).update(ops)
        if len(done) == len(todo):
            todo = []
            break
        m = re.findall(r"pid \|-> (\d+)", text)
        bad = todo[int(m[-1]) - 1] if m and rc else None
        if bad is not None and bad not in done:
            e = text.find("Error:")
            run.dropped.append("%s: %s" % (progs[bad]["id"], text[e:e + 300].replace("\n", " ")))
            done.add(bad)
        elif attempt >= 2:
            run.dropped.append("TLC: rc %s %s" % (rc, text[-300:].replace("\n", " ")))
        todo = [i for i in todo if i not in done]
    for i in todo:
        run.dropped.append("%s: no verdict" % progs[i]["id"])
    return verdict


def disagreement(prog, rec):
    """Where the runs of one program differ that must not, or ''."""
    ref = [rec["rout"], rec["rres"], rec["left"]]
    if rec["left"] and rec["rres"] != "hang":
        return "left in the VM after the run: %s" % rec["left"]
    for m in ("plain", "debug"):
        if m in rec and rec[m] != ref and not prog.get("policy"):
            k = next((i for i, (a, b) in enumerate(zip(rec["rout"], rec[m][0])) if a != b),
                     min(len(rec["rout"]), len(rec[m][0])))
            return "the %s run differs: %s %r, not %s %r, at output %d" % (
                m, rec[m][1], rec[m][0][k:k + 1], rec["rres"], rec["rout"][k:k + 1], k)
    return ""


def judge(run, progs):
    """Records programs and checks the records; {position: what is wrong}"""
    recs = record.record_all(progs)
    wrong = {}
    todo = []
    for i, (p, r) in enumerate(zip(progs, recs)):
        if "error" in r and "rres" not in r:
            run.dropped.append("%s: %s" % (p["id"], r["error"][:200]))
            continue
        d = disagreement(p, r)
        if d:
            wrong[i] = (d, r)
            continue
        try:
            tlc.export(p["id"], p, r, set())
        except tlc.Inexpressible as e:
            run.unsupported.append("%s: %s" % (p["id"], e))
            continue
        todo.append(i)
    size = 400
    for k in range(0, len(todo), size):
        part = todo[k:k + size]
        v = tlc_verdicts(run, [progs[i] for i in part], [recs[i] for i in part])
        for j, (steps, what) in v.items():
            i = part[j]
            if what == "accepted":
                run.traces += 1
                if len(run.samples) < 2 and run.traces % 7 == 3:
                    run.samples.append({"program": progs[i]["src"][:1500], "version": record.vs_name(
                        progs[i]["ver"], progs[i]["pypy"]), "output": recs[i]["rout"][:20],
                        "events": recs[i]["rev"][:10], "outcome": recs[i]["rres"], "steps": steps})
            elif "specified unsupported" in what or what.startswith("limit"):
                run.unsupported.append("%s: %s" % (progs[i]["id"], what))
            else:
                wrong[i] = (what, recs[i])
    return wrong


# how a program is run
EXTRAS = ("mask", "policy", "modes", "before", "others", "nested")


def ident(p):
    """Identifies a program, version and policy."""
    h = hashlib.sha1(json.dumps([p["src"], p["ver"], p["pypy"], p.get("mask", 127),
                                 p.get("policy", [])] + [p[k] for k in EXTRAS[3:] if k in p]).encode()).hexdigest()[:12]
    return "%s:%s" % (record.vs_name(p["ver"], p["pypy"]), h)


def check_programs(run, progs):
    run.note("programs", len(progs))
    wrong = judge(run, progs)
    if not wrong:
        return
    # a second recording: what fails has to fail again
    again = [progs[i] for i in sorted(wrong)][:60]
    wrong2 = judge(Run(run.prop, run.tier, run.seed), again)
    for j, (what, rec) in sorted(wrong2.items()):
        p = again[j]
        run.fail(ident(p), "%s: %s" % (p["id"], what),
                 {"kind": "program", "program": {k: p.get(k) for k in (
                     "id", "src", "ver", "pypy") + EXTRAS if k in p},
                  "verdict": what, "output": rec["rout"][:200], "outcome": rec["rres"],
                  "detail": rec.get("detail", "")})


# ---------------------------------------------------------------- the end
def finish(run, level="model_checking"):
    known = known_findings(run.prop)
    new = []
    for f in run.failures:
        if f[0] in known:
            print("KNOWN-FINDING: property=%s %s" % (run.prop, known[f[0]]))
        else:
            new.append(f)
    os.makedirs(EVIDENCE, exist_ok=True)
    cov = {"states": run.states, "transitions": run.transitions,
           "traces_validated_against_impl": run.traces, "samples": run.samples}
    if run.cover:
        cov["opcodes"] = {v: len(s) for v, s in sorted(run.cover.items())}
        cov["opcodes_of"] = {v: " ".join(sorted(s)) for v, s in sorted(run.cover.items())}
    cov.update(run.more)
    if run.exhaustive:
        cov["exhaustive"] = True
    cov["not_covered_by_the_specification"] = len(run.unsupported)
    cov["without_verdict"] = len(run.dropped)
    for k, l in (("unsupported_samples", run.unsupported), ("dropped_samples", run.dropped)):
        if l:
            cov[k] = l[:10]
    ev = {"property": run.prop, "tier": run.tier, "seed": run.seed, "level": level,
          "coverage": cov, "assumptions": props.ASSUMPTIONS, "violations": len(new),
          "wall_s": round(time.time() - run.t0, 1)}
    path = os.path.join(EVIDENCE, "%s.json" % run.prop)
    with open(path + ".new", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".new", path)
    print("%s %s: %d states, %d traces validated, %d not covered, %d without verdict, %.1f s" % (
        run.prop, run.tier, run.states, run.traces, len(run.unsupported), len(run.dropped),
        time.time() - run.t0))
    if os.environ.get("XPY_VERBOSE"):
        for l in (run.unsupported + run.dropped)[:40]:
            print("  ", l)
    if not new:
        return 0
    rdir = os.path.join(EVIDENCE, "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, (i, what, data) in enumerate(new):
        rpath = os.path.join(rdir, "%s-%d.json" % (run.prop, n))
        data = dict(data, property=run.prop, ident=i, what=what)
        if n < 20:
            with open(rpath, "w") as f:
                json.dump(data, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (run.prop, rpath))
            print("  %s %s" % (i, what[:400]))
    if len(new) > 20:
        print("  and %d more" % (len(new) - 20))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    run = Run(a.property, a.tier, a.seed)
    if a.replay:
        data = json.load(open(a.replay))
        if data["kind"] == "program":
            q = data["program"]
            p = families.make(q["id"], q["src"], tuple(q["ver"]), q["pypy"], **{
                k: q[k] for k in EXTRAS if k in q})
            check_programs(run, [p])
        else:
            props.replay(run, data)
        for _, what, _ in run.failures:
            print("VIOLATION property=%s replay=%s\n  %s" % (a.property, a.replay, what))
        return 1 if run.failures else 0
    old = os.path.join(EVIDENCE, "replay")
    if os.path.isdir(old):
        for f in os.listdir(old):
            if f.startswith(a.property + "-"):
                os.unlink(os.path.join(old, f))
    props.explore(run, check_programs)
    return finish(run)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
