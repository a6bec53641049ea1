"""Programs and their records as JSON for the specification, and TLC runs."""
import json
import os
import re
import shutil
import subprocess
import tempfile

import guestmods
import minicomp
from record import eligible, vs_name

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "..", "spec")


class Inexpressible(Exception):
    pass


def value(c, index):
    """A constant as a value of PyBase."""
    if c is None:
        return {"k": "none", "n": 0, "s": ""}
    if c is Ellipsis:
        return {"k": "ell", "n": 0, "s": ""}
    if isinstance(c, bool):
        return {"k": "bool", "n": int(c), "s": ""}
    if isinstance(c, int):
        if abs(c) >= 1 << 31:
            raise Inexpressible("big integer")
        return {"k": "int", "n": c, "s": ""}
    if isinstance(c, str):
        return {"k": "str", "n": 0, "s": c}
    if isinstance(c, tuple):
        return {"k": "tup", "q": [value(x, index) for x in c]}
    if isinstance(c, minicomp.CodeObj):
        return {"k": "code", "n": index[id(c)], "s": ""}
    raise Inexpressible(repr(c))


def strings_of(c, acc):
    if isinstance(c, str):
        acc.add(c)
    elif isinstance(c, tuple):
        for x in c:
            strings_of(x, acc)


def codes_of(co):
    out = []

    def walk(c):
        out.append(c)
        for x in c.consts:
            if isinstance(x, minicomp.CodeObj):
                walk(x)
    walk(co)
    return out


def export(pid, prog, rec, strings):
    codes = codes_of(prog["code"])
    index = {id(c): i + 1 for i, c in enumerate(codes)}
    res = []
    brk = any(p["r"] == "brk" for p in prog.get("policy", ()))
    for c in codes:
        lines = [0] * (len(c.code) + 1)
        for off, line in c.lines:
            lines[off] = line
        for n in list(c.names) + list(c.varnames):
            strings.add(n)
        for x in c.consts:
            strings_of(x, strings)
        res.append({
            "name": c.name, "qual": c.qualname, "code": list(c.code),
            "consts": [value(x, index) for x in c.consts], "names": list(c.names),
            "varnames": list(c.varnames), "freevars": list(c.freevars),
            "cellvars": list(c.cellvars), "argcount": c.argcount, "posonly": c.posonly,
            "kwonly": c.kwonly, "flags": c.flags,
            "elig": eligible(c.code, tuple(prog["ver"]), prog.get("pypy", False)) if brk else [],
            "first": c.firstlineno, "lines": lines})
    ver = prog["ver"]
    return {
        "id": pid, "ver": ver[0] * 100 + ver[1], "vs": vs_name(ver, prog.get("pypy", False)),
        "pp": bool(prog.get("pypy", False)), "tr": "t" in prog.get("modes", "tpd"),
        "mask": prog.get("mask", 127), "limit": prog.get("limit", 20000),
        "policy": [{"n": p["n"], "r": p["r"], "v": p.get("v", 0)} for p in prog.get("policy", ())],
        "codes": res, "rev": rec["rev"], "rout": rec["rout"], "rres": rec["rres"]}


def batch(progs, recs, ids):
    strings = {""} | guestmods.strings()
    out = []
    for i, p, r in zip(ids, progs, recs):
        out.append(export(i, p, r, strings))
    strings |= {c for s in strings for c in s}
    rank = {s: n + 1 for n, s in enumerate(sorted(strings))}
    mods = guestmods.table(lambda v: value(v, {}))
    return {"progs": out, "mods": mods, "rank": rank}


VERDICT = re.compile(r'^"?VERDICT (\S+) (\d+) (.*?)"?$')


def run_tlc(module, cfg, env, workers="auto", timeout=800, extra=(), heap="6g"):
    """Runs TLC in a scratch directory; returns its output."""
    d = tempfile.mkdtemp(prefix="tlc")
    try:
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
               "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
               "tlc2.TLC", "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [module]
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_batch(progs, recs, ids=None, timeout=800, keep=None):
    """Checks the records against PyTrace.

    Returns ({id: (steps, verdict)}, states, output-of-TLC)
    """
    ids = ids or ["p%d" % i for i in range(len(progs))]
    d = tempfile.mkdtemp(prefix="batch")
    path = keep or os.path.join(d, "batch.json")
    try:
        with open(path, "w") as f:
            json.dump(batch(progs, recs, ids), f)
        rc, text = run_tlc("PyTrace.tla", "PyTrace.cfg",
                           {"BATCH": path, "OPTAB": os.path.join(SPEC, "opcodes.json")},
                           timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    verdicts = {}
    for line in text.splitlines():
        m = VERDICT.match(line)
        if m:
            verdicts[m.group(1)] = (int(m.group(2)), m.group(3))
    m = re.search(r"(\d+) states generated, (\d+) distinct", text)
    states = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return verdicts, states, rc, text


COVER = re.compile(r'<<\s*"COVER",\s*"(\S+?)",\s*\{(.*?)\}\s*>>', re.S)


def covered(text):
    """(version, opcodes) of the programs that were accepted"""
    return [(m.group(1), re.findall(r'"(\w+)"', m.group(2))) for m in COVER.finditer(text)]
