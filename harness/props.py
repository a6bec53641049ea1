"""What each property is checked with."""
import hashlib
import json
import logging
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor

import families
import runs

HERE = os.path.dirname(os.path.abspath(__file__))

ASSUMPTIONS = [
    "the bytecode tables of xdis 6.3.0 are those of the interpreted versions",
    "the code objects are made by harness/minicomp.py, in the shape the versions' own compilers "
    "give them; programs are those its grammar and the corpus can express",
    "the host is CPython 3.12",
]

# property -> corpora, random kinds with the number of programs per version (quick, thorough),
# and how programs are run: p plain, t traced, d plain with debug logging
LANGUAGE = {
    "C01": (["ops", "ops2"], [("ops", 16, 250)]),
    "C02": (["containers", "containers2"], [("containers", 20, 250)]),
    "C03": (["control", "long"], [("control", 32, 200)]),
    "C04": (["exc", "raise2"], [("exc", 32, 200)]),
    "C05": (["handled"], [("handled", 32, 200)]),
    "C06": (["with"], [("with", 32, 200)]),
    "C07": (["calls", "calls2"], [("calls", 22, 220)]),
    "C08": (["scopes", "scopes2", "noisy"], [("scopes", 30, 160)]),
    "C09": (["gens"], [("gens", 32, 200)]),
    "C10": (["classes", "classes2"], [("classes", 22, 180)]),
    "C21": (["imports"], [("imports", 36, 300)]),
    "C22": (["prints"], [("prints", 120, 1000)]),
}
PYTHON2 = [v for v in families.ALL if v[0] < (3,)]
VERSIONS = {"C22": PYTHON2}


REPEAT = re.compile(r"@(\d+|FAR)\{(.*?)\}@")


def repeat(src, v):
    """`@300{a%d=%d}@` is a sequence of 300 copies with the number in it, `@FAR{a=a}@` one whose
    bytecode takes an argument beyond 65535 to jump over (load and store alone)."""
    def copies(m):
        n, item = m.group(1), m.group(2)
        if n == "FAR":
            return "; ".join([item] * (11000 if v < (3, 6) else 17000 if v < (3, 10) else 33000))
        # on many lines, since xdis takes the middle of a line of more than 255 bytes for another
        if item.startswith(","):
            sep = ",\n"
        else:
            start = src.rfind("\n", 0, m.start()) + 1
            sep = "\n" + src[start:m.start()]
        return sep.join(item.lstrip(",").replace("%d", str(i)) for i in range(int(n)))
    return REPEAT.sub(copies, src)


def corpus(name, vers, **kw):
    progs = []
    for s in open(os.path.join(HERE, "corpus", name + ".txt")).read().split("#---- ")[1:]:
        head, src = s.split("\n", 1)
        words = head.split()
        lo = next((tuple(map(int, w[2:].split("."))) for w in words if w.startswith(">=")), (0,))
        hi = next((tuple(map(int, w[1:].split("."))) for w in words if w.startswith("<")), (9,))
        for i, (v, pp) in enumerate(vers):
            if lo <= v < hi:
                text = repeat(src, v)
                if (i + len(progs) // len(vers)) % 2 and name != "long":
                    text = families.in_loop(text)
                p = families.make("%s.%s@%s" % (name, words[0], families.vname(v, pp)), text, v, pp, **kw)
                if p:
                    progs.append(p)
    return progs


def language(run, check_programs):
    corpora, kinds = LANGUAGE[run.prop]
    progs = []
    vers = VERSIONS.get(run.prop, families.ALL)
    for c in corpora:
        progs += corpus(c, vers, modes="p")
    for kind, nq, nt in kinds:
        progs += families.build(kind, nq if run.quick() else nt, run.seed, vers, modes="p")
    check_programs(run, progs)


MIXED = ("control", "exc", "handled", "with", "gens", "ops", "containers", "calls", "scopes", "classes")


def mixed(run, nq, nt, kinds=MIXED, salt=0, **kw):
    """Programs of several kinds, for what does not depend on their contents."""
    progs = []
    for kind in kinds:
        progs += families.build(kind, nq if run.quick() else nt, run.seed + salt, families.ALL, **kw)
    return progs


def events(run, check_programs):
    progs = mixed(run, 3, 25, salt=100, modes="t")
    for c in MIXED:
        progs += corpus(c, families.ALL, modes="t")
    check_programs(run, progs)


def masks(run, check_programs):
    progs = mixed(run, 4, 35, salt=200, modes="tp")
    rng = random.Random("masks/%d" % run.seed)
    single = [0, 1, 2, 4, 8, 16, 32, 64]
    for i, p in enumerate(progs):
        p["mask"] = rng.choice([127, 255, rng.choice(single), rng.choice(single), 127 ^ rng.choice(single),
                                rng.randrange(128), rng.randrange(256)])
        run.note("runs with mask %d" % p["mask"] if p["mask"] in single else "runs with other masks")
    check_programs(run, progs)


def answers(run, check_programs):
    progs = mixed(run, 4, 35, salt=300, modes="t")
    rng = random.Random("answers/%d" % run.seed)
    for p in progs:
        p["mask"] = rng.choice([127, 127, 127, 127, rng.randrange(128), 4, 6, 36, 44])
        pol = {}
        top = rng.choice([12, 30, 60, 150])
        for _ in range(rng.randrange(1, 5)):
            r = rng.choice(["none", "flags", "flags", "finish", "return", "skip", "self"])
            v = rng.choice([127, 3, 12, 0, 130, 255, 40, rng.randrange(256)]) if r == "flags" else rng.randrange(9)
            pol[rng.randrange(1, top)] = {"r": r, "v": v}
            run.note("answers " + r)
        if rng.random() < 0.4:  # many skips: few instructions can be skipped
            for n in range(rng.randrange(1, 20), 200, 1):
                pol.setdefault(n, {"r": "skip", "v": 0})
        p["policy"] = [dict(n=n, **pol[n]) for n in sorted(pol)]
    check_programs(run, progs)


def breakpoints(run, check_programs):
    progs = mixed(run, 4, 35, salt=400, modes="t")
    rng = random.Random("breakpoints/%d" % run.seed)
    for p in progs:
        p["mask"] = rng.choice([127, 127, 127, 4, 6, 36, 44, rng.randrange(128) | 4])
        pol = {1: {"r": "brk", "v": rng.randrange(5)}}
        top = rng.choice([12, 30, 60, 150])
        for _ in range(rng.randrange(2, 12)):
            r = rng.choice(["brk"] * 8 + ["unbrk"] * 3 + ["finish", "return", "skip", "flags"])
            v = rng.choice([127, 3, 12, 44]) if r == "flags" else rng.randrange(5)
            pol[rng.randrange(1, top)] = {"r": r, "v": v}
        p["policy"] = [dict(n=n, **pol[n]) for n in sorted(pol)]
    check_programs(run, progs)


def logged(run, check_programs):
    progs = mixed(run, 4, 35, salt=500, modes="pd")
    rng = random.Random("logged/%d" % run.seed)
    for p in progs:
        p["level"] = rng.choice([logging.DEBUG] * 4 + [1, logging.INFO, logging.INFO, logging.WARNING])
        if rng.random() < 0.25:
            # the same for a traced run, whose events the log does not change either
            p["modes"] = "td"
            p["tlevel"] = rng.choice([logging.DEBUG, logging.DEBUG, logging.INFO])
    check_programs(run, progs)


def reuse(run, check_programs):
    """The same VM runs several programs, the last of which is looked at."""
    progs = mixed(run, 4, 30, salt=600, modes="p")
    rng = random.Random("reuse/%d" % run.seed)
    by = {}
    for p in progs:
        by.setdefault((p["ver"], p["pypy"]), []).append(p["src"])
    for p in progs:
        p["before"] = [rng.choice(by[p["ver"], p["pypy"]]) for _ in range(rng.randrange(1, 5))]
        if rng.random() < 0.3:
            p["modes"] = "t"
            p["mask"] = rng.choice([127, 8, 16, 32, 40])
        elif rng.random() < 0.2:
            p["modes"] = "d"
    check_programs(run, progs)


def isolation(run, check_programs):
    """Other versions' programs have run before, or run in the middle, in the same process."""
    progs = mixed(run, 4, 30, salt=700, modes="p")
    rng = random.Random("isolation/%d" % run.seed)
    pool = [[p["src"], list(p["ver"]), p["pypy"]] for p in progs]
    for p in progs:
        p["others"] = [rng.choice(pool) for _ in range(rng.randrange(1, 6))]
        if rng.random() < 0.5:
            p["nested"] = rng.choice(pool)
        # traced, or with all of them logged
        p["modes"] = rng.choice("pppptd")
    check_programs(run, progs)


# what histories of PyRun are replayed: the command line, or one process; runs of a history, steps of a program,
# runs within each other, number of random histories (quick, thorough)
RUNS = {"C18": (1, 1, 3, 1, 2400, 30000), "C19": (0, 1, 7, 1, 3000, 30000), "C20": (0, 4, 4, 3, 2000, 24000)}
PARTS = 4


def histories(run, check_programs):
    cli, nruns, steps, depth, nq, nt = RUNS[run.prop]
    env = {"CLI": cli, "RUNS": nruns, "STEPS": steps, "DEPTH": depth}
    num = (nq if run.quick() else nt) // PARTS
    jobs = [lambda k=k: runs.generate(env, num, 200, run.seed * 100 + k, timeout=800) for k in range(PARTS)]
    if not run.quick():
        # every single run without further steps
        jobs.append(lambda: runs.exhaustive({"CLI": cli, "RUNS": 1, "STEPS": 0, "DEPTH": 1}))
    hists = []
    with ThreadPoolExecutor(PARTS) as pool:
        for h, st in pool.map(lambda j: j(), jobs):
            hists += h
            run.transitions += st[0]
            run.states += st[1]
    replay_histories(run, hists, cli, 24 if run.quick() else 200)


def replay_histories(run, hists, cli, real):
    res = runs.replay_all(hists, cli, real)
    bad = [i for i, (what, _) in enumerate(res) if what][:60]
    again = dict(zip(bad, runs.replay_all([hists[i] for i in bad], cli, real)))
    for i, h in enumerate(hists):
        for e in h:
            if e["ev"] in ("begin", "refuse"):
                run.note("runs of " + e["what"]["how"] + " " + e["what"]["src"])
        if res[i][0] and again.get(i, ("", 0))[0]:
            what, got = again[i]
            d = hashlib.sha1(json.dumps(h, sort_keys=True).encode()).hexdigest()[:12]
            run.fail("runs:" + d, what, {"kind": "runs", "cli": cli, "history": h, "observed": got})
        elif not res[i][0]:
            run.traces += 1
            if len(run.samples) < 2 and i % 50 == 7:
                run.samples.append({"history": h, "observed": res[i][1]})
    run.note("histories", len(hists))


EXPLORE = {"C18": histories, "C19": histories, "C20": histories, "C11": events, "C12": masks, "C13": answers, "C14": breakpoints, "C15": logged,
           "C16": reuse, "C17": isolation}


def explore(run, check_programs):
    if run.prop in LANGUAGE:
        language(run, check_programs)
    elif run.prop in EXPLORE:
        EXPLORE[run.prop](run, check_programs)
    else:
        raise SystemExit("no such property: %s" % run.prop)


def replay(run, data):
    if data["kind"] == "runs":
        return replay_histories(run, [data["history"]], data["cli"], 0)
    raise SystemExit("cannot replay %s" % data["kind"])
