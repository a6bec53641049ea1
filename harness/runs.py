"""Replays histories of runs, generated by TLC from PyRun.tla, in the implementation.

A history is the list of events of PyRun's variable hist.  In the process mode, a forked process
performs all its runs with run_python_file() and its relatives, and notes what the programs write,
how the runs end, and the state they leave; in the command line mode, a forked (or new) process runs the
command `python -m xpython`.
"""
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import zlib
import tempfile

import pycfile
import tlc

HELPERS = {"h1": "d1", "h2": "d2", "hl": "lib", "hp": "p"}


# ---------------------------------------------------------------- histories
def generate(env, num, depth, seed, timeout=300):
    """num random behaviours of the specification, and the numbers of states"""
    env = {k: str(v) for k, v in env.items()}
    rc, text = tlc.run_tlc("PyRun.tla", "PyRun.cfg", env, workers=1, timeout=timeout, extra=[
        "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    return histories(text), states(text, rc)


def exhaustive(env, timeout=600):
    env = {k: str(v) for k, v in env.items()}
    rc, text = tlc.run_tlc("PyRun.tla", "PyRun.cfg", env, timeout=timeout)
    return histories(text), states(text, rc)


def histories(text):
    return [json.loads(json.loads(l)[5:]) for l in text.splitlines() if l.startswith('"HIST ')]


def states(text, rc):
    m = re.search(r"(\d+) states generated, (\d+) distinct", text)
    if m:
        n = int(m.group(1)), int(m.group(2))
    else:
        m = re.search(r"number of states generated: (\d+)", text)
        n = (int(m.group(1)),) * 2 if m else (0, 0)
    text = "\n".join(l for l in text.splitlines() if not l.startswith("\"HIST "))
    if rc or "is violated" in text or "Error:" in text:
        e = text.find("Error:")
        raise RuntimeError("PyRun: " + text[e:e + 600])
    return n


# ---------------------------------------------------------------- programs
def end_text(e):
    kind, how = e["kind"], e["how"]
    if kind == "none":
        r = "pass"
    elif kind in ("ValueError", "Own"):
        r = 'raise %s("boom")' % kind
    elif kind == "exit":
        r = "sys.exit()"
    else:
        r = "sys.exit(%s)" % kind[5:].replace("'msg'", "'the message'")
    pre = ["class Own(Exception):", "    pass"] if kind == "Own" else []
    caught = '    W("caught " + sys.exc_info()[0].__name__ + "\\n")'
    return pre + {
        "top": [r],
        "func": ["def f(a):", "    for i in (1, 2):", "        " + r, "f(1)"],
        "finally": ["try:", "    " + r, "finally:", '    W("fin\\n")'],
        "except": ["try:", "    " + r, "except Exception:", caught],
        "bare": ["def f():", "    try:", "        " + r, "    except:", "    " + caught, "f()"],
        "gen": ["def g():", "    yield 1", "    " + r, "for x in g():", "    pass"],
        "class": ["class K:", "    x = 1", "    " + r],
    }[how]


def step_text(e, root):
    w = e["what"]
    if w == "out":
        return ["W(%r)" % (e["out"][0] + "\n")]
    if w == "view":
        return ['W("file=" + __file__ + " package=" + str(globals().get("__package__") or "") + " argv="'
                ' + "|".join(sys.argv) + " path=" + "|".join(sys.path) + "\\n")']
    if w == "name":
        return ['W("name=" + __name__ + "\\n")'] + (
            ["class Here(object):", "    def f(self):", "        pass", "def here():", "    pass",
             "if Here.__module__ == here.__module__:", '    W("module=" + here.__module__ + "\\n")'] if len(e["out"]) > 1 else [])
    if w == "argvadd":
        return ['sys.argv.append("more")']
    if w == "argvset":
        return ['sys.argv = ["mine"]']
    if w == "pathadd":
        return ["sys.path.insert(0, %r)" % (root + "/p")]
    if w == "pathpop":
        return ["sys.path.pop(0)"]
    if w == "main":
        return ["import __main__", 'W("main=" + str(__main__.__dict__ is globals()) + "\\n")']
    if w == "global":
        return ["try:", "    g", '    W("global=1\\n")', "except NameError:", '    W("global=none\\n")', "g = 1"]
    if w == "builtins":
        r = ["names = []"]
        for n in ("apply", "basestring", "cmp", "long", "reduce", "unichr", "unicode", "xrange"):
            r += ["try:", "    " + n, "    names.append(%r)" % n, "except NameError:", "    pass"]
        return r + ['W("builtins=" + "|".join(names) + "\\n")']
    if w == "version":
        return ['v = "%d.%d" % (sys.version_info[0], sys.version_info[1])',
                'h = "%d.%d" % (sys.hexversion >> 24, (sys.hexversion >> 16) & 255)',
                'W("version=" + v + "\\n")', "if h != v:", '    W("hexversion=" + h + "\\n")',
                'if not sys.version.startswith(v + "."):', '    W("sys.version=" + sys.version + "\\n")']
    return ["try:", "    import %s" % w, '    W("%s ok\\n")' % w, "except ImportError:", '    W("%s none\\n")' % w]


def programs(hist, root):
    """{run: source}"""
    src, stack = {}, []
    for e in hist:
        if e["ev"] in ("begin", "refuse"):
            if stack:
                src[stack[-1]] += ["import xrunner", "xrunner.go(%d)" % e["run"]]
            if e["ev"] == "begin":
                stack.append(e["run"])
                src[e["run"]] = ["import sys", "W = sys.stdout.write"]
        elif e["ev"] == "step":
            src[stack[-1]] += step_text(e, root)
        else:
            src[stack.pop()] += end_text(e["what"])
    return {k: "\n".join(v) + "\n" for k, v in src.items()}


def put(path, text, mode="w"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, mode) as f:
        f.write(text)


def build(hist, root):
    """Writes the files of a history; returns {run: (function, path or text, arguments)}."""
    for d in ("d1", "d2", "lib", "p", "h0"):
        os.makedirs(os.path.join(root, d))
    for m, d in HELPERS.items():
        put("%s/%s/%s.py" % (root, d, m), 'import sys\nsys.stdout.write("load %s " + "|".join(sys.argv) + "\\n")\n' % m)
    src = programs(hist, root)
    calls = {}
    for e in hist:
        if e["ev"] not in ("begin", "refuse"):
            continue
        q, i = e["what"], e["run"]
        text = src.get(i, "x = 1\n")
        path = "%s/%s/r%d.py" % (root, q["dir"], i)
        fn = "run_python_" + q["how"]
        if q["src"].startswith("pyc"):
            vs = q["ver"]
            v = tuple(int(x) for x in vs.replace("pypy", "").split("."))
            path = path + "c"
            source = "orig.py" if q["src"] == "pyc" else path[:-1]
            put(path, pycfile.pyc(text, source, vs, v, vs.endswith("pypy")), "wb")
            if q["src"] != "pyc":
                put(source, "# the source\n")
                # by a little, or by much; of the same time is not newer
                t = os.stat(path).st_mtime_ns
                ages = (100, 10**-3, 0.25, 1.5) if q["src"] == "pycnew" else (-100, 0, -10**-3, -0.25)
                t += int(ages[zlib.crc32(text.encode()) % 4] * 10**9)
                os.utime(source, ns=(t, t))
        elif q["src"] == "py":
            put(path, text if i % 2 else text[:-1])
        elif q["src"] == "missing":
            path = "%s/d1/gone%d.py" % (root, i)
        elif q["src"] == "directory":
            path = "%s/d1/r%d.d" % (root, i)
            os.makedirs(path)
        elif q["src"] == "nomagic":
            path += "c"
            put(path, b"this is no bytecode file, whatever it is called", "wb")
        elif q["src"] in ("oldpyc", "corrupt"):
            path += "c"
            vs = random.Random(i).choice(("2.3", "3.0")) if q["src"] == "oldpyc" else random.Random(i).choice(("2.7", "3.8"))
            v = tuple(int(x) for x in vs.split("."))
            w = {(2, 3): (2, 4), (3, 0): (3, 1)}.get(v, v)
            b = pycfile.header(vs, v) + pycfile.marshal(pycfile.minicomp.compile_source("x = 1\n", "o.py", w), w)
            put(path, b if q["src"] == "oldpyc" else b[:len(b) // 2], "wb")
        elif q["src"] == "syntax":
            put(path, "x = 1\nif\n")
        if q["how"] == "string":
            path = "x = = 1\n" if q["src"] == "syntaxtext" else text
        elif q["how"] == "module":
            path = "r%d" % i
            pk = "%s/lib/k%d/" % (root, i)
            if q["src"] == "mod":
                put("%s/lib/r%d.py" % (root, i), text)
            elif q["src"] == "syntaxmod":
                put("%s/lib/r%d.py" % (root, i), "x = 1\nif\n")
            elif q["src"] == "missing":
                path = "gone%d" % i
            elif q["src"] == "noparent":
                path = "gone%d.sub" % i
            elif q["src"] == "builtin":
                path = "sys"
            else:
                put(pk + "__init__.py", "")
                path = "k%d" % i
                if q["src"] == "pkg":
                    put(pk + "__main__.py", text)
                elif q["src"] == "sub":
                    put(pk + "sub.py", text)
                    path += ".sub"
        if q["rel"] and q["how"] == "file":
            path = ".." + path[len(root):]
        calls[i] = (fn, path, tuple(q["args"]), q)
    return calls


# ---------------------------------------------------------------- expected and observed
def state(argv, path, main, names):
    return {"argv": list(argv), "path": list(path), "main": main, "names": list(names)}


def expected(hist):
    res = []
    for e in hist:
        res += [["out", x] for x in e["out"]]
        if e["ev"] in ("end", "refuse"):
            res.append(["end", e["run"], e["res"], state(e["argv"], e["path"], e["main"], e["names"])])
    return res


def lines(text):
    """What a program wrote, without the frames of a traceback."""
    return [l for l in text.split("\n") if l and not l.startswith(("Traceback (most recent", "  "))]


class Writer:
    def __init__(self, log):
        self.log = log

    def write(self, s):
        self.log.append(["w", s])
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def outcome(e):
    if isinstance(e, SystemExit):
        c = e.code
        return "exit:msg" if isinstance(c, str) and c == "the message" else "exit:%s" % (c,)
    n = type(e).__name__
    return "error:" + {"IndentationError": "SyntaxError"}.get(n, n)


def observe(hist, root):
    """Performs the runs of a history in this process."""
    sys.path[:0] = [os.environ.get("XPY_REPO", "/repo")]
    import builtins
    import types

    import xpython.execfile as X
    del sys.path[0]
    calls = build(hist, root)
    rest = sys.path[:]
    sys.path = ["%s/h0" % root, "%s/lib" % root] + rest
    sys.argv = ["host", "arg"]
    sys.dont_write_bytecode = True
    os.chdir(root + "/h0")
    log = []
    before = set(vars(builtins))
    mains = {id(sys.modules["__main__"]): 0}
    keep = [sys.modules["__main__"]]

    def at(s):
        return s.replace(root + "/", "@/")

    def now(i):
        p = sys.path[:-len(rest)] if sys.path[-len(rest):] == rest else sys.path
        m = sys.modules["__main__"]
        return ["end", i, None, state([at(a) for a in sys.argv], [at(a) for a in p],
                                      mains.get(id(m), "?"), sorted(set(vars(builtins)) - before))]

    def go(i):
        fn, path, args, q = calls[i]
        made = X.new_module

        def new_module(name, *a):
            m = made(name, *a)
            if name == "__main__":
                mains[id(m)] = i
                keep.append(m)
            return m
        X.new_module = new_module
        kw = {"callback": (lambda *a: None)} if q["traced"] and fn != "run_python_module" else {}
        try:
            getattr(X, fn)(path, args, **kw)
            res = "returned"
        except BaseException as e:
            res = outcome(e)
        X.new_module = made
        log.append(now(i))
        log[-1][2] = res

    runner = types.ModuleType("xrunner")
    runner.go = go
    sys.modules["xrunner"] = runner
    old, sys.stdout = sys.stdout, Writer(log)
    try:
        depth = 0
        for e in hist:
            if e["ev"] in ("begin", "refuse") and depth == 0:
                go(e["run"])
            depth += {"begin": 1, "end": -1}.get(e["ev"], 0)
    finally:
        sys.stdout = old
    res, text = [], ""
    tail = "|".join(rest)

    def flush():
        nonlocal text
        for q in calls.values():
            if q[0] == "run_python_string":
                text = text.replace("<string %s>" % q[1][:20], "<string>")
        for l in lines(text):
            l = at(l)
            if l.endswith("|" + tail):
                l = l[:-len(tail) - 1]
            res.append(["out", l])
        text = ""
    for x in log:
        if x[0] == "w":
            text += x[1]
        else:
            flush()
            # the additions to builtins the specification knows of
            for k, a in enumerate(x[3]["argv"]):
                if a.startswith("<string"):
                    x[3]["argv"][k] = "<string>"
            x[3]["names"] = [n for n in x[3]["names"] if n != "_"]
            if x[3]["names"]:
                x[3]["names"] = [n for n in x[3]["names"] if n in (
                    "apply", "basestring", "cmp", "long", "reduce", "unichr", "unicode", "xrange")] or x[3]["names"]
            res.append(x)
    flush()
    return res


def command(hist, root, real=False):
    """Runs the command line of a history of one run."""
    calls = build(hist, root)
    fn, path, args, q = calls[1]
    if q["how"] == "string":
        argv = ["-c", path]
    elif q["how"] == "nothing":
        argv = []
    elif q["how"] == "both":
        argv = ["-c", "x = 1", "some.py"]
    elif q["how"] == "module":
        argv = ["-m", path]
    else:
        argv = [path]
    argv = ["-v"] * q["verbose"] + argv + (list(args) if q["src"] != "usage" else [])
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(["%s/lib" % root, os.environ.get("XPY_REPO", "/repo")]),
               PYTHONDONTWRITEBYTECODE="1")
    if real:
        p = subprocess.run([sys.executable, "-m", "xpython"] + argv, cwd=root + "/h0", env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60)
        rc, out, err = p.returncode, p.stdout.decode(), p.stderr.decode()
    else:
        rc, out, err = forked(argv, root)
    text = out.replace(root + "/", "@/")
    if q["how"] == "string":
        text = text.replace("<string %s>" % path[:20], "<string>")
    ls = []
    for l in lines(text):
        if " path=" in l:   # what is on the path besides is not told
            a, b = l.split(" path=")
            l = a + " path=" + "|".join([x for x in b.split("|") if x.startswith("@/") or not x])
        ls.append(l)
    return rc, ls, err


def forked(argv, root):
    """`python -m xpython argv` in a fork of this process, which has the modules already."""
    import runpy
    sys.path[:0] = [os.environ.get("XPY_REPO", "/repo")]
    import xpython.execfile  # noqa: F401
    import click  # noqa: F401
    del sys.path[0]
    out, err = root + "/stdout", root + "/stderr"
    pid = os.fork()
    if not pid:
        rc = 1
        try:
            for fd, f in ((1, out), (2, err)):
                os.dup2(os.open(f, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600), fd)
            sys.stdout = open(1, "w", closefd=False)
            sys.stderr = open(2, "w", closefd=False)
            os.chdir(root + "/h0")
            sys.path[:0] = [root + "/h0", root + "/lib", os.environ.get("XPY_REPO", "/repo")]
            sys.dont_write_bytecode = True
            sys.argv = ["xpython"] + argv
            try:
                runpy.run_module("xpython", run_name="__main__")
                rc = 0
            except SystemExit as e:
                c = e.code
                if c is None:
                    rc = 0
                elif isinstance(c, int):
                    rc = c & 255
                else:
                    print(c, file=sys.stderr)
            except BaseException:
                import traceback
                traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(rc)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    return rc, open(out, errors="replace").read(), open(err, errors="replace").read()


def compare_command(hist, got):
    rc, out, err = got
    e = hist[-1]
    want = [x for h in hist for x in h["out"]]
    if rc != e["status"]:
        return "the exit status is %d, not %d; %s" % (rc, e["status"], err[-300:])
    if e["ev"] != "refuse" and out != want:
        k = next((i for i, (a, b) in enumerate(zip(out, want)) if a != b), min(len(out), len(want)))
        return "output line %d is %r, not %r" % (k, out[k:k + 1], want[k:k + 1])
    logged = 2 if "DEBUG:xpython" in err else 1 if "INFO:xpython" in err else 0
    if e["ev"] == "end" and logged != e["log"]:
        return "logging is that of verbosity %d, not %d: %r" % (logged, e["log"], err[:200])
    if e["res"] == "exit:msg" and not err.rstrip("\n").endswith("the message"):
        return "the message of sys.exit() is not on stderr: %r" % err[-200:]
    if e["ev"] == "refuse" and e["status"] != 1 and not out:
        return "no message but %r %r" % (out, err[-300:])
    return ""


def compare(hist, got):
    want = expected(hist)
    if got == want:
        return ""
    k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    a, b = (got[k:k + 1] or ["nothing"])[0], (want[k:k + 1] or ["nothing"])[0]
    if a[0] == b[0] == "end" and a[1:3] == b[1:3]:
        d = {f: (a[3][f], b[3][f]) for f in a[3] if a[3][f] != b[3][f]}
        return "after run %s (%s): %s" % (b[1], b[2], "; ".join("%s is %s, not %s" % (f, x, y) for f, (x, y) in d.items()))
    return "item %d is %r, not %r" % (k, a, b)


def _one(job):
    """(index, what is wrong, observed), in a process of its own"""
    n, hist, cli, real = job
    root = tempfile.mkdtemp(prefix="xrun")
    try:
        if cli:
            got = command(hist, root, real)
            return n, compare_command(hist, got), got
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                import resource
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
                try:
                    res = observe(hist, root)
                except BaseException:
                    import traceback
                    res = [["harness", traceback.format_exc()]]
                with os.fdopen(w, "w") as f:
                    json.dump(res, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        got = json.loads(text) if text else [["died"]]
        return n, compare(hist, got), got
    finally:
        shutil.rmtree(root, ignore_errors=True)


def replay_all(hists, cli=False, real=0):
    """[(what is wrong, observed)] per history; the first `real` of a command line start a Python of their own."""
    jobs = [(i, h, cli, i < real) for i, h in enumerate(hists)]
    sys.path[:0] = [os.environ.get("XPY_REPO", "/repo")]
    import xpython.execfile  # noqa: F401
    import click  # noqa: F401
    del sys.path[0]
    res = [None] * len(jobs)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 4)) as pool:
        for n, what, got in pool.imap_unordered(_one, jobs, chunksize=4):
            res[n] = (what, got)
    return res
