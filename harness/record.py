"""Runs programs in x-python's VM and records what happens.

Every program is run in a process of its own, forked from a worker, so that no
run sees what another has left behind.  Three runs are made of it: with the
tracing VM (its events, output and outcome are the record), with the plain VM,
and with the plain VM and debug logging; the last two have to have the same
output and outcome.
"""
import contextlib
import io
import json
import logging
import os
import resource
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import guest  # noqa: E402
import guestmods  # noqa: E402
import minicomp  # noqa: E402

OPTAB = json.load(open(os.path.join(HERE, "..", "spec", "opcodes.json")))
EVENT_LIMIT = 20000

# instructions a callback may skip without putting the stack in disorder
SKIPPABLE = {"NOP", "UNARY_NOT", "UNARY_NEGATIVE", "UNARY_POSITIVE", "UNARY_INVERT", "LOAD_ATTR",
             "DELETE_NAME", "DELETE_FAST", "DELETE_GLOBAL",
             "PRINT_NEWLINE", "SETUP_ANNOTATIONS", "JUMP_IF_FALSE", "JUMP_IF_TRUE", "LIST_TO_TUPLE"}


def eligible(code, ver, pypy):
    """Offsets of the instructions that can get a breakpoint: those without EXTENDED_ARG."""
    tab = OPTAB[vs_name(ver, pypy)]
    res = []
    off = 0
    ext = False
    while off < len(code):
        name = tab["name"][code[off]]
        if name == "EXTENDED_ARG":
            ext = True
        else:
            if not ext:
                res.append(off)
            ext = False
        off += 2 if ver >= (3, 6) else 3 if code[off] >= tab["have"] else 1
    return res


def set_breakpoints(vm, frame, residue, on, ver, pypy):
    """Adds or removes a breakpoint at every fifth instruction that can have one."""
    code = list(frame.f_code.co_code)
    for off, op in frame.brkpt.items():
        code[off] = op
    for i, off in enumerate(eligible(code, ver, pypy)):
        if i % 5 == residue:
            if on:
                vm.add_breakpoint(frame, off)
            elif off in frame.brkpt and frame.f_code.co_code[off] == 8:
                vm.remove_breakpoint(frame, off)


def give_up(*a):
    """Ends a run that does not end; an exception could be caught by the program."""
    os._exit(77)


def vs_name(ver, pypy):
    return "%d.%d%s" % (ver[0], ver[1], "p" if pypy else "")


def argtext(table, bc, arguments):
    if not arguments:
        return "-"
    a = arguments[-1] if len(arguments) == 1 else arguments
    kind = table["kind"][bc]
    if kind == "const":
        return guest.canon(a)
    return str(a)


def make_globals(out, prog):
    def out_(*args):
        out.append(",".join(guest.canon(a) for a in args))
        if len(out) > EVENT_LIMIT:
            give_up()
    out_.host = True
    import builtins
    g = {"__builtins__": builtins, "__name__": "__main__", "out": out_, "P": guest.P,
         "PErr": guest.PErr}
    guest.P.log = out
    return g


class PrintLog(io.TextIOBase):
    """stdout of the interpreted program: print statements become output lines"""

    def __init__(self, out):
        self.out = out
        self.text = ""

    def write(self, s):
        # the report of an exception nobody handles is not output of the program
        if self.text or s == "Traceback (most recent call last):":
            self.text += s
        elif s:
            self.out.append("write " + s)
            if len(self.out) > EVENT_LIMIT:
                give_up()
        return len(s)


def outcome_of(vm, r, exc):
    if exc is not None:
        return "raised:%s" % type(exc).__name__
    if r == 1 and getattr(vm, "last_exception", None):
        t = vm.last_exception[0]
        return "exc:%s" % getattr(t, "__name__", t)
    return "ok" if r == 0 else "result:%r" % (r,)


def run_vm(make_vm, code, prog, out, seconds, ready=lambda: None):
    vm = None
    exc = None
    r = None
    stdout = sys.stdout
    cap = PrintLog(out)
    sys.stdout = cap
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        vm = make_vm()
        surroundings(vm, prog)
        guestmods.fresh()
        ready()
        g = make_globals(out, prog)
        if prog.get("nested"):
            run_nested(g, out, prog["nested"])
        r = vm.run_code(code, f_globals=g)
    except BaseException as e:
        exc = e
        if type(e) is SystemExit:
            signal.setitimer(signal.ITIMER_PROF, 0)
            return "exc:SystemExit", "", vm
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = stdout
    res = outcome_of(vm, r, exc)
    if exc is not None:
        tb = traceback.extract_tb(exc.__traceback__)
        at = ["%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-3:]]
        return res, "%s %s" % (exc, at), vm
    return res, cap.text, vm


def quietly(vm, src, ver, pypy):
    """Runs another program; what it does is of no interest."""
    log = guest.P.log
    try:
        vm.run_code(minicomp.to_xdis(minicomp.compile_source(src, "<o>", tuple(ver), pypy)),
                    f_globals=make_globals([], {}))
    except BaseException:
        pass
    finally:
        guest.P.log = log


def surroundings(vm, prog):
    """What has happened before: prog["before"] are programs run in the same VM,
    prog["others"] programs run in VMs of their own, of the versions given."""
    from xdis.version_info import PythonImplementation as PI
    from xpython.vm import PyVM
    for src in prog.get("before", ()):
        quietly(vm, src, prog["ver"], prog.get("pypy", False))
    for src, ver, pypy in prog.get("others", ()):
        quietly(PyVM(tuple(ver), PI.PyPy if pypy else PI.CPython), src, ver, pypy)


def run_nested(g, out, nested):
    """At its second line of output, the program makes another VM run."""
    from xdis.version_info import PythonImplementation as PI
    from xpython.vm import PyVM
    old = g["out"]
    src, ver, pypy = nested
    n = []

    def out_(*args):
        old(*args)
        n.append(0)
        if len(n) == 2:
            quietly(PyVM(tuple(ver), PI.PyPy if pypy else PI.CPython), src, ver, pypy)
    out_.host = True
    g["out"] = out_


def record(prog):
    """prog: dict(code, ver, pypy, mask, policy, modes, seconds) -> record"""
    from xdis.version_info import PythonImplementation as PI

    signal.signal(signal.SIGPROF, give_up)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    ver = tuple(prog["ver"])
    pypy = prog.get("pypy", False)
    impl = PI.PyPy if pypy else PI.CPython
    table = OPTAB[vs_name(ver, pypy)]
    co = prog["code"]
    code = minicomp.to_xdis(co)
    modes = prog.get("modes", "tpd")
    seconds = prog.get("seconds", 3)
    rec = {}
    if "t" in modes:
        from xpython import vmtrace
        policy = {p["n"]: p for p in prog.get("policy", ())}
        events = []
        out = []

        def cb(event, offset, name, bc, line, int_arg, earg, vm):
            fr = vm.frame
            fname = fr.f_code.co_name if fr else "-"
            if event in ("line", "instruction"):
                s = "%s|%s|%s|%s|%s|%s|%s" % (event, offset, name, line or "-",
                                              argtext(table, bc, earg), fname, fr.f_lineno)
            elif event in ("call", "yield"):
                s = "%s|%s|%s|%s" % (event, offset, line, fname)
            elif event == "return":
                s = "return|%s|%s|%s|%s" % (offset, name, line or "-", guest.canon(earg))
            elif event == "exception":
                s = "exception|%s|%s|%s|%s|%s" % (
                    offset, name, line or "-", guest.tname(earg[0]), fname)
            else:
                s = "%s|%s|%s|%s" % (event, offset, name, line or "-")
            events.append(s)
            if len(events) > EVENT_LIMIT:
                give_up()
            p = policy.get(len(events))
            if p is None:
                return True
            r = p["r"]
            if event not in ("line", "instruction", "call", "yield", "breakpoint"):
                return True
            if r in ("brk", "unbrk"):
                set_breakpoints(vm, fr, p["v"], r == "brk", ver, pypy)
                return True
            if r == "none":
                return None
            if r == "self":
                return cb
            if r == "skip":
                return "skip" if name in SKIPPABLE else True
            if r == "flags":
                fr.event_flags = p["v"]
                return True
            if r == "return":
                if fr.f_code.co_flags & 33 != 1:
                    return True  # only functions that are not generators
                vm.return_value = p["v"]
                return "return"
            return r

        with log_enabled(prog.get("tlevel")):
            res, detail, vm = run_vm(
                lambda: vmtrace.PyVMTraced(cb, ver, impl, event_flags=prog.get("mask", 127)),
                code, prog, out, seconds * (2 if prog.get("tlevel") else 1), events.clear)
        rec.update(rev=events, rout=out, rres=res, detail=detail)
        rec["left"] = leftovers(vm)
    if "p" in modes:
        from xpython.vm import PyVM
        out = []
        res, detail, vm = run_vm(lambda: PyVM(ver, impl), code, prog, out, seconds)
        rec["plain"] = [out, res, leftovers(vm)]
        rec["pdetail"] = detail
    if "d" in modes:
        from xpython.vm import PyVM
        out = []
        with log_enabled(prog.get("level", logging.DEBUG)):
            res, detail, vm = run_vm(lambda: PyVM(ver, impl), code, prog, out, seconds * 2)
        rec["debug"] = [out, res, leftovers(vm)]
        rec["ddetail"] = detail
    if "t" not in modes:
        which = "plain" if "p" in modes else "debug"
        rec.update(rev=[], rout=rec[which][0], rres=rec[which][1], detail="", left=rec[which][2])
    return rec


@contextlib.contextmanager
def log_enabled(level):
    """The log of that level is on, and written into a string."""
    if level is None:
        yield
        return
    root = logging.getLogger()
    old = root.level, list(root.handlers)
    root.handlers[:] = [logging.StreamHandler(io.StringIO())]
    root.setLevel(level)
    try:
        yield
    finally:
        root.setLevel(old[0])
        root.handlers[:] = old[1]


def leftovers(vm):
    """What a finished run must not leave in the VM."""
    if vm is None:
        return "no vm"
    bad = []
    if vm.frames:
        bad.append("%d frames" % len(vm.frames))
    if vm.frame is not None:
        bad.append("a current frame")
    h = getattr(vm, "handled_exception", None)
    if h and h[0] is not None:
        bad.append("a handled exception")
    return ",".join(bad)


def in_child(fn, arg, seconds=30):
    """fn(arg) in a forked child; its result through a pipe, as JSON"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if not os.environ.get("XPY_STDERR"):
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)
            try:
                res = fn(arg)
            except BaseException as e:
                res = {"error": "%s: %s" % (type(e).__name__, e),
                       "tb": traceback.format_exc()[-1500:]}
            data = json.dumps(res).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    import select
    import time
    end = time.time() + seconds
    data = b""
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    try:
        return json.loads(data.decode())
    except ValueError:
        return {"error": "child ended with status %d" % status, "killed": True}


def record_isolated(prog):
    rec = in_child(record, prog, seconds=10 * prog.get("seconds", 3) + 20)
    if rec.get("killed"):
        rec.update(rev=[], rout=[], rres="hang", detail=rec["error"], left="")
        for m in ("plain", "debug"):
            rec[m] = [[], "hang", ""]
    return rec


def record_all(progs, jobs=8):
    """Records the programs, in the order given, with jobs workers."""
    from concurrent.futures import ThreadPoolExecutor
    if not progs:
        return []
    chunks = [(i, progs[i::jobs]) for i in range(min(jobs, len(progs)))]
    result = [None] * len(progs)

    def work(chunk):
        i, part = chunk
        return i, in_child(lambda ps: [record_isolated(p) for p in ps], part, seconds=3000)

    # The workers are processes; the threads only wait for them.  fork() from
    # a multithreaded process is avoided by forking the workers here first.
    procs = []
    for i, part in chunks:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                import xpython.vm, xpython.vmtrace  # noqa
                for p in part:
                    line = json.dumps(record_isolated(p)).encode() + b"\n"
                    while line:
                        n = os.write(w, line)
                        line = line[n:]
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        procs.append((i, pid, r))

    def drain(p):
        i, pid, r = p
        with os.fdopen(r, "rb") as f:
            return i, [json.loads(line) for line in f]

    with ThreadPoolExecutor(len(procs)) as ex:
        for i, recs in ex.map(drain, procs):
            for j, rec in enumerate(recs):
                result[i + j * jobs] = rec
    for _, pid, _ in procs:
        os.waitpid(pid, 0)
    for k, rec in enumerate(result):
        if rec is None:
            result[k] = {"error": "worker died"}
    return result
