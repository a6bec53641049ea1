"""mkbug.py ID PROPERTY PATCH SRC VERSION NEEDS BREAKS [--traced]

Makes /verif/seeded/ID: a planted bug with a demonstration that runs one program in the VM and
compares output, outcome (and trace events) with those of the unchanged tree.
"""
import json
import os
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import minicomp  # noqa: E402
import record  # noqa: E402

DEMO = '''"""Runs the program of case.json in the VM and compares what happens with what should."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.getcwd())
sys.path.insert(0, HERE)
import guest
from xdis.codetype import Code2, Code3, Code38, Code310
from xdis.version_info import PythonImplementation as PI


def load(c):
    if isinstance(c, dict):
        if "tuple" in c:
            return tuple(load(x) for x in c["tuple"])
        if "ellipsis" in c:
            return Ellipsis
        d = dict(c["args"])
        for k, v in d.items():
            if isinstance(v, list):
                d[k] = tuple(load(x) for x in v)
        d["co_code"] = bytes.fromhex(d["co_code"])
        t = {"Code2": Code2, "Code3": Code3, "Code38": Code38, "Code310": Code310}[c["type"]]
        for k in ("co_lnotab", "co_linetable"):
            if k in d:
                d[k] = bytes.fromhex(d[k])
        return t(**d)
    return c


def main():
    case = json.load(open(os.path.join(HERE, "case.json")))
    code = load(case["code"])
    ver = tuple(case["ver"])
    impl = PI.PyPy if case["pypy"] else PI.CPython
    out = []

    def out_(*a):
        out.append(",".join(guest.canon(x) for x in a))
        if len(out) > 20000:
            os._exit(3)
    out_.host = True
    guest.P.log = out
    import guestmods
    guestmods.fresh()
    import builtins
    g = {"__builtins__": builtins, "__name__": "__main__", "out": out_, "P": guest.P,
         "PErr": guest.PErr}
    events = []
    policy = {p["n"]: p for p in case["policy"]}

    def cb(event, offset, name, bc, line, int_arg, earg, vm):
        f = vm.frame
        if event in ("call", "yield", "line", "instruction"):
            s = "%s %s %s %s %s" % (event, offset, name, line, f.f_lineno if f else "-")
        elif event == "return":
            s = "%s %s %s %s" % (event, offset, line, guest.canon(earg))
        elif event == "exception":
            s = "%s %s %s %s" % (event, offset, line, getattr(earg[0], "__name__", earg[0]))
        else:
            s = event
        events.append(s)
        if len(events) > 20000:
            os._exit(3)
        p = policy.get(len(events))
        if p is None or event in ("return", "exception"):
            return True
        if p["r"] in ("brk", "unbrk"):
            for i in p["at"]:
                if (i in f.brkpt) == (p["r"] == "unbrk"):
                    (vm.add_breakpoint if p["r"] == "brk" else vm.remove_breakpoint)(f, i)
            return True
        if p["r"] == "none":
            return None
        if p["r"] == "flags":
            f.event_flags = p["v"]
            return True
        if p["r"] == "return":
            vm.return_value = p["v"]
            return "return"
        return p["r"]

    if case["traced"]:
        from xpython.vmtrace import PyVMTraced
        vm = PyVMTraced(cb, ver, impl, event_flags=case["mask"])
    else:
        from xpython.vm import PyVM
        vm = PyVM(ver, impl)
    try:
        r = vm.run_code(code, f_globals=g)
        e = vm.last_exception
        res = "exc:" + getattr(e[0], "__name__", str(e[0])) if r == 1 and e else "ok" if r == 0 else repr(r)
    except BaseException as e:
        res = "raised:" + type(e).__name__
    if len(sys.argv) > 1 and sys.argv[1] == "--make":
        case.update(out=out, res=res, events=events)
        json.dump(case, open(os.path.join(HERE, "case.json"), "w"))
        return 0
    bad = 0
    for what, got, want in (("outcome", res, case["res"]), ("output", out, case["out"]),
                            ("events", events, case["events"])):
        if got != want:
            print("%s differs:\\n got      %r\\n expected %r" % (what, got, want))
            bad = 1
    return bad


import signal
signal.signal(signal.SIGALRM, lambda *a: os._exit(4))
signal.alarm(60)
rc = main()
sys.stdout.flush()
os._exit(rc)
'''


def dump(c):
    if isinstance(c, tuple):
        return {"tuple": [dump(x) for x in c]}
    if c is Ellipsis:
        return {"ellipsis": 1}
    if isinstance(c, minicomp.CodeObj):
        x = minicomp.to_xdis(c)
        triple = list(c.ver) + [0]
        d = dict(co_nlocals=len(c.varnames), co_stacksize=100, co_flags=c.flags, co_code=c.code.hex(),
                 co_consts=[dump(k) for k in c.consts], co_names=list(c.names),
                 co_varnames=list(c.varnames), co_filename=c.filename, co_name=c.name,
                 co_firstlineno=c.firstlineno, co_freevars=list(c.freevars),
                 co_cellvars=list(c.cellvars), version_triple=triple, co_argcount=c.argcount)
        t = type(x).__name__
        if c.ver >= (3, 0):
            d["co_kwonlyargcount"] = c.kwonly
        if c.ver >= (3, 8):
            d["co_posonlyargcount"] = c.posonly
        if c.ver < (3, 10):
            d["co_lnotab"] = minicomp.lnotab(c).hex()
        else:
            d["co_linetable"] = minicomp.linetable310(c).hex()
        return {"type": t, "args": d}
    return c


def make(bid, prop, patch, src, ver, needs, breaks, traced=False, mask=127, policy=()):
    d = os.path.join(HERE, "..", "seeded", bid)
    os.makedirs(d, exist_ok=True)
    if patch != os.path.join(d, "patch.diff"):
        shutil.copy(patch, os.path.join(d, "patch.diff"))
    pp = ver.endswith("p")
    v = tuple(map(int, ver.rstrip("p").split(".")))
    co = minicomp.compile_source(src, "<t>", v, pp)
    case = {"source": src, "ver": v, "pypy": pp, "code": dump(co), "traced": traced, "mask": mask,
            "policy": list(policy)}
    json.dump(case, open(os.path.join(d, "case.json"), "w"))
    open(os.path.join(d, "demo.py"), "w").write(DEMO)
    shutil.copy(os.path.join(HERE, "guest.py"), d)
    shutil.copy(os.path.join(HERE, "guestmods.py"), d)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    import subprocess
    subprocess.check_call(["/opt/venv/bin/python", "-W", "ignore", os.path.join(d, "demo.py"), "--make"],
                          cwd="/repo")
    c = json.load(open(os.path.join(d, "case.json")))
    print(bid, "expected:", c["out"][:12], c["res"])
