"""Writes spec/opcodes.json, the opcode tables of the specification, from xdis.

xpython itself is not imported: the tables are those of the interpreted
versions, whatever x-python makes of them.  The committed file is what the
checks use; run this only to regenerate it.
"""
import json
import os
import sys

from xdis.op_imports import get_opcode_module
from xdis.version_info import PythonImplementation as PI

VERSIONS = [(2, 4), (2, 5), (2, 6), (2, 7), (3, 0), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5),
            (3, 6), (3, 7), (3, 8), (3, 9), (3, 10)]
PYPY = [(2, 7), (3, 2), (3, 5), (3, 6), (3, 7), (3, 8), (3, 9)]


def table(ver, impl):
    opc = get_opcode_module(ver, impl)
    name = []
    kind = []
    for op in range(256):
        n = opc.opname[op]
        name.append("" if n.startswith("<") or n == "nothing" else n)
        kind.append(
            "const" if op in opc.CONST_OPS else "free" if op in opc.FREE_OPS
            else "name" if op in opc.NAME_OPS else "jrel" if op in opc.JREL_OPS
            else "jabs" if op in opc.JABS_OPS else "local" if op in opc.LOCAL_OPS else "")
    return {"name": name, "have": opc.HAVE_ARGUMENT, "kind": kind}


def main():
    out = {}
    for v in VERSIONS:
        out["%d.%d" % v] = table(v, PI.CPython)
    for v in PYPY:
        try:
            out["%d.%dp" % v] = table(v, PI.PyPy)
        except Exception as e:
            print("no", v, e, file=sys.stderr)
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "opcodes.json")
    with open(path, "w") as f:
        json.dump(out, f, separators=(",", ":"))
        f.write("\n")


if __name__ == "__main__":
    main()
