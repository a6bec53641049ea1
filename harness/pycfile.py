"""Writes code objects of minicomp as .pyc files of their versions."""
import struct

import minicomp

MAGIC = {"2.4": 62061, "2.5": 62131, "2.6": 62161, "2.7": 62211, "3.1": 3151, "3.2": 3180,
         "3.3": 3230, "3.4": 3310, "3.5": 3351, "3.6": 3379, "3.7": 3394, "3.8": 3413, "3.9": 3425,
         "3.10": 3439, "2.7pypy": 62218, "3.6pypy": 192, "3.7pypy": 240, "3.9pypy": 336,
         # not supported by the interpreter
         "2.3": 62021, "3.0": 3131, "3.13": 3571}


def _int(n):
    return struct.pack("<i", n)


def marshal(x, ver):
    if x is None:
        return b"N"
    if x is True:
        return b"T"
    if x is False:
        return b"F"
    if x is Ellipsis:
        return b"."
    if isinstance(x, int):
        return b"i" + _int(x)
    if isinstance(x, bytes):
        return b"s" + _int(len(x)) + x
    if isinstance(x, str):
        b = x.encode("utf-8")
        return (b"s" if ver < (3, 0) else b"u") + _int(len(b)) + b
    if isinstance(x, (tuple, list)):
        return b"(" + _int(len(x)) + b"".join(marshal(e, ver) for e in x)
    assert isinstance(x, minicomp.CodeObj), x
    ints = [x.argcount]
    if ver >= (3, 8):
        ints.append(x.posonly)
    if ver >= (3, 0):
        ints.append(x.kwonly)
    ints += [len(x.varnames), 100, x.flags]
    table = minicomp.linetable310(x) if ver >= (3, 10) else minicomp.lnotab(x)
    return b"c" + b"".join(map(_int, ints)) + b"".join(marshal(e, ver) for e in (
        bytes(x.code), tuple(x.consts), tuple(x.names), tuple(x.varnames), tuple(x.freevars),
        tuple(x.cellvars), x.filename, x.name)) + _int(x.firstlineno) + marshal(table, ver)


def header(vs, ver):
    h = struct.pack("<Hcc", MAGIC[vs], b"\r", b"\n")
    if ver >= (3, 7):
        h += _int(0)
    h += _int(1700000000)
    if ver >= (3, 3):
        h += _int(0)
    return h


def pyc(source, filename, vs, ver, pypy=False):
    code = minicomp.compile_source(source, filename, ver, pypy)
    return header(vs, ver) + marshal(code, ver)
