"""The programs each property is checked with."""
import random

import gen
import gen2
import minicomp

CP = [((2, 4), False), ((2, 5), False), ((2, 6), False), ((2, 7), False), ((3, 1), False),
      ((3, 2), False), ((3, 3), False), ((3, 4), False), ((3, 5), False), ((3, 6), False),
      ((3, 7), False), ((3, 8), False), ((3, 9), False), ((3, 10), False)]
PYPY = [((2, 7), True), ((3, 6), True), ((3, 7), True), ((3, 9), True)]
ALL = CP + PYPY


def vname(v, pp):
    return "%d.%d%s" % (v[0], v[1], "p" if pp else "")


def in_loop(src):
    """The program in a loop, so that there is a block and something on the stack below all it does."""
    if '"""' in src:
        return src
    return "for __name__ in [__name__]:\n" + "".join("    %s\n" % line if line else "\n" for line in src.splitlines())


def make(pid, src, ver, pp, **kw):
    """A program for one version, or None if it cannot be expressed in it."""
    try:
        co = minicomp.compile_source(src, "<t>", ver, pp)
    except minicomp.Unsupported:
        return None
    return dict(kw, id=pid, src=src, code=co, ver=ver, pypy=pp)


def r_control(rng, ver):
    return gen.Gen(rng, ver).program(funcs=2, depth=3)


def r_exc(rng, ver):
    return gen.Gen(rng, ver, dict(try_=8, raise_=3, call=3, ret=2, probe=0, cause=1, for_=4, while_=2)).program(funcs=2, depth=4)


def r_handled(rng, ver):
    return gen.Gen(rng, ver, dict(try_=8, raise_=3, exc=6, bare=3, call=3, probe=0, cause=2,
                                  assign=1)).program(funcs=3, depth=4)


def r_with(rng, ver):
    return gen.Gen(rng, ver, dict(with_=9, try_=3, raise_=2, exc=2, ret=2, call=2, assign=1)).program(
        funcs=2, depth=4)


def r_gens(rng, ver):
    return gen.Gen(rng, ver, dict(gen=4, exc=1, probe=0, with_=1)).gen_program()


def _g2(cls):
    return lambda rng, ver: cls(rng, ver).program()


RANDOM = {"ops": _g2(gen2.Ops), "containers": _g2(gen2.Containers), "calls": _g2(gen2.Calls),
          "scopes": _g2(gen2.Scopes), "classes": _g2(gen2.Classes),
          "imports": _g2(gen2.Imports), "prints": _g2(gen2.Prints), "control": r_control, "exc": r_exc, "handled": r_handled, "with": r_with, "gens": r_gens}


def build(kind, n, seed, vers, **kw):
    progs = []
    for i in range(n):
        for v, pp in vers:
            rng = random.Random("%s/%d/%d/%s" % (kind, seed, i, vname(v, pp)))
            src = RANDOM[kind](rng, v)
            if rng.random() < 0.4:
                src = in_loop(src)
            p = make("%s.%d@%s" % (kind, i, vname(v, pp)), src, v, pp, **kw)
            if p:
                progs.append(p)
    return progs
