"""Random structured programs, in the subset of Python that minicomp compiles.

Everything a program does is visible: out(...) and the operations of probes are
recorded, and so are the trace events.  All programs terminate (loops run over
literals or count), and raise only exceptions of their own or of builtin kinds.
"""


class Gen:
    def __init__(self, rng, ver, w=None):
        self.r = rng
        self.ver = ver
        self.lines = []
        self.ind = 0
        self.label = 0
        self.fn = 0
        self.tmp = 0
        self.budget = 40
        self.w = dict(out=4, assign=3, aug=1, if_=3, for_=2, while_=1, try_=3, with_=0, raise_=1,
                      ret=1, brk=2, cont=2, call=1, def_=1, gen=0, exc=0, probe=1, chain=1,
                      bare=1, cause=0, del_=0, gret=1, iter=1)
        self.w.update(w or {})

    # -- output
    def p(self, s):
        self.lines.append("    " * self.ind + s)

    def mark(self, *extra):
        self.label += 1
        f = "out" if self.r.random() < 0.7 else self.r.choice(self.helpers())
        if f == "hush":
            self.hush()
        else:
            self.p("%s(%s)" % (f, ", ".join(["%d" % self.label] + list(extra))))

    def hush(self):
        """a call in which an exception is raised and handled"""
        self.p("hush(%d, %s)" % (self.fresh(), self.r.choice(["E1", "E2", "E2", "E3", "KeyError", "TypeError"])))

    def helpers(self):
        """interpreted functions that output their arguments, in different ways"""
        return ["note", "tell", "tell", "note", "hush"] if self.w["try_"] or self.w["with_"] else ["note", "tell"]

    def source(self):
        return "\n".join(self.lines) + "\n"

    # -- expressions
    def atom(self, c):
        r = self.r.random()
        if r < 0.38:
            return str(self.r.randint(0, 9))
        if r < 0.45:
            return "%s(%s)" % (self.r.choice(["note", "tell"]), self.r.choice(c["vars"] + ["0", "''"]))
        if r < 0.95:
            return self.r.choice(c["vars"])
        return "P('p%d')" % self.r.randint(0, 3) if self.w["probe"] else "7"

    def expr(self, c, d=2):
        r = self.r.random()
        if d == 0 or r < 0.3:
            return self.atom(c) if r > 0.05 else self.r.choice(["(1, 2)", "[3]", "'s'", "None", "()"])
        if r < 0.55:
            return "(%s %s %s)" % (self.num(c, d - 1), self.r.choice(["+", "-", "*"]), self.num(c, d - 1))
        if r < 0.7:
            return self.cond(c, d - 1)
        if r < 0.8:
            return "(%s %s %s)" % (self.expr(c, d - 1), self.r.choice(["and", "or"]), self.expr(c, d - 1))
        if r < 0.88 and self.ver >= (2, 5):
            return "(%s if %s else %s)" % (self.expr(c, d - 1), self.cond(c, d - 1), self.expr(c, d - 1))
        if r < 0.94:
            return "[%s, %s]" % (self.expr(c, d - 1), self.expr(c, d - 1))
        return "(%s, %s)" % (self.expr(c, d - 1), self.expr(c, d - 1))

    def num(self, c, d=1):
        r = self.r.random()
        if d == 0 or r < 0.6:
            return str(self.r.randint(0, 9)) if r < 0.3 else self.r.choice(c["nums"])
        return "(%s %s %s)" % (self.num(c, d - 1), self.r.choice(["+", "-"]), self.num(c, d - 1))

    def cond(self, c, d=1):
        r = self.r.random()
        if r < 0.5 or d == 0:
            return "%s %s %s" % (self.num(c, 0), self.r.choice(["<", "<=", "==", "!=", ">", ">="]),
                                 self.num(c, 0))
        if r < 0.55:
            return "not %s" % self.r.choice(c["nums"])
        if r < 0.6:
            return "%s(%d)" % (self.r.choice(["note", "tell"]), self.r.randint(0, 1))
        if r < 0.7:
            return "%s < %s <= %s" % (self.num(c, 0), self.num(c, 0), self.num(c, 0))
        if r < 0.8 and self.w["probe"]:
            return "P('q%d', %d)" % (self.r.randint(0, 3), self.r.randint(0, 1))
        if r < 0.9:
            return "(%s %s %s)" % (self.cond(c, d - 1), self.r.choice(["and", "or"]), self.cond(c, d - 1))
        return "%s in (%d, %d)" % (self.r.choice(c["nums"]), self.r.randint(0, 5), self.r.randint(0, 5))

    # -- statements
    EXC = ["E1", "E2", "E3", "ValueError", "KeyError", "TypeError", "IndexError", "Exception"]

    def excname(self):
        return self.r.choice(self.EXC)

    def exctuple(self):
        r = self.r.random()
        n = [self.excname() for _ in range(self.r.choice([1, 2, 2, 3, 3, 4]))]
        if r < 0.7:
            return "(%s,)" % ", ".join(n)
        if r < 0.8:
            return "()"
        if self.ver < (3, 0) and r < 0.9:
            return "(%s, (%s,))" % (self.excname(), ", ".join(n))
        return "EE"

    def block(self, c, depth, n=None):
        n = n or self.r.randint(1, 3)
        self.ind += 1
        before = len(self.lines)
        for _ in range(n):
            if self.stmt(c, depth):
                break
        if len(self.lines) == before:
            self.mark()
        self.ind -= 1

    def leave(self, c):
        """perhaps, at the end of a clause, a statement that leaves it"""
        if self.r.random() < 0.6:
            return
        k = []
        if c["loop"] > 0:
            k += ["break", "continue", "continue"][:2 if c.get("nocont") else 3]
            if c.get("nocont"):
                k = ["break"]
        if c["func"] and not c.get("gen"):
            k += ["return a", "return note(b)"]
        elif c.get("gen"):
            k += ["return"]
        if k:
            self.ind += 1
            t = self.r.choice(k)
            if self.r.random() < 0.5:
                self.p("if %s:" % self.cond(c, 0))
                t = "    " + t
            self.p(t)
            self.ind -= 1

    def stmt(self, c, depth):
        """one statement; true if control never goes on behind it"""
        self.budget -= 1
        kinds = ["out", "assign", "aug"]
        if depth > 0 and self.budget > 0:
            kinds += ["if_", "for_", "while_", "try_"]
            if self.ver >= (2, 5):
                kinds.append("with_")
            if c["fdepth"] < 2:
                kinds += ["def_"]
        kinds += ["raise_", "call", "exc", "chain"]
        if c["func"] and not c.get("gen"):
            kinds.append("ret")
        if c["loop"] > 0:
            kinds.append("brk")
            # no continue in finally before 3.8
            if not c.get("nocont"):
                kinds.append("cont")
        if c.get("handler"):
            kinds += ["bare", "bare"]
        if c.get("gen"):
            kinds += ["gen", "gen", "gen", "gret"]
        if self.ver >= (3, 0):
            kinds.append("cause")
        weights = [self.w[k] for k in kinds]
        if sum(weights) == 0:
            return False
        k = self.r.choices(kinds, weights)[0]
        return getattr(self, "s_" + k)(c, depth)

    def s_out(self, c, depth):
        self.mark(*([self.r.choice(c["vars"])] if self.r.random() < 0.6 else [self.expr(c)]))

    def s_assign(self, c, depth):
        if self.r.random() < 0.5:
            self.p("%s = %s" % (self.r.choice(c["nums"]), self.num(c, 2)))
        else:
            self.p("%s = %s" % (self.r.choice([v for v in c["vars"] if v not in c["nums"]] or c["vars"]),
                                self.expr(c)))

    def s_aug(self, c, depth):
        self.p("%s %s= %s" % (self.r.choice(c["nums"]), self.r.choice("+-"), self.num(c, 1)))

    def s_chain(self, c, depth):
        a, b = self.r.choice(c["nums"]), self.r.choice(c["nums"])
        if self.r.random() < 0.5:
            self.p("%s, %s = %s, %s" % (a, b, self.num(c), self.num(c)))
        else:
            self.p("%s = %s = %s" % (a, b, self.num(c)))

    def s_if_(self, c, depth):
        self.p("if %s:" % self.cond(c, 2))
        self.block(c, depth - 1)
        if self.r.random() < 0.3:
            self.p("elif %s:" % self.cond(c, 1))
            self.block(c, depth - 1)
        if self.r.random() < 0.5:
            self.p("else:")
            self.block(c, depth - 1)

    def newvar(self, pre):
        self.tmp += 1
        return "%s%d" % (pre, self.tmp)

    def s_for_(self, c, depth):
        v = self.newvar("i")
        it = self.r.choice(["(1, 2, 3)", "[4, 5]", "range(3)", "'xy'", "()", "(0,)", "range(2, 6, 2)"])
        if self.w["iter"] and self.r.random() < 0.25:
            it = "It(%d, %s)" % (self.r.randint(0, 2), self.r.choice(
                ["StopIteration", "StopIteration", "Stop", "IndexError", "KeyError", "E1(%d)" % self.fresh(), "E3"]))
        if c.get("gens") and self.r.random() < 0.5:
            it = self.r.choice(c["gens"]) + "()"
        self.p("for %s in %s:" % (v, it))
        self.block(dict(c, loop=c["loop"] + 1, nocont=False, vars=c["vars"] + [v], intry=False), depth - 1)
        if self.r.random() < 0.3:
            self.p("else:")
            self.block(c, depth - 1)

    def s_while_(self, c, depth):
        v = self.newvar("w")
        self.p("%s = %d" % (v, self.r.randint(0, 3)))
        one = self.r.random() < 0.3 and not c.get("noone")
        self.p("while %s:" % ("1" if one else v))
        self.ind += 1
        if one:
            self.p("if %s <= 0:" % v)
            self.p("    break")
        self.p("%s = %s - 1" % (v, v))
        self.ind -= 1
        self.block(dict(c, loop=c["loop"] + 1, nocont=False, intry=False), depth - 1)
        if self.r.random() < 0.3 and not one:
            self.p("else:")
            self.block(c, depth - 1)

    def s_try_(self, c, depth):
        kind = self.r.choice(["except", "except", "finally", "both"])
        if kind == "both" and self.ver < (2, 5):
            kind = "except"
        # there was no continue in a finally clause before 3.8
        fin = dict(c, nocont=self.ver < (3, 8) or c.get("nocont", False), handler=False)
        if c.get("gen") and self.ver < (2, 5) and kind != "except":
            kind = "except"
        self.p("try:")
        self.block(c, depth - 1, self.r.randint(1, 3))
        self.leave(c)
        if kind != "finally":
            n = self.r.randint(1, 2)
            for i in range(n):
                r = self.r.random()
                if r < 0.15 and i == n - 1:
                    self.p("except:")
                    h = c
                elif r < 0.3:
                    self.p("except %s:" % self.exctuple())
                    h = c
                elif r < 0.36:
                    v = self.newvar("e")
                    self.p("except %s as %s:" % (self.exctuple(), v))
                    self.p("    out(%d, %s)" % (self.fresh(), v))
                    h = c
                elif r < 0.6:
                    v = self.newvar("e")
                    self.p("except %s as %s:" % (self.excname(), v))
                    h = c
                    if self.r.random() < 0.5:
                        self.ind += 1
                        self.mark(v)
                        self.ind -= 1
                else:
                    self.p("except %s:" % self.excname())
                    h = c
                self.block(dict(h, handler=True), depth - 1)
                self.leave(c)
            if self.r.random() < 0.3:
                self.p("else:")
                self.block(c, depth - 1)
        if kind != "except":
            self.p("finally:")
            r = self.r.random()
            self.ind += 1
            if r < 0.4:
                self.mark()
            elif r < 0.6:
                self.hush()
            self.ind -= 1
            self.block(fin, depth - 1)

    def s_with_(self, c, depth):
        v = self.newvar("c")
        r = self.r.random()
        if r < 0.4:
            cm = "P('%s', %d)" % (v, self.r.choice([0, 0, 3, 3, 4, 5, 1]))
        else:
            cm = "CM(%d, %d)" % (self.fresh(), self.r.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9]))
        self.p("with %s%s:" % (cm, self.r.choice(["", " as " + v])))
        self.block(c, depth - 1)
        self.leave(c)

    def fresh(self):
        self.label += 1
        return self.label

    def s_raise_(self, c, depth):
        r = self.r.random()
        if self.ver < (3, 0) and self.r.random() < 0.3:
            e = self.r.choice(["E1", "E2", "E2", "E3", "KeyError", "Exception"])
            v = self.r.choice(["%d" % self.fresh(), "(%d,)" % self.fresh(), "None", "()", "E2(%d)" % self.fresh(),
                               "E3(%d)" % self.fresh(), "(1, %s)" % self.num(c, 0), "sys.exc_info()[1]"])
            e, v = self.r.choice([(e, v)] * 6 + [("E1(1)", "None"), ("E3(2)", v), ("5", v), ("sys.exc_info()[0]", v)])
            self.p("raise_(%s, %s%s)" % (e, v, self.r.choice(["", "", ", None", ", sys.exc_info()[2]"])))
            return True
        if r < 0.2:
            self.p("raise %s" % self.excname())
        elif r < 0.6:
            self.p("raise %s(%d)" % (self.r.choice(["E1", "E2", "E2", "E3"]), self.fresh()))
        elif r < 0.7:
            self.p("raise %s" % self.r.choice(["5", "None", "()", "(E2, 1)"]))
        elif r < 0.8:
            self.p("%s = 1 // 0" % self.r.choice(c["nums"]))
            return False
        elif r < 0.9:
            self.p("boom(%s)" % self.num(c, 0))
            return False
        else:
            self.p("out(undefined_%d)" % self.fresh())
            return False
        return True

    def s_cause(self, c, depth):
        e = self.r.choice(["E1(1)", "E2", "E3(2)", "ValueError"])
        f = self.r.choice(["E1(3)", "E3", "None", "KeyError", "5", "0", "()"])
        self.p("raise %s from %s" % (e, f))
        return True

    def s_bare(self, c, depth):
        self.p("raise")
        return True

    def s_exc(self, c, depth):
        self.mark("sys.exc_info()[0]", "sys.exc_info()[1]")

    def s_ret(self, c, depth):
        self.p("return %s" % self.expr(c))
        return True

    def s_brk(self, c, depth):
        self.p("break")
        return True

    def s_cont(self, c, depth):
        self.p("continue")
        return True

    def s_gen(self, c, depth):
        if self.ver >= (2, 5) and self.r.random() < 0.5:
            self.p("s = yield %s" % self.expr(c, 1))
            self.mark("s")
        else:
            self.p("yield %s" % self.expr(c, 1))

    def s_gret(self, c, depth):
        v = ""
        if self.ver >= (3, 3):
            v = self.r.choice(["", " 0", " ''", " None", " ()", " [1]", " " + self.expr(c, 1)])
        self.p("return" + v)
        return True

    def s_call(self, c, depth):
        if c["fns"]:
            self.mark("%s(%s)" % (self.r.choice(c["fns"]), self.num(c, 0)))
        else:
            self.p("boom(%s)" % self.num(c, 0))

    def s_def_(self, c, depth):
        self.fn += 1
        f = "f%d" % self.fn
        self.function(f, c, depth)
        if self.r.random() < 0.8:
            self.mark("%s(%s)" % (f, self.num(c, 0)))

    def function(self, f, c, depth):
        # it only uses its own variables (and, for the names of functions, outer ones)
        self.p("def %s(a, b=2):" % f)
        self.ind += 1
        self.p("x = 0")
        self.ind -= 1
        self.block(dict(func=True, loop=0, vars=["a", "b", "x"], nums=["a", "b"], handler=False,
                        fdepth=c["fdepth"] + 1, fns=c["fns"], nocont=False), depth - 1,
                   self.r.randint(2, 4))

    # a class of exceptions whose metaclass reports what it is asked
    META = """class ME(type):
    def __eq__(cls, o):
        out('eq')
        return True
    def __ne__(cls, o):
        out('ne')
        return True
    def __hash__(cls):
        out('hash')
        return 1
    def __bool__(cls):
        out('bool')
        return False
    def __nonzero__(cls):
        out('bool')
        return False
#CHECKS
E3 = ME('E3', (Exception,), {})
"""
    CHECKS = """    def __instancecheck__(cls, c):
        out('instance')
        return True
"""
    PRELUDE = """class E1(Exception):
    def __init__(self, *args):
        self.n = args
class E2(E1):
    pass
class E3(Exception):
    pass
#E3
def boom(x):
    if x < 5:
        raise E2(x)
    return x
def note(x, y=None):
    out('note', x, y)
    return x
def tell(x, *more):
    for i in (x, 0):
        try:
            out('tell', i, more)
            return i
        finally:
            if more:
                note(more[0])
"""
    HUSH = """def hush(x, e=E2):
    try:
        raise e(x)
    except e:
        out('hush', x)
    return x
EE = (KeyError, E3, E2)
"""
    IT = """class Stop(StopIteration):
    pass
class It(object):
    def __init__(self, n, e):
        self.n = n
        self.e = e
    def __iter__(self):
        return self
    def next(self):
        if self.n == 0:
            out('raise', self.e)
            raise self.e
        self.n = self.n - 1
        return self.n
    __next__ = next
"""
    CMDEF = """class TV(object):
    def __init__(self, v):
        self.v = v
    def __bool__(self):
        out('truth', self.v)
        return self.v
    __nonzero__ = __bool__
TRUE = TV(True)
FALSE = TV(False)
class CM(object):
    def __init__(self, n, how):
        self.n = n
        self.how = how
    def __enter__(self):
        out('enter', self.n)
        if self.how == 2:
            raise E3(self.n)
        return self.n
    def __exit__(self, t, v, tb):
        out('exit', self.n, t, sys.exc_info()[0])
        if self.how == 3:
            raise E1(self.n)
        if self.how == 4:
            try:
                raise E2(self.n)
            except E1:
                pass
        return (False, True, 0, 0, 0, 1, TRUE, (), FALSE, None)[self.how]
"""

    def prelude(self):
        meta = self.META.replace("#CHECKS\n", self.CHECKS if self.ver >= (3, 0) else "")
        t = self.PRELUDE.replace("#E3\n", meta if self.r.random() < 0.3 else "") + self.HUSH
        if self.w["iter"]:
            t += self.IT
        return t

    def program(self, funcs=1, depth=3, with_sys=True, budget=40, module=True):
        self.budget = budget
        if with_sys:
            self.p("import sys")
        for line in self.prelude().splitlines():
            self.p(line)
        if self.w["with_"]:
            for line in self.CMDEF.splitlines():
                self.p(line)
        fns = []
        for i in range(funcs):
            name = "g%d" % i
            self.fn_budget(budget // (funcs + 1))
            c = dict(func=False, loop=0, vars=["a", "b", "x"], nums=["a", "b"], fdepth=0, fns=list(fns))
            self.function(name, c, depth + 1)
            fns.append(name)
        self.p("a = 1")
        self.p("b = 5")
        self.p("x = None")
        c = dict(func=False, loop=0, vars=["a", "b", "x"], nums=["a", "b"], fdepth=0, fns=fns, handler=False)
        if module:
            self.fn_budget(budget // (funcs + 1))
            for _ in range(self.r.randint(2, 4)):
                if self.stmt(c, depth):
                    break
        for f in fns:
            self.guarded("out('=', %s(%d))" % (f, self.r.randint(0, 9)))
        return self.source()

    def fn_budget(self, n):
        self.budget = n

    def guarded(self, line):
        self.p("try:")
        self.p("    " + line)
        v = self.newvar("e")
        self.p("except Exception as %s:" % v)
        self.p("    out('caught', %s)" % v)

    # -- generators
    def generator(self, name, depth=2):
        self.p("def %s(a=1):" % name)
        self.ind += 1
        self.p("b = 2")
        self.p("x = s = None")
        self.ind -= 1
        c = dict(func=True, gen=True, loop=0, vars=["a", "b", "x"], nums=["a", "b"], handler=False,
                 fdepth=2, fns=[], nocont=False)
        self.block(c, depth, self.r.randint(2, 5))
        self.ind += 1
        if self.r.random() < 0.7:
            self.p("yield %d" % self.fresh())
        else:
            # a generator in any case
            self.p("if b < -1000:")
            self.p("    yield 0")
        self.ind -= 1

    def throwing(self):
        if self.r.random() < 0.2:
            return "close()"
        return "throw(%s)" % self.r.choice(["E1", "E2", "E2(3)", "E3", "E3, 4", "E1, E2(5)", "KeyError, (1, 2)",
                                            "GeneratorExit", "StopIteration", "ValueError, None", "5"])

    def gen_program(self):
        self.p("import sys")
        for line in self.prelude().splitlines():
            self.p(line)
        if self.w["with_"]:
            for line in self.CMDEF.splitlines():
                self.p(line)
        n = self.r.randint(1, 2)
        for i in range(n):
            self.budget = 12
            self.generator("h%d" % i)
        if self.ver >= (3, 3):
            self.p("def q0(v):")
            self.p("    yield 'q'")
            self.p("    return v")
            self.p("def d0():")
            self.p("    r = yield from h0()")
            self.p("    out('r', r)")
            if self.r.random() < 0.5:
                self.p("    out('q', (yield from q0(%s)))" % self.r.choice(["0", "()", "''", "5", "None", "False"]))
            self.p("    r = yield from %s" % self.r.choice(["(1, 2)", "h%d(3)" % (n - 1), "[]", "range(2)"]))
            self.p("    return 4")
        names = ["h%d" % i for i in range(n)] + (["d0"] if self.ver >= (3, 3) else [])
        self.p("def drive(g):")
        self.p("    try:")
        self.p("        try:")
        for i in range(self.r.randint(2, 6)):
            r = self.r.random()
            if r < 0.45 or self.ver < (2, 5):
                self.p("            out('n', next(g))")
            elif r < 0.7:
                self.p("            try:")
                self.p("                out('t', g.%s)" % self.throwing())
                self.p("            except (%s):" % self.r.choice(["Exception, GeneratorExit", "E1, GeneratorExit",
                                                                    "E3, KeyError", "RuntimeError, StopIteration"]))
                self.p("                out('tc', sys.exc_info()[0])")
            elif r < 0.9:
                self.p("            out('s', g.send(%s))" % self.r.choice(["None", "None", "7", "'v'", "0", "''", "False", "()"]))
            else:
                self.p("            out('x', sys.exc_info()[0])")
        self.p("            for y in g:")
        self.p("                out('y', y)")
        self.p("        except StopIteration as e:")
        self.p("            out('stop')")
        self.p("        out(sys.exc_info()[0])")
        self.p("        for y in g:")
        self.p("            out('never')")
        self.p("    except (Exception%s) as e:" % (", GeneratorExit" if self.ver >= (2, 5) else ""))
        self.p("        out('caught', e)")
        for i in range(self.r.randint(1, 3)):
            self.p("drive(%s())" % self.r.choice(names))
        # two interleaved
        self.p("g1 = %s()" % self.r.choice(names))
        self.p("g2 = %s()" % self.r.choice(names))
        self.p("try:")
        for i in range(self.r.randint(1, 5)):
            g = self.r.choice(["g1", "g2"])
            if self.ver >= (2, 5) and self.r.random() < 0.25:
                self.p("    out(%s.%s)" % (g, self.throwing()))
            else:
                self.p("    out(next(%s))" % g)
        self.p("except (Exception%s) as e:" % (", GeneratorExit" if self.ver >= (2, 5) else ""))
        self.p("    out('caught', e)")
        self.p("out([y for y in h0()][:3])" if self.r.random() < 0.5 else "out('end')")
        return self.source()
