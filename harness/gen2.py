"""Random programs about operators, containers, calls, names and classes."""


class Src:
    def __init__(self, rng, ver):
        self.r = rng
        self.ver = ver
        self.py2 = ver < (3, 0)
        self.lines = []
        self.ind = 0
        self.n = 0

    def p(self, s):
        for line in s.splitlines():
            self.lines.append("    " * self.ind + line)

    def source(self):
        return "\n".join(self.lines) + "\n"

    def fresh(self):
        self.n += 1
        return self.n

    def pick(self, *xs):
        return self.r.choice(xs)

    def chance(self, x):
        return self.r.random() < x

    def guarded(self, line, exc="Exception"):
        self.p("try:")
        self.ind += 1
        self.p(line)
        self.ind -= 1
        self.p("except %s as e:" % exc)
        self.p("    out('caught', e)")


# ------------------------------------------------------------------ operators

class Ops(Src):
    """Operations on integers, probes and objects with operator methods."""

    BIN = ["+", "-", "*", "//", "%", "&", "|", "^"]

    def prelude(self):
        dund = [("add", "+"), ("sub", "-"), ("mul", "*"), ("floordiv", "//"), ("mod", "%"), ("and", "&"),
                ("or", "|"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>"), ("pow", "**"),
                ("div" if self.py2 else "truediv", "/")]
        if self.ver >= (3, 5):
            dund.append(("matmul", "@"))
        self.p("class V(object):")
        self.ind += 1
        self.p("def __init__(self, n):\n    self.n = n")
        for d, s in dund:
            if self.chance(0.5):
                body = self.pick("return ('%s', self.n, %%s)" % d, "return V(%d)" % self.r.randint(1, 9),
                                 "return NotImplemented", "raise ValueError(self.n)",
                                 "return ('%s', self.n, %%s)" % d)
                self.p("def __%s__(self, o):\n    out('%s', self.n, o)\n    %s" % (d, d, body.replace("%s", "o")))
            if self.chance(0.4):
                self.p("def __r%s__(self, o):\n    out('r%s', self.n, o)\n    return ('r%s', self.n)" % (d, d, d))
            if self.chance(0.3):
                self.p("def __i%s__(self, o):\n    out('i%s', self.n, o)\n    self.n = self.n + 1\n    return %s"
                       % (d, d, self.pick("self", "self", "NotImplemented", "('%s', self.n)" % d)))
        for d in ("neg", "pos", "invert"):
            if self.chance(0.6):
                self.p("def __%s__(self):\n    return ('%s', self.n)" % (d, d))
        for d in ("lt", "le", "gt", "ge", "eq", "ne"):
            if self.chance(0.5):
                self.p("def __%s__(self, o):\n    out('%s')\n    return %s" % (
                    d, d, self.pick("True", "False", "('%s', self.n)" % d, "self.n")))
        if self.chance(0.5):
            self.p("def __bool__(self):\n    out('bool', self.n)\n    return self.n %s 1" % self.pick("==", "!="))
            if self.py2:
                self.p("__nonzero__ = __bool__")
        if self.chance(0.5):
            self.p("def __contains__(self, o):\n    out('in', o)\n    return %s" % self.pick("True", "0", "o"))
        if self.chance(0.6):
            self.p("def __getitem__(self, i):\n    out('get', i)\n    if i == 3:\n        raise IndexError(i)"
                   "\n    return ('item', i)")
            self.p("def __setitem__(self, i, v):\n    out('set', i, v)")
            self.p("def __delitem__(self, i):\n    out('del', i)")
        self.ind -= 1
        self.p("class W(V):\n    kind = 'W'")
        for d, s in dund:
            for pre in "", "r", "i":
                if self.chance(0.12):
                    self.p("    def __%s%s__(self, o):\n        out('W', '%s%s', o)\n        return %s" % (
                        pre, d, pre, d, self.pick("NotImplemented", "('W%s%s', self.n)" % (pre, d), "self")))
        for d in ("lt", "le", "gt", "ge", "eq", "ne"):
            if self.chance(0.15):
                self.p("    def __%s__(self, o):\n        out('W', '%s')\n        return %s" % (
                    d, d, self.pick("True", "NotImplemented", "('W%s', self.n)" % d)))

    def iexpr(self, d):
        r = self.r.random()
        if d == 0 or r < 0.3:
            return self.pick("i", "j", "k", str(self.r.randint(0, 9)), str(self.r.randint(1, 9)))
        if r < 0.7:
            return "(%s %s %s)" % (self.iexpr(d - 1), self.pick(*self.BIN), self.iexpr(d - 1))
        if r < 0.76:
            return "(%s ** %d)" % (self.pick("2", "3", "i"), self.r.randint(0, 3))
        if r < 0.84:
            return "(%s %s %d)" % (self.iexpr(0), self.pick("<<", ">>"), self.r.randint(0, 4))
        if r < 0.9:
            return "(%s%s)" % (self.pick("-", "+", "~"), self.iexpr(d - 1))
        return "(%s)" % self.cond(d - 1) if self.chance(0.5) else \
            "(%s %s %s)" % (self.iexpr(d - 1), self.pick("and", "or"), self.iexpr(d - 1))

    def obj(self, d):
        r = self.r.random()
        if d == 0 or r < 0.3:
            return self.pick("p", "q", "v", "w", "P('t')", "V(3)", "p", "q")
        if r < 0.6:
            ops = self.BIN + ["<<", ">>", "**", "/"] + ([] if self.ver < (3, 5) else ["@"])
            a, b = self.obj(d - 1), self.any(d - 1)
            if self.chance(0.3):
                a, b = b, a
            return "(%s %s %s)" % (a, self.pick(*ops), b)
        if r < 0.7:
            return "(%s%s)" % (self.pick("-", "+", "~"), self.obj(d - 1))
        if r < 0.78:
            return "%s[%s]" % (self.pick("p", "q", "v"), self.any(d - 1))
        if r < 0.84:
            return "%s.%s" % (self.pick("p", "q"), self.pick("x", "y"))
        if r < 0.9:
            return "%s(%s)" % (self.pick("p", "q", "p.m"), self.any(d - 1))
        if self.ver >= (2, 5):
            return "(%s if %s else %s)" % (self.obj(d - 1), self.cond(d - 1), self.obj(d - 1))
        return "(%s %s %s)" % (self.obj(d - 1), self.pick("and", "or"), self.obj(d - 1))

    def any(self, d):
        return self.pick(self.iexpr, self.obj, self.obj, self.cond)(d) if d else \
            self.pick(self.iexpr, self.obj, self.misc)(d)

    def misc(self, d):
        return self.pick("'s'", "None", "(1, 2)", "[3]", "''", "()")

    def cond(self, d):
        r = self.r.random()
        if d == 0 or r < 0.35:
            return "(%s %s %s)" % (self.iexpr(0), self.pick("<", "<=", "==", "!=", ">", ">="), self.iexpr(0))
        if r < 0.55:
            return "(%s %s %s)" % (self.obj(d - 1), self.pick("<", "<=", "==", "!=", ">", ">="), self.pick("p", "q", "v", "w", "j"))
        if r < 0.65:
            return "(%s %s %s %s %s)" % (self.iexpr(d - 1), self.pick("<", "<=", "=="), self.iexpr(0),
                                         self.pick("<", ">=", "!="), self.iexpr(d - 1))
        if r < 0.75:
            return "(not %s)" % self.any(d - 1)
        if r < 0.85:
            return "(%s %s %s)" % (self.any(d - 1), self.pick("is", "is not"), self.pick("None", "p", "v", "[3]", "w"))
        return "(%s %s %s)" % (self.iexpr(d - 1), self.pick("in", "not in"),
                               self.pick("(1, 2, 3)", "[4, 5]", "p", "v"))

    def program(self):
        self.prelude()
        self.p("def t(i, j, k, p, q, v, w):")
        self.ind += 1
        n = self.r.randint(4, 8)
        for _ in range(n):
            self.statement()
        self.ind -= 1
        self.p("t(%d, %d, %d, P('p'), P('q', %d), V(1), W(2))" % (
            self.r.randint(0, 9), self.r.randint(1, 9), self.r.randint(0, 3), self.pick(0, 1, 2)))
        self.p("i = 3\nj = 4\nk = 5\np = P('g')\nq = P('h', 1)\nv = V(4)\nw = W(5)")
        for _ in range(2):
            self.statement()
        return self.source()

    def statement(self):
        r = self.r.random()
        if r < 0.6:
            self.guarded("out(%d, %s)" % (self.fresh(), self.any(3)))
        elif r < 0.9:
            op = self.pick("+", "-", "*", "//", "%", "&", "|", "^", "<<", ">>", "**", "/",
                           *(["@"] if self.ver >= (3, 5) else []))
            t = self.pick("i", "p", "v", "w", "p.x", "p[%s]" % self.any(1), "v[2]", "v", "w")
            if t == "i":
                op = self.pick("+", "-", "|", "&", "^", "%", "//")
                self.guarded("i %s= %s\nout(%d, i)" % (op, self.iexpr(1), self.fresh()))
            else:
                self.guarded("%s %s= %s\nout(%d, p, v, w)" % (t, op, self.pick(self.obj(1), "j"), self.fresh()))
        else:
            self.guarded(self.pick("del p[%s]" % self.any(1), "del p.x", "p.y = %s" % self.any(1),
                                   "p[%s] = %s" % (self.any(1), self.any(1)), "del v[1]", "v[1] = j"))


# ----------------------------------------------------------------- containers

class Containers(Src):
    def program(self):
        r = self.r
        self.p("def gen(n):\n    i = 0\n    while i < n:\n        out('gen', i)\n        yield i\n        i = i + 1")
        infn = self.chance(0.6)
        if infn:
            self.p("def t():")
            self.ind += 1
        self.p("a = [1, 2, 3, 4, 5]\nb = (6, 7, 8)\nd = {'x': 1, 'y': 2}\ns = 'hello'\nc = [0, [1, 2], (3, 4)]")
        self.p("p = P('p')")
        for _ in range(r.randint(5, 9)):
            self.statement()
        if infn:
            self.p("return a")
            self.ind -= 1
            self.guarded("out(t())")
        return self.source()

    def idx(self):
        return self.pick("0", "1", "-1", "2", "-2", "9", "len(b)", "3")

    def slc(self):
        f = self.pick("%s:%s", ":%s", "%s:", ":", "%s:%s", "%s:%s:2", "::-1", "::2", "%s:%s:-1")
        return f % tuple(self.pick("0", "1", "-1", "2", "4", "9", "-3") for _ in range(f.count("%s")))

    def small(self, d=1):
        k = self.r.random()
        if d == 0 or k < 0.4:
            return self.pick("1", "2", "'z'", "None", "a[0]", "b[1]", "p", "d['x']")
        if k < 0.6:
            return "[%s]" % ", ".join(self.small(d - 1) for _ in range(self.r.randint(0, 3)))
        if k < 0.8:
            return "(%s,)" % ", ".join(self.small(d - 1) for _ in range(self.r.randint(1, 3)))
        return "{%s}" % ", ".join("'%s': %s" % (c, self.small(d - 1))
                                  for c in "kmn"[:self.r.randint(0, 1 if self.ver < (3, 6) else 3)])

    def seq(self):
        opts = ["a", "b", "s", "[7, 8, 9]", "(1,)", "gen(3)", "gen(2)", "c", "()", "range(3)", "iter(b)", "d", "p"]
        return self.pick(*opts)

    def pattern(self, d=1, star=True):
        n = self.r.randint(1, 3)
        parts = []
        for i in range(n):
            if d and self.chance(0.2):
                parts.append("(%s)" % self.pattern(d - 1, star))
            else:
                parts.append(self.pick("u", "v", "w", "a[0]", "p.x", "p[1]", "x"))
        if star and self.ver >= (3, 0) and self.chance(0.35):
            k = self.r.randrange(n)
            parts[k] = "*" + self.pick("u", "v", "rest")
        return ", ".join(parts) + ("," if n == 1 else "")

    def comp(self):
        it = self.pick("a", "b", "gen(3)", "(1, 2)", "s", "p")
        e = self.pick("x", "(x, 1)", "[x]", "x", "(x, len(b))")
        tail = " for x in %s" % it
        if self.chance(0.4):
            tail += " if x %s" % self.pick("!= 2", "", "is not None", "in a")
        if self.chance(0.3):
            tail += " for y in %s" % self.pick("b[:2]", "(5, 6)", "[x]")
            e = "(x, y)"
            if self.chance(0.3):
                tail += " if y %s 6" % self.pick("!=", "==")
        kind = self.pick("list", "list", "gen", "set", "dict", "sum")
        if kind == "set" and self.ver >= (2, 7):
            return "{%s%s}" % (self.pick("1", "2", "3"), tail) if "p" == it else "{len([x])%s}" % tail
        if kind == "dict" and self.ver >= (2, 7):
            key = self.pick("1", "len([x])", "x in (1, 2)", "'k'")
            if self.chance(0.5):
                e = self.pick("x", "[]", "None", "0", "x == 1 and x", "x in (1, 's') or 0", "len([x]) - 1")
            return "{%s: %s%s}" % (key, e, tail)
        if kind == "gen":
            return "%s(%s%s)" % (self.pick("list", "tuple"), e, tail)
        if kind == "sum":
            return "sum(1%s)" % tail
        return "[%s%s]" % (e, tail)

    def display(self):
        items = []
        for _ in range(self.r.randint(1, 4)):
            items.append("*" + self.pick("a", "b", "gen(2)", "(1, 2)", "[]") if self.chance(0.4) else self.small(0))
        k = self.pick("[%s]", "(%s,)", "len({%s})")
        if k[0] == "l":
            items = [i for i in items if "p" not in i and "a[0]" not in i and "d[" not in i] or ["1"]
        return k % ", ".join(items)

    def statement(self):
        r = self.r.random()
        n = self.fresh()
        if r < 0.1:
            self.guarded("out(%d, %s[%s])" % (n, self.pick("a", "b", "s", "c", "c[1]"), self.idx()))
        elif r < 0.22:
            self.guarded("out(%d, %s[%s])" % (n, self.pick("a", "b", "s", "c", "p"), self.slc()))
        elif r < 0.3:
            self.guarded("a[%s] = %s\nout(%d, a)" % (self.pick(self.idx(), self.slc()), self.pick("b", "[7]", "gen(2)", "p", "c[1]"), n))
        elif r < 0.36:
            self.guarded("del %s\nout(%d, a, c)" % (self.pick("a[%s]" % self.idx(), "a[%s]" % self.slc(), "c[1][0]", "d['x']", "d['q']"), n))
        elif r < 0.42:
            self.guarded("%s += %s\nout(%d, a, c)" % (self.pick("a", "a[0]", "c[1]", "b", "a[1:2]", "d['x']"), self.pick("[3]", "4", "b"), n))
        elif r < 0.62:
            pat = self.pattern()
            self.guarded("u = v = w = x = rest = None\n%s = %s\nout(%d, u, v, w, x, rest, a)" % (pat, self.seq(), n))
        elif r < 0.68:
            pat = self.pattern(0, False)
            self.guarded("u = v = w = x = None\nfor %s in [(1, 2), [3, 4]]:\n    out(%d, u, v, w, x)" % (pat, n))
        elif r < 0.84:
            self.guarded("out(%d, %s)" % (n, self.comp()))
        elif r < 0.9:
            if self.ver >= (3, 5):
                self.guarded("out(%d, %s)" % (n, self.display()))
            else:
                self.guarded("out(%d, %s)" % (n, self.small(2)))
        elif r < 0.94:
            if self.ver >= (3, 5):
                self.guarded("m = {'k': 1, **{'x': %s}, 'z': 3, **{'x': 5}}\nout(%d, sorted(m.items()) if %s else len(m))" % (
                    self.pick("7", "8"), n, self.pick("m", "d")))
            else:
                self.guarded("d['k'] = %s\nout(%d, d['k'], len(d))" % (self.small(1), n))
        elif r < 0.97:
            self.guarded("out(%d, %s in %s, %s not in %s)" % (n, self.pick("1", "'x'", "'h'"), self.pick("a", "b", "d"),
                                                             self.pick("1", "6", "'y'"), self.pick("a", "b", "d")))
        else:
            self.guarded("u, v = 1, 2\nu, v = v, u\nout(%d, u, v)\nu, v, w = 1, 2, 3\nu, v, w = w, u, v\nout(u, v, w)" % n)


# ---------------------------------------------------------------------- calls

class Calls(Src):
    def sig(self, names, method=False):
        """a random parameter list and the names to output"""
        v = self.ver
        pos = names[:self.r.randint(0, 3)]
        parts = []
        dflt = False
        slash = self.r.randint(1, len(pos)) if v >= (3, 8) and pos and self.chance(0.3) else 0
        for i, n in enumerate(pos):
            if dflt or self.chance(0.35):
                dflt = True
                parts.append("%s=%s" % (n, self.pick("10", "'d'", "K", "None")))
            else:
                parts.append(n)
            if slash == i + 1:
                parts.append("/")
        use = list(pos)
        star = self.chance(0.4)
        kwo = []
        if v >= (3, 0) and self.chance(0.4):
            kwo = ["m", "n"][:self.r.randint(1, 2)]
        if star:
            parts.append("*rest")
            use.append("rest")
        elif kwo:
            parts.append("*")
        for n in kwo:
            parts.append(n + ("=%s" % self.pick("30", "K") if self.chance(0.5) else ""))
            use.append(n)
        if self.chance(0.4):
            parts.append("**kw")
            use.append("sorted(kw.items())" if v < (3, 6) else "kw")
        return ", ".join(parts), use

    def args(self):
        v = self.ver
        parts = [self.pick("1", "2", "P('t')", "side(3)", "side(4)") for _ in range(self.r.randint(0, 3))]
        names = self.r.sample(["a", "b", "c", "m", "n", "z", "self", "func", "_u", "__d__", "args", "kwargs"], self.r.randint(0, 3) if self.chance(0.6) else 0)
        kws = ["%s=%s" % (n, self.pick("5", "side(6)", "'k'")) for n in names]
        star = self.chance(0.3)
        dstar = self.chance(0.3)
        stars = ["*" + self.pick("(8, 9)", "[7]", "()", "gen(2)", "side([1, 2])")] if star else []
        dn = self.r.sample(["a", "b", "c", "y", "n"], self.r.randint(0, 1 if v < (3, 6) else 2))
        dstars = ["**{%s}" % ", ".join("'%s': %d" % (n, i) for i, n in enumerate(dn))] if dstar else []
        if v >= (3, 5) and self.chance(0.2):
            stars.append("*" + self.pick("(3,)", "[]"))
            dstars.append("**{'q': 1}")
            parts2 = parts + stars
            self.r.shuffle(parts2)
            return ", ".join(parts2 + kws + dstars)
        if v < (2, 6):
            return ", ".join(parts + kws + stars + dstars)
        return ", ".join(parts + stars + kws + dstars) if v >= (3, 5) else ", ".join(parts + kws + stars + dstars)

    def program(self):
        self.p("K = 77\ndef side(x):\n    out('side', x)\n    return x\ndef gen(n):\n    for i in range(n):\n        out('gen', i)\n        yield i")
        fns = []
        for i in range(self.r.randint(2, 3)):
            f = "f%d" % i
            s, use = self.sig(["a", "b", "c"])
            kind = self.r.random()
            if kind < 0.5:
                self.p("def %s(%s):\n    out('%s'%s)\n    return %s" % (f, s, f, "".join(", " + u for u in use), use[0] if use and use[0] != "kw" else "5"))
            elif kind < 0.62:
                self.p("%s = lambda %s: (%s)" % (f, s, "".join(u + ", " for u in use)))
            elif kind < 0.74:
                self.p("def mk%d(z):\n    def %s(%s):\n        return (z, %s)\n    return %s\n%s = mk%d(side(%d))" % (
                    i, f, s, "".join(u + ", " for u in use), f, f, i, i))
            elif kind < 0.88:
                k = self.pick("", "@staticmethod", "@classmethod") if self.ver >= (2, 4) else ""
                first = "" if "static" in k else "me" + (", " if s else "")
                if k:
                    self.p("class C%d(object):\n    %s\n    def f(%s%s):\n        return (%s)\n%s = C%d%s.f" % (
                        i, k, first, s, "".join(u + ", " for u in use), f, i, self.pick("", "()")))
                else:
                    self.p("class C%d(object):\n    def f(%s%s):\n        return (%s)\n%s = C%d().f" % (
                        i, first, s, "".join(u + ", " for u in use), f, i))
            elif kind < 0.94:
                self.p("class C%d(object):\n    def __init__(self%s):\n        self.v = (%s)\ndef %s(*aa, **kk):\n    return C%d(*aa, **kk).v" % (
                    i, ", " + s if s else "", "".join(u + ", " for u in use), f, i))
            else:
                self.p("class C%d(object):\n    def __call__(self%s):\n        return (%s)\n%s = C%d()" % (
                    i, ", " + s if s else "", "".join(u + ", " for u in use), f, i))
            fns.append(f)
        if self.chance(0.5):
            self.p("K = 78")
        fns.append("P('h')")
        for _ in range(self.r.randint(5, 9)):
            a = self.args()
            f = self.r.choice(fns)
            if self.chance(0.15) and self.ver >= (2, 4):
                n = self.fresh()
                self.p("def deco%d(%s):\n    return lambda g: (g, %d)" % (n, "*aa, **kk", n))
                self.guarded("@deco%d(%s)\ndef h(x=1):\n    return x\nout(h)" % (n, a))
            else:
                self.guarded("out('=', %s(%s))" % (f, a))
        return self.source()


# --------------------------------------------------------------------- scopes

class Scopes(Src):
    """Nested scopes that bind, use and delete the same few names."""

    NAMES = ["x", "y", "z"]

    def use(self, n):
        self.p("try:\n    out('%s', %s)\nexcept NameError as e%d:\n    out('no %s')" % (n, n, self.fresh(), n))

    def body(self, kind, visible, depth, params=()):
        """one scope; visible: names bound in enclosing functions"""
        r = self.r
        decl = set()
        bound = set(params)
        if kind == "function" or kind == "class":
            for n in self.NAMES:
                if n in params:
                    continue
                k = r.random()
                if k < 0.15:
                    self.p("global " + n)
                    decl.add(n)
                elif k < 0.35 and n in visible and self.ver >= (3, 0):
                    self.p("nonlocal " + n)
                    decl.add(n)
        will = [n for n in self.NAMES if n not in decl and n not in params and r.random() < 0.4]
        deletes = self.ver >= (3, 2)
        later = list(will)
        inner = set(visible)
        if kind == "function":
            inner |= set(will) | set(params)
            inner -= {n for n in decl}
            inner |= {n for n in decl if n in visible}
        funcs = []
        for _ in range(r.randint(2, 5)):
            k = r.random()
            n = r.choice(self.NAMES)
            if k < 0.3:
                self.use(n)
            elif k < 0.45 and later:
                m = later.pop()
                self.assign(m)
            elif k < 0.55 and (n in decl or n in params or n in will):
                if n in later:
                    later.remove(n)
                self.assign(n)
            elif k < 0.62 and deletes and (n in decl or n in will or n in params):
                self.p("try:\n    del %s\nexcept NameError as e%d:\n    out('no del %s')" % (n, self.fresh(), n))
                if n in later:
                    later.remove(n)
            elif k < 0.85 and depth > 0:
                funcs.append(self.nested(kind, inner, depth))
            elif k < 0.93:
                v = r.choice(self.NAMES)
                self.p("try:\n    out([%s for %s in (%d, %d)], (lambda %s=5: %s)())\nexcept NameError as e%d:\n    out('ne')" % (
                    r.choice(self.NAMES), "q%d" % self.fresh(), self.fresh(), self.n + 1, "w", v, self.fresh()))
            else:
                if self.ver >= (3, 0) or kind != "class":
                    self.p("try:\n    out(list((%s, i) for i in (1, 2)))\nexcept NameError as e%d:\n    out('ne')" % (r.choice(self.NAMES), self.fresh()))
        for m in later:
            self.assign(m)
        for f in funcs:
            if f and r.random() < 0.8:
                self.p(f)
        if kind == "function":
            self.p("return %s" % self.pick("5", "lambda: out('lam')"))
        return funcs

    def assign(self, n):
        k = self.r.random()
        if k < 0.6:
            self.p("%s = %d" % (n, self.fresh()))
        elif k < 0.75:
            self.p("for %s in (%d, %d):\n    pass" % (n, self.fresh(), self.n + 1))
        elif k < 0.85:
            self.p("try:\n    %s += 1\nexcept NameError as e%d:\n    %s = %d" % (n, self.fresh(), n, self.n))
        elif self.ver >= (2, 5):
            self.p("try:\n    raise ValueError(1)\nexcept ValueError as %s:\n    pass" % n)
        else:
            self.p("%s = %d" % (n, self.fresh()))

    def nested(self, kind, inner, depth):
        i = self.fresh()
        if self.r.random() < 0.7:
            ps = [n for n in self.NAMES if self.r.random() < 0.2]
            self.p("def f%d(%s):" % (i, ", ".join(ps)))
            self.ind += 1
            self.body("function", inner, depth - 1, ps)
            self.ind -= 1
            if kind == "class":
                return None
            return "f%d(%s)" % (i, ", ".join("%d" % (100 + k) for k in range(len(ps))))
        self.p("class C%d(object):" % i)
        self.ind += 1
        self.body("class", inner, depth - 1)
        self.p("pass")
        self.ind -= 1
        return None

    def program(self):
        for n in self.NAMES:
            if self.chance(0.6):
                self.p("%s = 'g%s'" % (n, n))
        d = self.r.randint(2, 3)
        for k in range(2):
            call = self.nested("module", set(), d)
            if call:
                self.guarded("r = %s\nif r != 5:\n    r()" % call)
        for n in self.NAMES:
            self.use(n)
        self.p(COUNTER)
        return self.source()


COUNTER = """def mk(n):
    def add(k):
        return n + k
    return add
out([g(10) for g in [mk(1), mk(2)]])
"""


# -------------------------------------------------------------------- classes

class Classes(Src):
    def program(self):
        n = self.r.randint(2, 5)
        names = []
        attrs = ["p", "q", "r"]
        metas = []
        if self.chance(0.5):
            self.p("class Desc(object):\n    def __init__(self, n):\n        self.n = n")
            self.p("    def __get__(self, o, c):\n        out('get', self.n, o is None)\n        return ('desc', self.n)")
            self.desc = ["Desc(%d)" % self.fresh()]
            if self.chance(0.6):
                self.p("class Data(Desc):\n    def __set__(self, o, v):\n        out('set', self.n, v)")
                if self.chance(0.6):
                    self.p("    def __delete__(self, o):\n        out('delete', self.n)")
                self.desc.append("Data(%d)" % self.fresh())
                if self.ver >= (3, 6) and self.chance(0.6):
                    self.p("    def __set_name__(self, c, n):\n        out('name', c.__name__, n)")
        else:
            self.desc = []
        if self.chance(0.35):
            metas.append("M")
            self.p("class M(type):\n    mtag = 'M'\n    tag = 'Mtag'")
            kw = ", **kw" if not self.py2 else ""
            if self.chance(0.5):
                self.p("    def __new__(m, name, bases, ns%s):\n        out('new', name, len(bases))\n        return %s" % (
                    kw, self.pick("type.__new__(m, name, bases, ns)", "super(M, m).__new__(m, name, bases, ns)")))
                if kw:
                    self.p("    def __init__(c, name, bases, ns, **kw):\n        out('meta init', name, len(kw))")
            elif self.chance(0.5):
                self.p("    def __init__(c, name, bases, ns):\n        out('meta init', name)\n        c.made = name")
            if self.chance(0.5):
                self.p("    def __call__(c, *a):\n        out('meta call', c.__name__, a)\n        return %s" % self.pick(
                    "type.__call__(c, *a)", "super(M, c).__call__(*a)", "('made', c.__name__)"))
            if self.chance(0.5):
                self.p("    def q(c, *a):\n        return ('meta q', c.__name__, a)")
            if self.chance(0.4):
                self.p("    def __getattr__(c, name):\n        out('meta getattr', name)\n        if name == 'zz':\n            return 27\n        raise AttributeError(name)")
            if self.chance(0.4):
                self.p("    @property\n    def r(c):\n        return ('meta r', c.__name__)")
        if metas and self.chance(0.6):
            metas.append("M2")
            self.p("class M2(%s):\n    tag = 'M2tag'" % self.pick("M", "M", "type"))
            if not self.py2 and self.chance(0.7):
                self.p("    @classmethod\n    def __prepare__(m, name, bases, **kw):\n        out('prepare', name, len(bases), len(kw))\n        return {'prepared': name}")
            if self.py2 and self.chance(0.5):
                self.p("    def __new__(m, name, bases, ns):\n        out('new 2', name, len(bases))\n        return type.__new__(m, name, bases, ns)")
            if self.chance(0.4):
                self.p("    def q(c, *a):\n        return ('M2 q', c.__name__, a)")
        for i in range(n):
            c = "C%d" % i
            # bases in an order that can be linearized: newest first
            bases = sorted(self.r.sample(range(i), min(i, self.r.randint(0, 2))), reverse=True)
            if self.chance(0.1) and len(bases) == 2:
                bases.reverse()
            bs = ["C%d" % b for b in bases] or ["object"]
            body_start = len(self.lines)
            self.p("try:")
            self.ind += 1
            meta = bool(metas) and self.chance(0.5)
            extra = []
            if meta and not self.py2:
                extra.append("metaclass=" + self.r.choice(metas))
            if self.ver >= (3, 0) and self.chance(0.06):
                extra.append("k=%d" % self.fresh())
            self.p("class %s(%s):" % (c, ", ".join(bs + extra)))
            self.ind += 1
            if self.chance(0.3):
                self.p("'doc of %s'" % c)
            if meta and self.py2:
                self.p("__metaclass__ = " + self.r.choice(metas))
            if self.ver >= (3, 6) and self.chance(0.15):
                self.p("def __init_subclass__(cls, **kw):\n    out('subclass', '%s', cls.__name__, len(kw))" % c)
                if bases and self.chance(0.7):
                    self.p("    super().__init_subclass__(**kw)")
            self.p("tag = '%s'" % c)
            for a in attrs:
                if self.chance(0.4):
                    k = self.r.random()
                    if self.desc and self.chance(0.25):
                        self.p("%s = %s" % (a, self.r.choice(self.desc)))
                    elif k < 0.2:
                        self.p("%s = %d" % (a, self.fresh()))
                    elif k < 0.55:
                        self.p("def %s(self, *a):" % a)
                        self.method(c, a, bases)
                    elif k < 0.65:
                        self.p("@classmethod\ndef %s(cls, *a):" % a)
                        self.method(c, a, bases, "cls")
                    elif k < 0.75:
                        self.p("@staticmethod\ndef %s(*a):\n    return ('static', '%s', a)" % (a, c))
                    elif k < 0.9:
                        self.p("@property\ndef %s(self):\n    out('prop', '%s')\n    return self.tag" % (a, c))
                        if self.chance(0.5) and self.ver >= (2, 6):
                            self.p("@%s.setter\ndef %s(self, v):\n    out('set', v)" % (a, a))
                    else:
                        self.p("%s = [tag, %d]" % (a, self.fresh()))
            if self.chance(0.4):
                self.p("def __init__(self, *a):")
                self.p("    out('init', '%s', a)" % c)
                if bases and self.chance(0.6):
                    self.p("    " + self.sup(c, "__init__(*a)"))
                if self.chance(0.5):
                    self.p("    self.%s = ('inst', '%s')" % (self.r.choice(attrs), c))
            if self.chance(0.2):
                self.p("def __getattr__(self, name):\n    out('getattr', name)\n    if name == 'zz':\n        return 26\n    raise AttributeError(name)")
            if self.chance(0.12):
                self.p("def __new__(cls, *a):\n    out('new', '%s', a)\n    return %s" % (c, self.pick(
                    "object.__new__(cls)", "object.__new__(cls)", "super(%s, cls).__new__(cls)" % c, "7",
                    "object.__new__(%s)" % c)))
            if self.chance(0.12):
                self.p("def __setattr__(self, name, v):\n    out('setattr', name, v)")
                self.p("    " + self.pick("object.__setattr__(self, name, v)", self.sup(c, "__setattr__(name, (v, 1))"), "pass"))
            if self.chance(0.08):
                self.p("def __delattr__(self, name):\n    out('delattr', name)")
                self.p("    " + self.pick("object.__delattr__(self, name)", "pass"))
            if self.chance(0.1):
                self.p("def __getattribute__(self, name):\n    out('getattribute', name)\n    return %s" % self.pick(
                    "object.__getattribute__(self, name)", self.sup(c, "__getattribute__(name)")))
            if self.chance(0.15):
                b = "__nonzero__" if self.py2 else "__bool__"
                self.p("def %s(self):\n    out('bool')\n    return %s" % (b, self.pick("False", "True", "self.tag == 'C0'")))
            if self.chance(0.15):
                self.p("def __getitem__(self, i):\n    if i == 2:\n        raise IndexError(i)\n    return (self.tag, i)")
            if self.chance(0.15):
                self.p("def __contains__(self, x):\n    return %s" % self.pick("x", "self.tag", "0"))
            if self.chance(0.12):
                self.p("def __eq__(self, o):\n    out('eq', o)\n    return %s" % self.pick("True", "'x'", "NotImplemented"))
            if self.chance(0.15):
                self.p("def __call__(self, *a):\n    return ('call', '%s', a)" % c)
            if self.chance(0.15):
                self.p("def __len__(self):\n    return 3")
            if self.chance(0.15):
                self.p("def __iter__(self):\n    return iter([self.tag, 2])")
            self.ind -= 2
            self.p("except TypeError as e:\n    out('no %s')\n    class %s(%s):\n        pass" % (
                c, c, names[-1] if names else "object"))
            names.append(c)
        for c in names:
            self.guarded("o = %s(%s)" % (c, self.pick("", "", "1", "1, 2")))
            for _ in range(self.r.randint(2, 4)):
                a = self.r.choice(attrs)
                self.guarded(self.pick(
                    "out(o.%s)" % a, "out(o.%s())" % a, "out(o.%s(7))" % a, "out(%s.%s)" % (c, a),
                    "out(%s.%s(o))" % (c, a), "o.%s = 5\nout(o.%s)" % (a, a), "del o.%s\nout(o.%s)" % (a, a),
                    "out(o.zz)", "out(o(1))", "out(o.tag, %s.tag)" % c, "out(getattr(o, '%s', 'none'))" % a,
                    "out(hasattr(o, '%s'), hasattr(%s, 'zz'))" % (a, c),
                    "out(isinstance(o, %s), isinstance(o, %s))" % (names[0], names[-1]),
                    "%s.%s = 'changed'\nout(o.%s)" % (c, a, a), "out(%s.__name__, o.__class__)" % c,
                    "out(%s.__doc__)" % c, "out(1 in o)", "out(o[1])", "out(o == 1, 1 == o)", "out(type(%s), %s.mtag)" % (c, c),
                    "out(%s.q(1))" % c, "out(%s.zz)" % c, "out(type(o) is %s)" % c, "%s = type('T', (%s,), {'%s': 4})\nout(o2.%s)\no = %s()" % (
                        "o2", c, a, a, "o2"), "out(getattr(%s, '%s', None))" % (c, a), "setattr(o, '%s', 6)\nout(o.%s)" % (a, a),
                    "del %s.%s\nout(o.%s)" % (c, a, a), "o.__class__ = %s\nout(o.tag, o.%s)" % (self.r.choice(names), a), "out(len(o))", "out([v for v in o])", "out(bool(o))", "m = o.%s\nout(m(1))" % a,
                    "out(o.%s == o.%s, o.%s != %s.%s)" % (a, a, a, c, a)))
        return self.source()

    def sup(self, c, call):
        if self.ver >= (3, 0) and self.chance(0.6):
            return "super().%s" % call
        return "super(%s, self).%s" % (c, call)

    def method(self, c, a, bases, first="self"):
        self.p("    out('%s.%s', a)" % (c, a))
        k = self.r.random()
        if bases and k < 0.5:
            if first == "self":
                call = self.sup(c, "%s(*a)" % a)
            else:
                call = "super(%s, cls).%s(*a)" % (c, a) if self.ver < (3, 0) or self.chance(0.4) else "super().%s(*a)" % a
            self.p("    return ('%s', %s)" % (c, call))
        elif k < 0.7:
            self.p("    return %s.tag" % first)
        else:
            self.p("    return ('%s', a)" % c)


# -------------------------------------------------------------------- imports

class Imports(Src):
    """Import statements anywhere, and attributes of modules."""

    MODS = ["xa", "xall", "xbadall", "xnoall", "xfail", "xfail2", "xlate", "xneeds", "xneedsfail", "xcirc", "xcirc2",
            "xdyn", "xp", "xp.a", "xp.b", "xp.bad", "xp.needs", "xp.shadow", "xp.q", "xp.q.r", "xp.q.s", "xf", "xf.a",
            "xs", "xs.one", "xs.two", "xmissing", "xp.no", "xa.sub", "xp.q.no.more"]
    ATTRS = ["x", "y", "a", "b", "p", "q", "r", "s", "v", "w", "z", "n", "t", "shadow", "one", "two", "bad", "here", "no", "_z", "_q", "len"]

    def name(self):
        return self.pick("m", "k", "xa", "xp", "x", "v")

    def imp(self, top):
        r = self.r.random()
        mod = self.pick(*self.MODS)
        if r < 0.25:
            return "import %s" % ", ".join([mod] + [self.pick(*self.MODS[:13]) for _ in range(self.pick(0, 0, 1))]), mod.split(".")[0]
        if r < 0.45:
            n = self.name()
            return "import %s as %s" % (mod, n), n
        if r < 0.85 or not top:
            if self.chance(0.6):
                mod, a = self.pick(("xa", "x"), ("xa", "y"), ("xall", "r"), ("xp", "a"), ("xp", "b"), ("xp", "shadow"), ("xp", "q"),
                                   ("xp.q", "w"), ("xp.q", "r"), ("xp.q", "s"), ("xp.a", "a"), ("xs", "one"), ("xdyn", "there"), ("xp", "bad"),
                                   ("xcirc", "x"), ("xlate", "z"), ("xp.b", "x"), ("xp.q.s", "x"))
            else:
                a = self.pick(*self.ATTRS)
            if self.ver >= (2, 5) and self.chance(0.15):
                mod = self.pick(".", ".", "..", ".q", ".a", "..a", ".q.r", "...")
            parts = []
            n = a
            for x in [a] + [self.pick(*self.ATTRS) for _ in range(self.pick(0, 0, 0, 1, 2))]:
                if self.chance(0.3):
                    n = self.name()
                    parts.append("%s as %s" % (x, n))
                else:
                    parts.append(x)
                    n = x
            return "from %s import %s" % (mod, ", ".join(parts)), n
        n = self.pick("x", "p", "v", "r", "one", "a", "b")
        return "from %s import *" % self.pick("xa", "xall", "xbadall", "xnoall", "xp", "xp.q", "xs", "xp.a", "xcirc"), n

    def use(self, n):
        return "out(%d, %s)" % (self.fresh(), self.pick(n, n, n + ".x", n + ".a", n + ".q", n + ".b.x", n + ".v"))

    def tweak(self, n):
        return self.pick("%s.x = %d" % (n, self.r.randint(100, 110)), "del %s.x" % n, "%s.a = 3" % n, "del %s.a" % n, "%s.new = 1" % n,
                         "del %s.q" % n, "%s.x += 1" % n)

    def stmt(self, top, d):
        i, n = self.imp(top)
        r = self.r.random()
        if r < 0.5 or d == 0:
            body = i
            for _ in range(self.pick(0, 1, 1, 2)):
                body += "\n" + (self.tweak(n) if self.chance(0.25) else self.use(n))
            self.guarded(body)
        elif r < 0.65:
            self.p("for i in %s:" % self.pick("(1, 2)", "[1, 2, 3]", "range(2)"))
            self.ind += 1
            self.guarded("%s\n%s" % (i, self.use(n)))
            if self.chance(0.5):
                self.stmt(top, d - 1)
            if self.chance(0.3):
                self.p("if i == 2:\n    %s" % self.pick("break", "continue"))
            self.ind -= 1
        elif r < 0.8:
            f = "f%d" % self.fresh()
            self.p("def %s(%s):" % (f, self.pick("", "x=1", "xa=0")))
            self.ind += 1
            if self.chance(0.3):
                self.p("global k, m")
            for _ in range(self.r.randint(1, 2)):
                self.stmt(False, d - 1)
            self.p("return %s" % self.pick("1", "x", "k", "m"))
            self.ind -= 1
            self.guarded("out(%s(), %s())" % (f, f))
        elif r < 0.9:
            c = "C%d" % self.fresh()
            self.p("class %s(object):" % c)
            self.ind += 1
            self.guarded(i if "*" not in i else "import xa")
            self.p("g = 1")
            self.ind -= 1
            self.guarded("out(%s.%s, %s.g)" % (c, n, c))
        else:
            self.p("try:")
            self.p("    try:\n        %s\n    finally:\n        out('fin', %d)" % (i, self.fresh()))
            self.ind += 1
            self.stmt(top, d - 1)
            self.ind -= 1
            self.p("except %s:\n    out('handled')" % self.pick("ImportError", "(ValueError, KeyError)", "Exception", "Exception", "Exception"))

    def program(self):
        for _ in range(self.r.randint(5, 9)):
            if self.ver >= (3, 0) and self.chance(0.2):
                self.p("__package__ = %s" % self.pick("'xp'", "'xp'", "'xp.q'", "'xf'", "'xno'", "None"))
            elif self.ver >= (2, 5) and self.chance(0.2):
                self.p("__package__ = 'xp'")
            self.stmt(True, 2)
        self.p("import xp.q.r")
        return self.source()


class Prints(Src):
    """Print statements of Python 2, to sys.stdout and to objects with a method write."""

    def files(self):
        for c in "FG":
            self.p("class %s(object):" % c)
            self.ind += 1
            if self.chance(0.3):
                self.p("softspace = %s" % self.pick("0", "1", "None", "True", "'s'"))
            if self.chance(0.12):
                self.p("softspace = property(lambda self: out('soft') or %s, lambda self, v: out('setsoft', v))"
                       % self.pick("0", "1", "1 // 0"))
            if self.chance(0.15):
                self.p("def __setattr__(self, n, v):")
                self.p("    out('set', n, v)")
                self.p(self.pick("    raise ValueError(n)", "    object.__setattr__(self, n, v)", "    return 1"))
            if self.chance(0.15):
                self.p("def __getattr__(self, n):")
                self.p("    out('get', n)")
                self.p(self.pick("    raise AttributeError(n)", "    raise KeyError(n)", "    return 0", "    return lambda s: out('w', s)"))
            if self.chance(0.2):
                self.p(self.pick("def __nonzero__(self): return False", "def __len__(self): return 0", "def __nonzero__(self): return 1 // 0"))
            if self.chance(0.92):
                self.p("def write(self, s):")
                self.p("    out('%s', s)" % c)
                if self.chance(0.25):
                    self.p("    " + self.pick("if s == ' ': raise KeyError(s)", "print('in write')", "print(1, end='')",
                                              "if s == '\\n': raise ValueError(s)", "return 7", "self.softspace = 1"))
            else:
                self.p("pass")
            self.ind -= 1
        self.p("f, g = F(), G()")

    def texts(self):
        for c in "ST":
            self.p("class %s(object):" % c)
            self.ind += 1
            n = self.pick("__str__", "__str__", "__repr__")
            self.p("def %s(self):" % n)
            if self.chance(0.4):
                self.p("    " + self.pick("print('in str')", "print('in str', end='')", "out('str')", "print(1, file=f)",
                                          "print(1, end='', file=g)"))
            self.p("    " + self.pick("return 'text'", "return 'line\\n'", "return ''", "raise KeyError(1)", "return 5", "return 'tab\\t'"))
            self.ind -= 1
        self.p("s, t = S(), T()")

    def item(self):
        return self.pick("1", "-2", "'a'", "'b c'", "'line\\n'", "'tab\\t'", "'sp '", "''", "' '", "'\\n'", "None", "True", "(1, 'x')", "[1, 'y']",
                         "s", "t", "h(%d)" % self.fresh(), "h('q')", "h('r\\n')", "{1: 2}", "'a' + 'b'", "1 // 0" if self.chance(0.2) else "3",
                         "nothing" if self.chance(0.2) else "4", "str(5)", "out(%d)" % self.fresh(), "x", "[i for i in (1, 2)]")

    def pr(self):
        a = [self.item() for _ in range(self.pick(0, 1, 1, 2, 2, 3, 4))]
        r = self.r.random()
        if r < 0.4:
            a.append("file=%s" % self.pick("f", "f", "g", "g", "j(f)", "None", "5" if self.chance(0.3) else "g", "out" if self.chance(0.2) else "f"))
        if self.chance(0.4) and a and not a[0].startswith("file"):
            a.append("end=''")
        return "print(%s)" % ", ".join(a)

    def stmt(self, d):
        r = self.r.random()
        if r < 0.5 or d == 0:
            self.p(self.pr())
        elif r < 0.6:
            self.p("for x in %s:" % self.pick("(1, 'a')", "['b\\n', 2]", "k()", "range(2)"))
            self.block(d)
        elif r < 0.72:
            self.p("try:")
            self.block(d)
            self.p("except %s:" % self.pick("KeyError", "(ValueError, TypeError)", "Exception", "AttributeError"))
            self.block(0)
        elif r < 0.78:
            self.p("try:")
            self.block(d)
            self.p("finally:")
            self.block(0)
        elif r < 0.86:
            self.p("if %s:" % self.pick("x", "h(0)", "h(1)"))
            self.block(d)
        elif r < 0.93:
            self.p("%s.softspace = %s" % (self.pick("f", "g"), self.pick("0", "1", "'x'", "None", "2")))
        else:
            self.p("out(%d, h(2))" % self.fresh())

    def block(self, d):
        self.ind += 1
        for _ in range(self.pick(1, 1, 2)):
            self.stmt(max(d - 1, 0))
        self.ind -= 1

    def program(self):
        self.p("x = 0")
        self.files()
        self.texts()
        self.p("def h(v):")
        self.p("    " + self.pick("out('h')", "print('in h')", "print('in h', end='')", "print(v, end='', file=f)", "pass"))
        self.p("    return v")
        self.p("def j(v):")
        self.p("    out('j')")
        self.p("    return v")
        self.p("def k():")
        self.p("    " + self.pr())
        self.p("    yield 1")
        self.p("    " + self.pr())
        self.p("    yield 'y\\n'")
        for _ in range(self.r.randint(4, 9)):
            if self.chance(0.8):
                self.p("try:")
                self.block(2)
                self.p("except (KeyError, ValueError, TypeError, AttributeError, NameError, ZeroDivisionError):")
                self.p("    out('caught')")
            else:
                self.stmt(2)
        return self.source()
