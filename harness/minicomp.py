"""A small compiler from a Python-3-syntax subset (host ``ast``) to the bytecode of
the Python versions x-python interprets (2.4 .. 3.10, and the PyPy dialects).

It exists because no older Python is installed here; without it nothing but the
repository's fixed .pyc corpus would reach the byteops of those versions.  The
code shapes follow CPython's own compiler of the version in question.

compile_source(src, filename, ver, pypy=False) -> CodeObj   (tree of CodeObj)
"""
import ast

CO_OPTIMIZED, CO_NEWLOCALS, CO_VARARGS, CO_VARKW = 1, 2, 4, 8
CO_NESTED, CO_GENERATOR, CO_NOFREE = 16, 32, 64


class Unsupported(Exception):
    """The source uses something the target version cannot express."""


class CodeObj:
    """A version-neutral code object, later turned into an xdis code type and JSON."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


# --------------------------------------------------------------------------
# opcode tables come from xdis (third party, not part of the repo under test)
_opc_cache = {}


def opc_for(ver, pypy=False):
    key = (ver, pypy)
    if key not in _opc_cache:
        from xdis.op_imports import get_opcode_module
        from xdis.version_info import PythonImplementation as PI

        _opc_cache[key] = get_opcode_module(ver, PI.PyPy if pypy else PI.CPython)
    return _opc_cache[key]


# --------------------------------------------------------------------------
# scopes

class Scope:
    def __init__(self, kind, node, parent, name):
        self.kind = kind  # module, function, class, lambda, comp
        self.node = node
        self.parent = parent
        self.name = name
        self.bound = []      # in order of first binding
        self.params = []
        self.used = set()
        self.globals = set()
        self.nonlocals = set()
        self.children = []
        self.is_gen = False
        self.cells = set()
        self.free = set()
        self.optimized = kind in ("function", "lambda", "comp")

    def bind(self, n):
        if n not in self.bound:
            self.bound.append(n)


class ScopeBuilder(ast.NodeVisitor):
    def __init__(self, ver):
        self.ver = ver
        self.scopes = {}

    def build(self, tree):
        self.cur = Scope("module", tree, None, "<module>")
        self.scopes[tree] = self.cur
        for s in tree.body if isinstance(tree.body, list) else [tree.body]:
            self.visit(s)
        self.resolve(self.cur)
        return self.scopes

    def push(self, kind, node, name):
        s = Scope(kind, node, self.cur, name)
        self.cur.children.append(s)
        self.scopes[node] = s
        self.cur = s
        return s

    def pop(self):
        self.cur = self.cur.parent

    def mangle(self, n):
        return n

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.cur.used.add(n.id)
            if n.id == "super" and self.cur.kind == "function":
                self.cur.used.add("__class__")
        else:
            self.cur.bind(n.id)
            self.cur.used.add(n.id) if isinstance(n.ctx, ast.Del) else None

    def visit_Global(self, n):
        self.cur.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.cur.nonlocals.update(n.names)

    def visit_Import(self, n):
        for a in n.names:
            self.cur.bind(a.asname or a.name.split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name != "*":
                self.cur.bind(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.type:
            self.visit(n.type)
        if n.name:
            self.cur.bind(n.name)
        for s in n.body:
            self.visit(s)

    def fn_args(self, a):
        for d in a.defaults:
            self.visit(d)
        for d in a.kw_defaults:
            if d is not None:
                self.visit(d)

    def params(self, s, a):
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            s.params.append(x.arg)
            s.bind(x.arg)
        if a.vararg:
            s.params.append(a.vararg.arg)
            s.bind(a.vararg.arg)
        if a.kwarg:
            s.params.append(a.kwarg.arg)
            s.bind(a.kwarg.arg)

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        self.fn_args(n.args)
        for an in self.annots(n):
            self.visit(an[1])
        self.cur.bind(n.name)
        s = self.push("function", n, n.name)
        self.params(s, n.args)
        for st in n.body:
            self.visit(st)
        self.pop()

    def annots(self, n):
        a = n.args
        res = []
        for x in a.posonlyargs + a.args:
            if x.annotation:
                res.append((x.arg, x.annotation))
        if a.vararg and a.vararg.annotation:
            res.append((a.vararg.arg, a.vararg.annotation))
        for x in a.kwonlyargs:
            if x.annotation:
                res.append((x.arg, x.annotation))
        if a.kwarg and a.kwarg.annotation:
            res.append((a.kwarg.arg, a.kwarg.annotation))
        if n.returns:
            res.append(("return", n.returns))
        return res

    def visit_Lambda(self, n):
        self.fn_args(n.args)
        s = self.push("lambda", n, "<lambda>")
        self.params(s, n.args)
        self.visit(n.body)
        self.pop()

    def visit_ClassDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        for b in n.bases:
            self.visit(b)
        for k in n.keywords:
            self.visit(k.value)
        self.cur.bind(n.name)
        self.push("class", n, n.name)
        for st in n.body:
            self.visit(st)
        self.pop()

    def visit_Yield(self, n):
        self.cur.is_gen = True
        if n.value:
            self.visit(n.value)

    def visit_YieldFrom(self, n):
        self.cur.is_gen = True
        self.visit(n.value)

    def comp(self, n, elts, name, gen=False):
        if isinstance(n, ast.ListComp) and self.ver < (3, 0):
            for g in n.generators:
                self.visit(g.iter)
                self.visit(g.target)
                for i in g.ifs:
                    self.visit(i)
            for e in elts:
                self.visit(e)
            return
        self.visit(n.generators[0].iter)
        s = self.push("comp", n, name)
        s.params.append(".0")
        s.bind(".0")
        s.is_gen = gen
        for k, g in enumerate(n.generators):
            if k:
                self.visit(g.iter)
            self.visit(g.target)
            for i in g.ifs:
                self.visit(i)
        for e in elts:
            self.visit(e)
        self.pop()

    def visit_ListComp(self, n):
        self.comp(n, [n.elt], "<listcomp>")

    def visit_SetComp(self, n):
        self.comp(n, [n.elt], "<setcomp>")

    def visit_DictComp(self, n):
        self.comp(n, [n.key, n.value], "<dictcomp>")

    def visit_GeneratorExp(self, n):
        self.comp(n, [n.elt], "<genexpr>", gen=True)

    # -- resolution
    def resolve(self, mod):
        def local_names(s):
            return set(s.bound) - s.globals - s.nonlocals

        def rec(s, enclosing):
            # names in s that need to come from enclosing function scopes
            loc = local_names(s)
            if s.kind == "module":
                for c in s.children:
                    rec(c, set())
                return set()
            avail = enclosing
            if s.kind == "class":
                child_env = enclosing | ({"__class__"} if self.ver >= (3, 0) else set())
            else:
                child_env = enclosing | loc
                child_env -= s.globals
            need = set()
            for c in s.children:
                need |= rec(c, child_env)
            wanted = (s.used | s.nonlocals) - loc - s.globals
            if s.kind == "class":
                if "__class__" in need and self.ver >= (3, 0):
                    s.cells.add("__class__")
                    need.discard("__class__")
                s.free = {n for n in need if n in avail}
                s.free |= {n for n in wanted if n in avail}
            else:
                s.cells = {n for n in need if n in loc}
                s.free = {n for n in (need - s.cells) if n in avail}
                s.free |= {n for n in wanted if n in avail}
            return set(s.free)

        rec(mod, set())


# --------------------------------------------------------------------------
class Label:
    __slots__ = ("pos",)

    def __init__(self):
        self.pos = None


class Instr:
    __slots__ = ("op", "arg", "line", "off")

    def __init__(self, op, arg, line):
        self.op, self.arg, self.line = op, arg, line
        self.off = None


BIN = {
    ast.Add: "ADD", ast.Sub: "SUBTRACT", ast.Mult: "MULTIPLY", ast.Div: "TRUE_DIVIDE",
    ast.FloorDiv: "FLOOR_DIVIDE", ast.Mod: "MODULO", ast.Pow: "POWER", ast.LShift: "LSHIFT",
    ast.RShift: "RSHIFT", ast.BitAnd: "AND", ast.BitOr: "OR", ast.BitXor: "XOR",
    ast.MatMult: "MATRIX_MULTIPLY",
}
CMP = {ast.Lt: 0, ast.LtE: 1, ast.Eq: 2, ast.NotEq: 3, ast.Gt: 4, ast.GtE: 5, ast.In: 6,
       ast.NotIn: 7, ast.Is: 8, ast.IsNot: 9}
UN = {ast.UAdd: "UNARY_POSITIVE", ast.USub: "UNARY_NEGATIVE", ast.Not: "UNARY_NOT",
      ast.Invert: "UNARY_INVERT"}


class Unit:
    """Compiles one scope to one code object."""

    def __init__(self, comp, scope, qual):
        self.c = comp
        self.s = scope
        self.ver = comp.ver
        self.pypy = comp.pypy
        self.old_calls = self.ver < (3, 6) or self.pypy and self.ver == (3, 6)
        self.opc = comp.opc
        self.ins = []          # Instr or Label
        self.consts = []
        self.names = []
        self.varnames = []
        self.fblocks = []      # (kind, info)
        self.line = 1
        self.qual = qual
        self.tmpn = 0
        if scope.optimized:
            self.varnames = list(scope.params)
        self.cellvars = sorted(scope.cells)
        self.freevars = sorted(scope.free)

    # ---- emit
    def emit(self, op, arg=None):
        if op not in self.opc.opmap and "SLICE+" in op:
            op = op.replace("+", "_")
        if op not in self.opc.opmap:
            raise Unsupported("%s not in %s" % (op, self.ver))
        self.ins.append(Instr(op, arg, self.line))

    def has(self, op):
        return op in self.opc.opmap

    def mark(self, label):
        self.ins.append(label)

    def const(self, v):
        for i, x in enumerate(self.consts):
            if x is v or (type(x) is type(v) and not isinstance(v, CodeObj) and x == v
                          and repr(x) == repr(v)):
                return i
        self.consts.append(v)
        return len(self.consts) - 1

    def load_const(self, v):
        if self.ver < (3, 0) and (v is True or v is False):
            self.nameop(repr(v), "LOAD")
        else:
            self.emit("LOAD_CONST", self.const(v))

    def name_i(self, n):
        if n not in self.names:
            self.names.append(n)
        return self.names.index(n)

    def var_i(self, n):
        if n not in self.varnames:
            self.varnames.append(n)
        return self.varnames.index(n)

    def deref_i(self, n):
        if n in self.cellvars:
            return self.cellvars.index(n)
        return len(self.cellvars) + self.freevars.index(n)

    def nameop(self, n, mode):
        s = self.s
        if n in s.globals:
            self.emit(mode + "_GLOBAL", self.name_i(n))
            return
        if n in s.cells and s.kind != "class" or n in s.free and n not in (
            set(s.bound) - s.globals - s.nonlocals
        ):
            if mode == "LOAD" and s.kind == "class" and self.ver >= (3, 4):
                self.emit("LOAD_CLASSDEREF", self.deref_i(n))
            elif mode == "DELETE" and not self.has("DELETE_DEREF"):
                raise Unsupported("DELETE_DEREF")
            else:
                self.emit(mode + "_DEREF", self.deref_i(n))
            return
        if s.optimized:
            if n in s.bound:
                self.emit(mode + "_FAST", self.var_i(n))
            else:
                self.emit(mode + "_GLOBAL", self.name_i(n))
        else:
            self.emit(mode + "_NAME", self.name_i(n))

    # ---- jumps
    def jump_if_false_pop(self, label):
        """consume TOS; jump if false"""
        if self.has("POP_JUMP_IF_FALSE"):
            self.emit("POP_JUMP_IF_FALSE", label)
            return None
        l2 = Label()
        self.emit("JUMP_IF_FALSE", l2)
        self.emit("POP_TOP")
        return l2

    # ---- expressions
    def expr(self, n):
        old = self.line
        if hasattr(n, "lineno") and n.lineno > 0:
            self.line = n.lineno if self.ver >= (3, 8) or True else self.line
        getattr(self, "e_" + type(n).__name__)(n)
        self.line = old

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, (int, str, tuple, float, complex)) or v is None or v is Ellipsis:
            self.load_const(v)
        elif isinstance(v, bytes):
            self.load_const(v)
        else:
            raise Unsupported(repr(v))

    def e_Name(self, n):
        self.nameop(n.id, "LOAD")

    def e_BinOp(self, n):
        self.expr(n.left)
        self.expr(n.right)
        self.emit(self.binname(n.op, "BINARY_"))

    def binname(self, op, pre):
        if isinstance(op, ast.Div) and self.ver < (3, 0):
            return pre + "DIVIDE"
        nm = pre + BIN[type(op)]
        return nm

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            self.load_const(-n.operand.value)
            return
        self.expr(n.operand)
        self.emit(UN[type(n.op)])

    def e_BoolOp(self, n):
        end = Label()
        isand = isinstance(n.op, ast.And)
        if self.has("JUMP_IF_FALSE_OR_POP"):
            op = "JUMP_IF_FALSE_OR_POP" if isand else "JUMP_IF_TRUE_OR_POP"
            for v in n.values[:-1]:
                self.expr(v)
                self.emit(op, end)
        else:
            op = "JUMP_IF_FALSE" if isand else "JUMP_IF_TRUE"
            for v in n.values[:-1]:
                self.expr(v)
                self.emit(op, end)
                self.emit("POP_TOP")
        self.expr(n.values[-1])
        self.mark(end)

    def cmpop(self, op):
        k = CMP[type(op)]
        if self.ver >= (3, 9):
            if k in (6, 7):
                self.emit("CONTAINS_OP", k - 6)
                return
            if k in (8, 9):
                self.emit("IS_OP", k - 8)
                return
        self.emit("COMPARE_OP", k)

    def e_Compare(self, n):
        self.expr(n.left)
        if len(n.ops) == 1:
            self.expr(n.comparators[0])
            self.cmpop(n.ops[0])
            return
        clean, end = Label(), Label()
        for op, c in zip(n.ops[:-1], n.comparators[:-1]):
            self.expr(c)
            self.emit("DUP_TOP")
            self.emit("ROT_THREE")
            self.cmpop(op)
            if self.has("JUMP_IF_FALSE_OR_POP"):
                self.emit("JUMP_IF_FALSE_OR_POP", clean)
            else:
                self.emit("JUMP_IF_FALSE", clean)
                self.emit("POP_TOP")
        self.expr(n.comparators[-1])
        self.cmpop(n.ops[-1])
        self.emit("JUMP_FORWARD", end)
        self.mark(clean)
        self.emit("ROT_TWO")
        self.emit("POP_TOP")
        self.mark(end)

    def e_IfExp(self, n):
        els, end = Label(), Label()
        self.expr(n.test)
        l2 = self.jump_if_false_pop(els)
        self.expr(n.body)
        self.emit("JUMP_FORWARD", end)
        if l2:
            self.mark(l2)
            self.emit("POP_TOP")
        else:
            self.mark(els)
        self.expr(n.orelse)
        self.mark(end)

    def e_Attribute(self, n):
        self.expr(n.value)
        self.emit("LOAD_ATTR", self.name_i(n.attr))

    def slice_2x(self, sl):
        return (self.ver < (3, 0) and isinstance(sl, ast.Slice) and sl.step is None)

    def slice_ops(self, sl):
        """push the slice parts; return suffix"""
        k = 0
        if sl.lower is not None:
            self.expr(sl.lower)
            k |= 1
        if sl.upper is not None:
            self.expr(sl.upper)
            k |= 2
        return "+%d" % k

    def subscript_index(self, sl):
        if isinstance(sl, ast.Slice):
            for x in (sl.lower, sl.upper):
                if x is None:
                    self.load_const(None)
                else:
                    self.expr(x)
            if sl.step is not None:
                self.expr(sl.step)
                self.emit("BUILD_SLICE", 3)
            else:
                self.emit("BUILD_SLICE", 2)
        else:
            self.expr(sl)

    def e_Slice(self, n):
        self.subscript_index(n)

    def e_Subscript(self, n):
        self.expr(n.value)
        if self.slice_2x(n.slice):
            self.emit("SLICE" + self.slice_ops(n.slice))
            return
        self.subscript_index(n.slice)
        self.emit("BINARY_SUBSCR")

    def starred(self, elts):
        return any(isinstance(e, ast.Starred) for e in elts)

    def build_seq(self, elts, kind):
        """kind in TUPLE LIST SET"""
        if not self.starred(elts):
            for e in elts:
                self.expr(e)
            if kind == "SET" and not self.has("BUILD_SET"):
                raise Unsupported("set display")
            self.emit("BUILD_" + kind, len(elts))
            return
        if self.ver < (3, 5):
            raise Unsupported("star display")
        if self.ver >= (3, 9):
            base = "SET" if kind == "SET" else "LIST"
            add, ext = ("SET_ADD", "SET_UPDATE") if kind == "SET" else ("LIST_APPEND", "LIST_EXTEND")
            k = 0
            while k < len(elts) and not isinstance(elts[k], ast.Starred):
                self.expr(elts[k])
                k += 1
            self.emit("BUILD_" + base, k)
            for e in elts[k:]:
                if isinstance(e, ast.Starred):
                    self.expr(e.value)
                    self.emit(ext, 1)
                else:
                    self.expr(e)
                    self.emit(add, 1)
            if kind == "TUPLE":
                self.emit("LIST_TO_TUPLE")
            return
        nsub = 0
        run = 0
        for e in elts:
            if isinstance(e, ast.Starred):
                if run:
                    self.emit("BUILD_SET" if kind == "SET" else "BUILD_TUPLE", run)
                    nsub += 1
                    run = 0
                self.expr(e.value)
                nsub += 1
            else:
                self.expr(e)
                run += 1
        if run:
            self.emit("BUILD_SET" if kind == "SET" else "BUILD_TUPLE", run)
            nsub += 1
        self.emit("BUILD_%s_UNPACK" % kind, nsub)

    def e_Tuple(self, n):
        if n.elts and all(isinstance(e, ast.Constant) for e in n.elts) and (
            self.ver >= (2, 5)
        ) and not any(isinstance(e.value, bool) for e in n.elts):
            self.load_const(tuple(e.value for e in n.elts))
            return
        self.build_seq(n.elts, "TUPLE")

    def e_List(self, n):
        self.build_seq(n.elts, "LIST")

    def e_Set(self, n):
        self.build_seq(n.elts, "SET")

    def e_Dict(self, n):
        if any(k is None for k in n.keys):
            if self.ver < (3, 5):
                raise Unsupported("** display")
            if self.ver >= (3, 9):
                first = True
                self.emit("BUILD_MAP", 0)
                for k, v in zip(n.keys, n.values):
                    if k is None:
                        self.expr(v)
                    else:
                        self.expr(k)
                        self.expr(v)
                        self.emit("BUILD_MAP", 1)
                    self.emit("DICT_UPDATE", 1)
                return
            m = 0
            for k, v in zip(n.keys, n.values):
                if k is None:
                    self.expr(v)
                else:
                    self.expr(k)
                    self.expr(v)
                    self.emit("BUILD_MAP", 1)
                m += 1
            self.emit("BUILD_MAP_UNPACK", m)
            return
        if self.ver >= (3, 6) and len(n.keys) > 1 and all(
            isinstance(k, ast.Constant) for k in n.keys
        ):
            for v in n.values:
                self.expr(v)
            self.load_const(tuple(k.value for k in n.keys))
            self.emit("BUILD_CONST_KEY_MAP", len(n.keys))
            return
        if self.ver >= (3, 5):
            for k, v in zip(n.keys, n.values):
                self.expr(k)
                self.expr(v)
            self.emit("BUILD_MAP", len(n.keys))
            return
        if self.has("STORE_MAP"):
            self.emit("BUILD_MAP", len(n.keys))
            for k, v in zip(n.keys, n.values):
                self.expr(v)
                self.expr(k)
                self.emit("STORE_MAP")
        else:
            self.emit("BUILD_MAP", 0)
            for k, v in zip(n.keys, n.values):
                self.emit("DUP_TOP")
                self.expr(v)
                self.emit("ROT_TWO")
                self.expr(k)
                self.emit("STORE_SUBSCR")

    def e_Lambda(self, n):
        self.function(n, n.args, "<lambda>", [], None)

    def e_NamedExpr(self, n):
        self.expr(n.value)
        self.emit("DUP_TOP")
        self.store(n.target)

    def e_JoinedStr(self, n):
        if self.ver < (3, 6):
            raise Unsupported("fstring")
        for v in n.values:
            if isinstance(v, ast.Constant):
                self.load_const(v.value)
            else:
                self.expr(v)
        if len(n.values) != 1:
            self.emit("BUILD_STRING", len(n.values))

    def e_FormattedValue(self, n):
        self.expr(n.value)
        flag = {-1: 0, 115: 1, 114: 2, 97: 3}[n.conversion]
        if n.format_spec is not None:
            self.expr(n.format_spec)
            flag |= 4
        self.emit("FORMAT_VALUE", flag)

    def e_Yield(self, n, statement=False):
        if self.ver < (2, 5) and not statement:
            raise Unsupported("yield expression")
        if n.value is None:
            self.load_const(None)
        else:
            self.expr(n.value)
        self.emit("YIELD_VALUE")

    def e_YieldFrom(self, n):
        if self.ver < (3, 3):
            raise Unsupported("yield from")
        self.expr(n.value)
        if self.ver >= (3, 5):
            self.emit("GET_YIELD_FROM_ITER")
        else:
            self.emit("GET_ITER")
        self.load_const(None)
        self.emit("YIELD_FROM")

    # ---- calls
    def e_Call(self, n):
        self.call(n)

    def call(self, n):
        star = self.starred(n.args)
        dstar = any(k.arg is None for k in n.keywords)
        if self.pypy and not star and not dstar and isinstance(n.func, ast.Attribute):
            self.expr(n.func.value)
            self.emit("LOOKUP_METHOD" if self.has("LOOKUP_METHOD") else "LOAD_METHOD", self.name_i(n.func.attr))
            if self.ver < (3, 7):
                self.old_call_args(n.args, n.keywords, 0)
                self.emit("CALL_METHOD", self.argc)
                return
            for a in n.args:
                self.expr(a)
            if not n.keywords:
                self.emit("CALL_METHOD", len(n.args))
                return
            for k in n.keywords:
                self.expr(k.value)
            self.load_const(tuple(k.arg for k in n.keywords))
            self.emit("CALL_METHOD_KW", len(n.args) + len(n.keywords))
            return
        if not star and not dstar and not n.keywords and isinstance(n.func, ast.Attribute):
            if self.ver >= (3, 7) and self.has("LOAD_METHOD"):
                self.expr(n.func.value)
                self.emit("LOAD_METHOD", self.name_i(n.func.attr))
                for a in n.args:
                    self.expr(a)
                self.emit("CALL_METHOD", len(n.args))
                return
        self.expr(n.func)
        self.call_args(n.args, n.keywords, 0)

    def call_args(self, args, keywords, npre):
        """callable (and npre positional) already pushed"""
        star = self.starred(args)
        dstar = any(k.arg is None for k in keywords)
        named = [k for k in keywords if k.arg is not None]
        if self.ver >= (3, 6) and not self.old_calls:
            if not star and not dstar:
                for a in args:
                    self.expr(a)
                if named:
                    for k in named:
                        self.expr(k.value)
                    self.load_const(tuple(k.arg for k in named))
                    self.emit("CALL_FUNCTION_KW", npre + len(args) + len(named))
                else:
                    self.emit("CALL_FUNCTION", npre + len(args))
                return
            # EX
            if self.ver >= (3, 9):
                if len(args) == 1 and star and not npre:
                    self.expr(args[0].value)
                else:
                    k = 0
                    while k < len(args) and not isinstance(args[k], ast.Starred):
                        self.expr(args[k])
                        k += 1
                    if k == len(args):
                        self.emit("BUILD_TUPLE", npre + k)
                    else:
                        self.emit("BUILD_LIST", npre + k)
                        for a in args[k:]:
                            if isinstance(a, ast.Starred):
                                self.expr(a.value)
                                self.emit("LIST_EXTEND", 1)
                            else:
                                self.expr(a)
                                self.emit("LIST_APPEND", 1)
                        self.emit("LIST_TO_TUPLE")
                flag = 0
                if keywords:
                    flag = 1
                    if not dstar:
                        for k in named:
                            self.load_const(k.arg)
                            self.expr(k.value)
                        self.emit("BUILD_MAP", len(named))
                    else:
                        self.emit("BUILD_MAP", 0)
                        run = 0
                        for k in keywords:
                            if k.arg is None:
                                self.expr(k.value)
                            else:
                                self.load_const(k.arg)
                                self.expr(k.value)
                                self.emit("BUILD_MAP", 1)
                            self.emit("DICT_MERGE", 1)
                self.emit("CALL_FUNCTION_EX", flag)
                return
            nsub = 0
            run = npre
            for a in args:
                if isinstance(a, ast.Starred):
                    if run:
                        self.emit("BUILD_TUPLE", run)
                        nsub += 1
                        run = 0
                    self.expr(a.value)
                    nsub += 1
                else:
                    self.expr(a)
                    run += 1
            if run or nsub == 0:
                self.emit("BUILD_TUPLE", run)
                nsub += 1
            if nsub > 1:
                self.emit("BUILD_TUPLE_UNPACK_WITH_CALL", nsub)
            flag = 0
            if keywords:
                flag = 1
                nsub = 0
                run = 0
                pend = []

                def flush():
                    nonlocal nsub
                    if pend:
                        if len(pend) > 1:
                            for k in pend:
                                self.expr(k.value)
                            self.load_const(tuple(k.arg for k in pend))
                            self.emit("BUILD_CONST_KEY_MAP", len(pend))
                        else:
                            self.load_const(pend[0].arg)
                            self.expr(pend[0].value)
                            self.emit("BUILD_MAP", 1)
                        pend.clear()
                        nsub += 1
                for k in keywords:
                    if k.arg is None:
                        flush()
                        self.expr(k.value)
                        nsub += 1
                    else:
                        pend.append(k)
                flush()
                if nsub > 1:
                    self.emit("BUILD_MAP_UNPACK_WITH_CALL", nsub)
            self.emit("CALL_FUNCTION_EX", flag)
            return
        self.emit("CALL_FUNCTION" + self.old_call_args(args, keywords, npre), self.argc)

    def old_call_args(self, args, keywords, npre):
        """The arguments as before 3.6; sets self.argc, and returns the ending of the opcode."""
        several = self.ver >= (3, 5)
        if not several:
            stars = [a for a in args if isinstance(a, ast.Starred)]
            if len(stars) > 1 or stars and args[-1] is not stars[0]:
                raise Unsupported("multiple unpackings")
            if any(k.arg is None for k in keywords[:-1]):
                raise Unsupported("kw after **")
        pos = npre
        nsub = run = 0
        k = 0
        while k < len(args) and not isinstance(args[k], ast.Starred):
            self.expr(args[k])
            k += 1
        pos += k
        starargs = args[k:]

        def star():
            nonlocal nsub, run
            for a in starargs:
                if isinstance(a, ast.Starred):
                    if run:
                        self.emit("BUILD_TUPLE", run)
                        run = 0
                        nsub += 1
                    self.expr(a.value)
                    nsub += 1
                else:
                    self.expr(a)
                    run += 1
            if run:
                self.emit("BUILD_TUPLE", run)
                nsub += 1
            if nsub > 1:
                self.emit("BUILD_LIST_UNPACK", nsub)
        if several:
            star()
        k = 0
        while k < len(keywords) and keywords[k].arg is not None:
            self.load_const(keywords[k].arg)
            self.expr(keywords[k].value)
            k += 1
        nkw = k
        if not several:
            star()
        nsubkw = run = 0
        for kw in keywords[k:]:
            if kw.arg is None:
                if run:
                    self.emit("BUILD_MAP", run)
                    run = 0
                    nsubkw += 1
                self.expr(kw.value)
                nsubkw += 1
            else:
                self.load_const(kw.arg)
                self.expr(kw.value)
                run += 1
        if run:
            self.emit("BUILD_MAP", run)
            nsubkw += 1
        if nsubkw > 1:
            self.emit("BUILD_MAP_UNPACK_WITH_CALL", nsubkw | (pos + bool(nsub) + nkw + 1) << 8)
        self.argc = pos | nkw << 8
        return ("_VAR" if nsub else "") + ("_KW" if nsubkw else "")

    # ---- functions
    def function(self, node, args, name, decorators, annots):
        ver = self.ver
        scope = self.c.scopes[node]
        if (args.kwonlyargs or annots) and ver < (3, 0):
            raise Unsupported("kwonly/annotations")
        if args.posonlyargs and ver < (3, 8):
            raise Unsupported("posonly")
        kwd = [(a.arg, d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]
        flags = 0

        def do_pos():
            for d in args.defaults:
                self.expr(d)

        def do_kw():
            for nm, d in kwd:
                self.load_const(nm)
                self.expr(d)

        if ver >= (3, 6):
            if args.defaults:
                self.e_Tuple(ast.Tuple(args.defaults, ast.Load()))
                flags |= 1
            if kwd:
                for nm, d in kwd:
                    self.expr(d)
                self.load_const(tuple(nm for nm, _ in kwd))
                self.emit("BUILD_CONST_KEY_MAP", len(kwd))
                flags |= 2
            if annots:
                if ver >= (3, 10):
                    for nm, a in annots:
                        self.load_const(nm)
                        self.expr(a)
                    self.emit("BUILD_TUPLE", 2 * len(annots))
                else:
                    for nm, a in annots:
                        self.expr(a)
                    self.load_const(tuple(nm for nm, _ in annots))
                    self.emit("BUILD_CONST_KEY_MAP", len(annots))
                flags |= 4
            argc = flags
        else:
            if (3, 0) <= ver < (3, 4):
                do_kw()
                do_pos()
            else:
                do_pos()
                do_kw()
            argc = len(args.defaults) | (len(kwd) << 8)
            if annots:
                for nm, a in annots:
                    self.expr(a)
                self.load_const(tuple(nm for nm, _ in annots))
                argc |= (len(annots) + 1) << 16
        qual = self.child_qual(name, scope)
        code = self.c.function_code(node, args, name, scope, qual)
        self.make_closure(code, argc, qual)

    def child_qual(self, name, scope):
        if self.s.kind == "module" or name in self.s.globals:
            return name
        if self.s.kind == "class":
            return self.qual + "." + name
        return self.qual + ".<locals>." + name

    def make_closure(self, code, argc, qual):
        ver = self.ver
        if code.freevars:
            for nm in code.freevars:
                i = self.deref_i(nm)
                self.emit("LOAD_CLOSURE", i)
            if ver >= (2, 5):
                self.emit("BUILD_TUPLE", len(code.freevars))
            if ver >= (3, 6):
                argc |= 8
            self.emit("LOAD_CONST", self.const(code))
            if ver >= (3, 3):
                self.load_const(qual)
            if ver >= (3, 6):
                self.emit("MAKE_FUNCTION", argc)
            else:
                self.emit("MAKE_CLOSURE", argc)
        else:
            self.emit("LOAD_CONST", self.const(code))
            if ver >= (3, 3):
                self.load_const(qual)
            self.emit("MAKE_FUNCTION", argc)

    # ---- comprehensions
    def e_ListComp(self, n):
        if self.ver >= (3, 0):
            return self.comp_fn(n, "<listcomp>", "BUILD_LIST", [n.elt])
        # inlined in 2.x
        tmp = None
        self.emit("BUILD_LIST", 0)
        if self.ver < (2, 7):
            self.tmpn += 1
            tmp = "_[%d]" % self.tmpn
            if self.s.optimized and tmp not in self.s.bound:
                self.s.bound.append(tmp)
            self.emit("DUP_TOP")
            self.nameop(tmp, "STORE")

        def inner():
            if tmp:
                self.nameop(tmp, "LOAD")
                self.expr(n.elt)
                self.emit("LIST_APPEND")
            else:
                self.expr(n.elt)
                self.emit("LIST_APPEND", len(n.generators) + 1)
        self.comp_loops(n.generators, 0, inner, False)
        if tmp:
            self.nameop(tmp, "DELETE")
            self.tmpn -= 1

    def comp_loops(self, gens, k, inner, first_dot0, isgen=False):
        g = gens[k]
        start, anchor, nxt = Label(), Label(), Label()
        if k == 0 and first_dot0:
            self.emit("LOAD_FAST", self.var_i(".0"))
        else:
            self.expr(g.iter)
            self.emit("GET_ITER")
        self.mark(start)
        self.emit("FOR_ITER", anchor)
        self.store(g.target)
        pops = []
        for c in g.ifs:
            self.expr(c)
            if self.has("POP_JUMP_IF_FALSE"):
                self.emit("POP_JUMP_IF_FALSE", start)
            else:
                l2 = Label()
                self.emit("JUMP_IF_FALSE", l2)
                self.emit("POP_TOP")
                pops.append(l2)
        if k + 1 < len(gens):
            self.comp_loops(gens, k + 1, inner, first_dot0, isgen)
        else:
            inner()
        self.emit("JUMP_ABSOLUTE", start)
        if pops:
            for l2 in pops:
                self.mark(l2)
            self.emit("POP_TOP")
            self.emit("JUMP_ABSOLUTE", start)
        self.mark(anchor)

    def comp_fn(self, n, name, build, elts):
        scope = self.c.scopes[n]
        qual = self.child_qual(name, scope)
        u = Unit(self.c, scope, qual)
        u.line = n.lineno
        depth = len(n.generators) + 1
        if name == "<genexpr>":
            if self.ver >= (3, 10):
                u.emit("GEN_START", 0)

            def inner():
                u.expr(n.elt)
                u.emit("YIELD_VALUE")
                if self.ver >= (2, 5):
                    u.emit("POP_TOP")
        else:
            if not self.has(build):
                raise Unsupported(build)
            u.emit(build, 0)

            def inner():
                if name == "<dictcomp>":
                    if self.ver >= (3, 8):
                        u.expr(n.key)
                        u.expr(n.value)
                    else:
                        u.expr(n.value)
                        u.expr(n.key)
                    u.emit("MAP_ADD", depth)
                else:
                    u.expr(n.elt)
                    if self.ver < (3, 1) and name == "<listcomp>":
                        raise Unsupported()
                    u.emit({"<listcomp>": "LIST_APPEND", "<setcomp>": "SET_ADD"}[name], depth)
        u.comp_loops(n.generators, 0, inner, True)
        if name == "<genexpr>":
            u.load_const(None)
        u.emit("RETURN_VALUE")
        code = u.finish(name, 1, 0, 0, CO_OPTIMIZED | CO_NEWLOCALS
                        | (CO_GENERATOR if name == "<genexpr>" else 0), n.lineno)
        self.make_closure(code, 0, qual)
        self.expr(n.generators[0].iter)
        self.emit("GET_ITER")
        self.emit("CALL_FUNCTION", 1)

    def e_SetComp(self, n):
        if self.ver < (2, 7):
            raise Unsupported("setcomp")
        self.comp_fn(n, "<setcomp>", "BUILD_SET", [n.elt])

    def e_DictComp(self, n):
        if self.ver < (2, 7):
            raise Unsupported("dictcomp")
        self.comp_fn(n, "<dictcomp>", "BUILD_MAP", [n.key, n.value])

    def e_GeneratorExp(self, n):
        self.comp_fn(n, "<genexpr>", None, [n.elt])

    # ---- stores
    def store(self, t):
        if getattr(t, "lineno", 0) > self.line:
            self.line = t.lineno
        if isinstance(t, ast.Name):
            self.nameop(t.id, "STORE")
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.emit("STORE_ATTR", self.name_i(t.attr))
        elif isinstance(t, ast.Subscript):
            self.expr(t.value)
            if self.slice_2x(t.slice):
                self.emit("STORE_SLICE" + self.slice_ops(t.slice))
                return
            self.subscript_index(t.slice)
            self.emit("STORE_SUBSCR")
        elif isinstance(t, (ast.Tuple, ast.List)):
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                if self.ver < (3, 0):
                    raise Unsupported("UNPACK_EX")
                i = st[0]
                self.emit("UNPACK_EX", i | ((len(t.elts) - i - 1) << 8))
            else:
                self.emit("UNPACK_SEQUENCE", len(t.elts))
            for e in t.elts:
                self.store(e.value if isinstance(e, ast.Starred) else e)
        else:
            raise Unsupported(ast.dump(t))

    def delete(self, t):
        if isinstance(t, ast.Name):
            self.nameop(t.id, "DELETE")
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.emit("DELETE_ATTR", self.name_i(t.attr))
        elif isinstance(t, ast.Subscript):
            self.expr(t.value)
            if self.slice_2x(t.slice):
                self.emit("DELETE_SLICE" + self.slice_ops(t.slice))
                return
            self.subscript_index(t.slice)
            self.emit("DELETE_SUBSCR")
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e)

    # ---- statements
    def stmts(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, n):
        self.line = n.lineno
        getattr(self, "s_" + type(n).__name__)(n)

    def s_Pass(self, n):
        # CPython emits nothing up to 3.7 or a NOP
        if self.ver >= (3, 8):
            self.emit("NOP")

    def s_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and (
            n.value.func.id == "print" and self.ver < (3, 0)
        ):
            # print(a, b, file=f, end='') stands for `print >>f, a, b,`
            kw = {k.arg: k.value for k in n.value.keywords}
            to = "_TO" if "file" in kw else ""
            if to:
                self.expr(kw["file"])
            for a in n.value.args:
                if to:
                    self.emit("DUP_TOP")
                self.expr(a)
                if to:
                    self.emit("ROT_TWO")
                self.emit("PRINT_ITEM" + to)
            if "end" not in kw:
                self.emit("PRINT_NEWLINE" + to)
            elif to:
                self.emit("POP_TOP")
            return
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and (
            n.value.func.id == "raise_"
        ):
            # raise_(T, v) and raise_(T, v, tb) stand for `raise T, v` and `raise T, v, tb`
            if self.ver >= (3, 0):
                raise Unsupported("raise with commas")
            for a in n.value.args:
                self.expr(a)
            self.emit("RAISE_VARARGS", len(n.value.args))
            return
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and (
            n.value.func.id == "exec" and self.ver < (3, 0)
        ):
            a = n.value.args
            self.expr(a[0])
            if len(a) > 1:
                self.expr(a[1])
                if len(a) > 2:
                    self.expr(a[2])
                else:
                    self.emit("DUP_TOP")
            else:
                self.load_const(None)
                self.emit("DUP_TOP")
            self.emit("EXEC_STMT")
            return
        if isinstance(n.value, ast.Yield) and self.ver < (2, 5):
            self.e_Yield(n.value, True)
            return
        self.expr(n.value)
        self.emit("POP_TOP")

    def s_Assign(self, n):
        self.expr(n.value)
        for i, t in enumerate(n.targets):
            if i < len(n.targets) - 1:
                self.emit("DUP_TOP")
            self.store(t)

    def s_AnnAssign(self, n):
        if self.ver < (3, 6):
            raise Unsupported("AnnAssign")
        if n.value is not None:
            self.expr(n.value)
            self.store(n.target)
        if n.simple and not self.s.optimized:
            self.expr(n.annotation)
            if self.ver < (3, 7):
                self.emit("STORE_ANNOTATION", self.name_i(n.target.id))
            else:
                self.nameop("__annotations__", "LOAD")
                self.load_const(n.target.id)
                self.emit("STORE_SUBSCR")

    def s_AugAssign(self, n):
        t = n.target
        op = self.binname(n.op, "INPLACE_")
        if isinstance(t, ast.Name):
            self.nameop(t.id, "LOAD")
            self.expr(n.value)
            self.emit(op)
            self.nameop(t.id, "STORE")
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.emit("DUP_TOP")
            self.emit("LOAD_ATTR", self.name_i(t.attr))
            self.expr(n.value)
            self.emit(op)
            self.emit("ROT_TWO")
            self.emit("STORE_ATTR", self.name_i(t.attr))
        elif isinstance(t, ast.Subscript):
            self.expr(t.value)
            if self.slice_2x(t.slice):
                suf = self.slice_ops(t.slice)
                cnt = {"+0": 1, "+1": 2, "+2": 2, "+3": 3}[suf]
                if cnt == 1:
                    self.emit("DUP_TOP")
                else:
                    self.emit("DUP_TOPX", cnt)
                self.emit("SLICE" + suf)
                self.expr(n.value)
                self.emit(op)
                self.emit({1: "ROT_TWO", 2: "ROT_THREE", 3: "ROT_FOUR"}[cnt])
                self.emit("STORE_SLICE" + suf)
                return
            self.subscript_index(t.slice)
            if self.has("DUP_TOP_TWO"):
                self.emit("DUP_TOP_TWO")
            else:
                self.emit("DUP_TOPX", 2)
            self.emit("BINARY_SUBSCR")
            self.expr(n.value)
            self.emit(op)
            self.emit("ROT_THREE")
            self.emit("STORE_SUBSCR")

    def s_Delete(self, n):
        for t in n.targets:
            self.delete(t)

    def s_Global(self, n):
        pass

    s_Nonlocal = s_Global

    def s_Assert(self, n):
        end = Label()
        self.expr(n.test)
        if self.has("POP_JUMP_IF_TRUE"):
            self.emit("POP_JUMP_IF_TRUE", end)
        else:
            self.emit("JUMP_IF_TRUE", end)
            self.emit("POP_TOP")
        if self.has("LOAD_ASSERTION_ERROR"):
            self.emit("LOAD_ASSERTION_ERROR")
        else:
            self.emit("LOAD_GLOBAL", self.name_i("AssertionError"))
        if n.msg:
            self.expr(n.msg)
            if self.ver < (2, 7):
                self.emit("RAISE_VARARGS", 2)
            else:
                self.emit("CALL_FUNCTION", 1)
                self.emit("RAISE_VARARGS", 1)
        else:
            self.emit("RAISE_VARARGS", 1)
        self.mark(end)
        if not self.has("POP_JUMP_IF_TRUE"):
            self.emit("POP_TOP")

    def s_Raise(self, n):
        k = 0
        if n.exc:
            self.expr(n.exc)
            k = 1
            if n.cause:
                if self.ver < (3, 0):
                    raise Unsupported("raise from")
                self.expr(n.cause)
                k = 2
        self.emit("RAISE_VARARGS", k)

    def s_If(self, n):
        els, end = Label(), Label()
        self.expr(n.test)
        l2 = self.jump_if_false_pop(els)
        self.stmts(n.body)
        if l2:
            self.emit("JUMP_FORWARD", end)
            self.mark(l2)
            self.emit("POP_TOP")
            self.stmts(n.orelse)
            self.mark(end)
        elif n.orelse:
            self.emit("JUMP_FORWARD", end)
            self.mark(els)
            self.stmts(n.orelse)
            self.mark(end)
        else:
            self.mark(els)

    @property
    def old_loops(self):
        return self.has("SETUP_LOOP")

    def s_While(self, n):
        start, anchor, end = Label(), Label(), Label()
        forever = isinstance(n.test, ast.Constant) and bool(n.test.value)
        if self.old_loops:
            self.emit("SETUP_LOOP", end)
        self.mark(start)
        self.fblocks.append(("LOOP", ("while", start, end)))
        l2 = None
        if not forever:
            self.expr(n.test)
            l2 = self.jump_if_false_pop(anchor)
        self.stmts(n.body)
        self.emit("JUMP_ABSOLUTE", start)
        if l2:
            self.mark(l2)
            self.emit("POP_TOP")
        self.mark(anchor)
        if self.old_loops:
            self.emit("POP_BLOCK")
        self.fblocks.pop()
        self.stmts(n.orelse)
        self.mark(end)

    def s_For(self, n):
        start, anchor, end = Label(), Label(), Label()
        if self.old_loops:
            self.emit("SETUP_LOOP", end)
        self.expr(n.iter)
        self.emit("GET_ITER")
        self.mark(start)
        self.fblocks.append(("LOOP", ("for", start, end)))
        self.emit("FOR_ITER", anchor)
        self.store(n.target)
        self.stmts(n.body)
        self.emit("JUMP_ABSOLUTE", start)
        self.mark(anchor)
        if self.old_loops:
            self.emit("POP_BLOCK")
        self.fblocks.pop()
        self.stmts(n.orelse)
        self.mark(end)

    def s_Break(self, n):
        if self.old_loops:
            self.emit("BREAK_LOOP")
            return
        self.unwind_to_loop(n, True)

    def s_Continue(self, n):
        if self.old_loops:
            # nearest block
            for k in range(len(self.fblocks) - 1, -1, -1):
                kind, info = self.fblocks[k]
                if kind == "LOOP":
                    if k == len(self.fblocks) - 1:
                        self.emit("JUMP_ABSOLUTE", info[1])
                    else:
                        self.emit("CONTINUE_LOOP", info[1])
                    return
                if kind == "FINALLY_END":
                    raise Unsupported("continue in finally")
            raise Unsupported("continue outside loop")
        self.unwind_to_loop(n, False)

    def unwind_to_loop(self, n, brk):
        saved = list(self.fblocks)
        while self.fblocks:
            kind, info = self.fblocks[-1]
            if kind == "LOOP":
                break
            self.fblocks.pop()
            self.unwind1(kind, info, False)
        if not self.fblocks:
            raise Unsupported("outside loop")
        what, start, end = info
        if brk:
            if what == "for":
                self.emit("POP_TOP")
            self.emit("JUMP_ABSOLUTE", end)
        else:
            self.emit("JUMP_ABSOLUTE", start)
        self.fblocks = saved

    def s_Return(self, n):
        if self.old_loops:
            if n.value is None:
                self.load_const(None)
            else:
                self.expr(n.value)
            self.emit("RETURN_VALUE")
            return
        const = n.value is None or isinstance(n.value, ast.Constant)
        if not const:
            self.expr(n.value)
        saved = list(self.fblocks)
        while self.fblocks:
            kind, info = self.fblocks.pop()
            self.unwind1(kind, info, not const)
        self.fblocks = saved
        if const:
            self.load_const(None if n.value is None else n.value.value)
        self.emit("RETURN_VALUE")

    def unwind1(self, kind, info, preserve):
        v38 = self.ver < (3, 9)
        if kind == "LOOP":
            if info[0] == "for":
                if preserve:
                    self.emit("ROT_TWO")
                self.emit("POP_TOP")
        elif kind == "EXCEPT":
            self.emit("POP_BLOCK")
        elif kind == "FINALLY_TRY":
            self.emit("POP_BLOCK")
            if v38 and info[2]:
                if preserve:
                    self.emit("ROT_TWO")
                    self.emit("POP_TOP")
                self.emit("CALL_FINALLY", info[0])
                if not preserve:
                    self.emit("POP_TOP")
            elif v38:
                self.emit("CALL_FINALLY", info[0])
            else:
                saved = list(self.fblocks)
                if preserve:
                    self.fblocks.append(("POP_VALUE", None))
                self.stmts(info[1])
                self.fblocks = saved
        elif kind == "POP_VALUE":
            if preserve:
                self.emit("ROT_TWO")
            self.emit("POP_TOP")
        elif kind == "FINALLY_END":
            if v38:
                info["left"] = True
                self.emit("POP_FINALLY", int(preserve))
                if preserve:
                    self.emit("ROT_TWO")
                self.emit("POP_TOP")
                return
            if preserve:
                self.emit("ROT_FOUR")
            for _ in range(3):
                self.emit("POP_TOP")
            if preserve:
                self.emit("ROT_FOUR")
            self.emit("POP_EXCEPT")
        elif kind == "WITH":
            self.emit("POP_BLOCK")
            if preserve:
                self.emit("ROT_TWO")
            if v38:
                self.emit("BEGIN_FINALLY")
                self.emit("WITH_CLEANUP_START")
                self.emit("WITH_CLEANUP_FINISH")
                self.emit("POP_FINALLY", 0)
            else:
                self.with_nones()
                self.emit("POP_TOP")
        elif kind == "HANDLER_CLEANUP":
            name, cleanup = info
            if v38:
                if preserve:
                    self.emit("ROT_FOUR")
                if name:
                    self.emit("POP_BLOCK")
                    self.emit("POP_EXCEPT")
                    self.emit("CALL_FINALLY", cleanup)
                else:
                    self.emit("POP_EXCEPT")
            else:
                if name:
                    self.emit("POP_BLOCK")
                if preserve:
                    self.emit("ROT_FOUR")
                self.emit("POP_EXCEPT")
                if name:
                    self.load_const(None)
                    self.nameop(name, "STORE")
                    self.nameop(name, "DELETE")
        else:
            raise AssertionError(kind)

    def with_nones(self):
        self.load_const(None)
        self.emit("DUP_TOP")
        self.emit("DUP_TOP")
        self.emit("CALL_FUNCTION", 3)

    # try
    def s_Try(self, n):
        if n.finalbody:
            self.try_finally(n)
        else:
            self.try_except(n)

    def try_finally(self, n):
        v = self.ver
        h = Label()
        tail, left = None, False
        if (3, 8) <= v < (3, 9):
            # The finally clause is compiled first: when break, continue or
            # return leave it, there is a placeholder below for what the block
            # returns.
            before, line = self.ins, self.line
            self.ins = tail = []
            info = {"left": False}
            self.fblocks.append(("FINALLY_END", info))
            self.stmts(n.finalbody)
            self.emit("END_FINALLY")
            left = info["left"]
            if left:
                self.emit("POP_TOP")
            self.fblocks.pop()
            self.ins, self.line = before, line
            if left:
                self.load_const(None)
        self.emit("SETUP_FINALLY", h)
        self.fblocks.append(("FINALLY_TRY", (h, n.finalbody, left)))
        if n.handlers:
            self.try_except(n)
        else:
            self.stmts(n.body)
            self.stmts(n.orelse)
        self.fblocks.pop()
        self.emit("POP_BLOCK")
        if v >= (3, 9):
            ex = Label()
            self.stmts(n.finalbody)
            self.emit("JUMP_FORWARD", ex)
            self.mark(h)
            self.fblocks.append(("FINALLY_END", None))
            self.stmts(n.finalbody)
            self.fblocks.pop()
            if v >= (3, 10):
                self.emit("RERAISE", 0)
            else:
                self.emit("RERAISE")
            self.mark(ex)
            return
        if v >= (3, 8):
            self.emit("BEGIN_FINALLY")
            self.mark(h)
            self.ins += tail
            return
        self.load_const(None)
        self.mark(h)
        self.fblocks.append(("FINALLY_END", None))
        self.stmts(n.finalbody)
        self.emit("END_FINALLY")
        self.fblocks.pop()

    def try_except(self, n):
        v = self.ver
        h, orelse, end = Label(), Label(), Label()
        self.emit("SETUP_EXCEPT" if v < (3, 8) else "SETUP_FINALLY", h)
        self.fblocks.append(("EXCEPT", None))
        self.stmts(n.body)
        self.fblocks.pop()
        self.emit("POP_BLOCK")
        self.emit("JUMP_FORWARD", orelse)
        self.mark(h)
        for hd in n.handlers:
            self.line = hd.lineno
            nxt = Label()
            l2 = None
            if hd.type is not None:
                self.emit("DUP_TOP")
                self.expr(hd.type)
                if v >= (3, 9):
                    self.emit("JUMP_IF_NOT_EXC_MATCH", nxt)
                else:
                    self.emit("COMPARE_OP", 10)
                    l2 = self.jump_if_false_pop(nxt)
            self.emit("POP_TOP")
            if hd.name:
                self.nameop(hd.name, "STORE")
            else:
                self.emit("POP_TOP")
            self.emit("POP_TOP")
            if v < (3, 0):
                self.stmts(hd.body)
                self.emit("JUMP_FORWARD", end)
            elif hd.name:
                cl = Label()
                self.emit("SETUP_FINALLY", cl)
                self.fblocks.append(("HANDLER_CLEANUP", (hd.name, cl)))
                self.stmts(hd.body)
                self.fblocks.pop()
                if v >= (3, 9):
                    self.emit("POP_BLOCK")
                    self.emit("POP_EXCEPT")
                    self.load_const(None)
                    self.nameop(hd.name, "STORE")
                    self.nameop(hd.name, "DELETE")
                    self.emit("JUMP_FORWARD", end)
                    self.mark(cl)
                    self.load_const(None)
                    self.nameop(hd.name, "STORE")
                    self.nameop(hd.name, "DELETE")
                    if v >= (3, 10):
                        self.emit("RERAISE", 1)
                    else:
                        self.emit("RERAISE")
                else:
                    self.emit("POP_BLOCK")
                    if v >= (3, 8):
                        self.emit("BEGIN_FINALLY")
                    else:
                        if v < (3, 7):
                            self.emit("POP_EXCEPT")
                        self.load_const(None)
                    self.mark(cl)
                    self.load_const(None)
                    self.nameop(hd.name, "STORE")
                    self.nameop(hd.name, "DELETE")
                    self.emit("END_FINALLY")
                    if v >= (3, 7):
                        self.emit("POP_EXCEPT")
                    self.emit("JUMP_FORWARD", end)
            else:
                self.fblocks.append(("HANDLER_CLEANUP", (None, None)))
                self.stmts(hd.body)
                self.fblocks.pop()
                self.emit("POP_EXCEPT")
                self.emit("JUMP_FORWARD", end)
            self.mark(nxt)
            if l2:
                self.mark(l2)
                self.emit("POP_TOP")
        if v >= (3, 9):
            if v >= (3, 10):
                self.emit("RERAISE", 0)
            else:
                self.emit("RERAISE")
        else:
            self.emit("END_FINALLY")
        self.mark(orelse)
        self.stmts(n.orelse)
        self.mark(end)

    # with
    def s_With(self, n, k=0):
        v = self.ver
        if v < (2, 5):
            raise Unsupported("with")
        item = n.items[k]
        h = Label()

        def body():
            if k + 1 < len(n.items):
                self.s_With(n, k + 1)
            else:
                self.stmts(n.body)
        self.expr(item.context_expr)
        if self.has("SETUP_WITH"):
            self.emit("SETUP_WITH", h)
            if item.optional_vars is not None:
                self.store(item.optional_vars)
            else:
                self.emit("POP_TOP")
            self.fblocks.append(("WITH", h))
            body()
            self.fblocks.pop()
            self.emit("POP_BLOCK")
            if v >= (3, 9):
                ex, l2 = Label(), Label()
                self.with_nones()
                self.emit("POP_TOP")
                self.emit("JUMP_FORWARD", ex)
                self.mark(h)
                self.emit("WITH_EXCEPT_START")
                self.emit("POP_JUMP_IF_TRUE", l2)
                if v >= (3, 10):
                    self.emit("RERAISE", 1)
                else:
                    self.emit("RERAISE")
                self.mark(l2)
                for _ in range(3):
                    self.emit("POP_TOP")
                self.emit("POP_EXCEPT")
                self.emit("POP_TOP")
                self.mark(ex)
                return
            if v >= (3, 8):
                self.emit("BEGIN_FINALLY")
            else:
                self.load_const(None)
            self.mark(h)
            if v >= (3, 5):
                self.emit("WITH_CLEANUP_START")
                self.emit("WITH_CLEANUP_FINISH")
            else:
                self.emit("WITH_CLEANUP")
            self.emit("END_FINALLY")
            return
        # 2.5, 2.6, 3.1
        self.emit("DUP_TOP")
        self.emit("LOAD_ATTR", self.name_i("__exit__"))
        self.tmpn += 1
        tmp = "_[%d]" % self.tmpn
        if self.s.optimized and tmp not in self.s.bound:
            self.s.bound.append(tmp)
        if v < (2, 6) or v >= (3, 0):
            self.nameop(tmp, "STORE")
        else:
            self.emit("ROT_TWO")
        tmp2 = None
        self.emit("LOAD_ATTR", self.name_i("__enter__"))
        self.emit("CALL_FUNCTION", 0)
        if item.optional_vars is not None:
            self.tmpn += 1
            tmp2 = "_[%d]" % self.tmpn
            if self.s.optimized and tmp2 not in self.s.bound:
                self.s.bound.append(tmp2)
            self.nameop(tmp2, "STORE")
        else:
            self.emit("POP_TOP")
        self.emit("SETUP_FINALLY", h)
        self.fblocks.append(("WITH", h))
        if tmp2:
            self.nameop(tmp2, "LOAD")
            self.nameop(tmp2, "DELETE")
            self.store(item.optional_vars)
        body()
        self.fblocks.pop()
        self.emit("POP_BLOCK")
        self.load_const(None)
        self.mark(h)
        if v < (2, 6) or v >= (3, 0):
            self.nameop(tmp, "LOAD")
            self.nameop(tmp, "DELETE")
        self.emit("WITH_CLEANUP")
        self.emit("END_FINALLY")
        self.tmpn -= 2 if tmp2 else 1

    def s_FunctionDef(self, n):
        for d in n.decorator_list:
            self.expr(d)
        an = ScopeBuilder(self.ver).annots(n)
        self.function(n, n.args, n.name, n.decorator_list, an)
        for _ in n.decorator_list:
            self.emit("CALL_FUNCTION", 1)
        self.nameop(n.name, "STORE")

    def s_ClassDef(self, n):
        v = self.ver
        for d in n.decorator_list:
            self.expr(d)
        scope = self.c.scopes[n]
        qual = self.child_qual(n.name, scope)
        if v < (3, 0):
            if n.keywords:
                raise Unsupported("class keywords")
            self.load_const(n.name)
            for b in n.bases:
                self.expr(b)
            self.emit("BUILD_TUPLE", len(n.bases))
            code = self.c.class_code(n, scope, qual)
            self.make_closure(code, 0, qual)
            self.emit("CALL_FUNCTION", 0)
            self.emit("BUILD_CLASS")
        else:
            self.emit("LOAD_BUILD_CLASS")
            code = self.c.class_code(n, scope, qual)
            self.make_closure(code, 0, n.name)
            self.load_const(n.name)
            self.call_args(n.bases, n.keywords, 2)
        for _ in n.decorator_list:
            self.emit("CALL_FUNCTION", 1)
        self.nameop(n.name, "STORE")

    def s_Import(self, n):
        for a in n.names:
            self.import_prefix(None, 0)
            self.emit("IMPORT_NAME", self.name_i(a.name))
            if a.asname:
                for p in a.name.split(".")[1:]:
                    if self.ver >= (3, 7):
                        self.emit("IMPORT_FROM", self.name_i(p))
                        self.emit("ROT_TWO")
                        self.emit("POP_TOP")
                    else:
                        self.emit("LOAD_ATTR", self.name_i(p))
                self.nameop(a.asname, "STORE")
            else:
                self.nameop(a.name.split(".")[0], "STORE")

    def import_prefix(self, fromlist, level):
        if self.ver >= (2, 5):
            self.load_const(level if self.ver >= (3, 0) else (-1 if level == 0 else level))
        self.load_const(fromlist)

    def s_ImportFrom(self, n):
        self.import_prefix(tuple(a.name for a in n.names), n.level)
        self.emit("IMPORT_NAME", self.name_i(n.module or ""))
        if n.names[0].name == "*":
            self.emit("IMPORT_STAR")
            return
        for a in n.names:
            self.emit("IMPORT_FROM", self.name_i(a.name))
            self.nameop(a.asname or a.name, "STORE")
        self.emit("POP_TOP")

    # ---- assembling
    def finish(self, name, argcount, posonly, kwonly, flags, firstlineno):
        opc = self.opc
        ver = self.ver
        # drop duplicate labels; layout with relaxation of EXTENDED_ARG
        ins = self.ins
        word = ver >= (3, 6)
        # one instruction per entry; size computed iteratively
        ext = {}

        def size(i):
            if word:
                return 2 * (1 + ext.get(id(i), 0))
            if i.arg is None and opc.opmap[i.op] < 90:
                return 1
            return 3 * (1 + ext.get(id(i), 0))

        def argval(i, off):
            a = i.arg
            if isinstance(a, Label):
                op = opc.opmap[i.op]
                if op in opc.JREL_OPS:
                    d = a.pos - (off + size(i))
                else:
                    d = a.pos
                if ver >= (3, 10):
                    d //= 2
                assert d >= 0, (i.op, d)
                return d
            return 0 if a is None else a

        while True:
            off = 0
            for i in ins:
                if isinstance(i, Label):
                    i.pos = off
                else:
                    i.off = off
                    off += size(i)
            changed = False
            for i in ins:
                if isinstance(i, Label):
                    continue
                a = argval(i, i.off)
                if word:
                    k = 0 if a < 256 else 1 if a < 65536 else 2 if a < 1 << 24 else 3
                else:
                    k = 0 if a < 65536 else 1
                if k > ext.get(id(i), 0):
                    ext[id(i)] = k
                    changed = True
            if not changed:
                break
        out = bytearray()
        lines = []  # (offset, line)
        EXT = opc.EXTENDED_ARG
        for i in ins:
            if isinstance(i, Label):
                continue
            assert len(out) == i.off
            if not lines or lines[-1][1] < i.line or (
                    lines[-1][1] != i.line and ver >= (3, 6)):  # it only grows before 3.6
                lines.append((i.off, i.line))
            a = argval(i, i.off)
            op = opc.opmap[i.op]
            k = ext.get(id(i), 0)
            if word:
                for j in range(k, 0, -1):
                    out += bytes([EXT, (a >> (8 * j)) & 255])
                out += bytes([op, a & 255])
            else:
                for j in range(k, 0, -1):
                    hi = (a >> (16 * j)) & 0xFFFF
                    out += bytes([EXT, hi & 255, hi >> 8])
                if size(i) == 1:
                    out.append(op)
                else:
                    out += bytes([op, a & 255, (a >> 8) & 255])
        scope = self.s
        if scope.parent is not None and scope.parent.kind != "module" and scope.optimized:
            flags |= CO_NESTED
        if not self.freevars and not self.cellvars:
            flags |= CO_NOFREE
        return CodeObj(
            name=name, qualname=self.qual, argcount=argcount, posonly=posonly, kwonly=kwonly,
            flags=flags, code=bytes(out), consts=self.consts, names=list(self.names),
            varnames=list(self.varnames), freevars=list(self.freevars),
            cellvars=list(self.cellvars), filename=self.c.filename, firstlineno=firstlineno,
            lines=lines, end=len(out), ver=ver, pypy=self.pypy,
            instrs=[(i.off, i.op) for i in ins if not isinstance(i, Label)],
        )


class Compiler:
    def __init__(self, filename, ver, pypy=False):
        self.filename = filename
        self.ver = ver
        self.pypy = pypy
        self.opc = opc_for(ver, pypy)

    def compile(self, src, mode="exec"):
        tree = ast.parse(src, mode=mode)
        self.scopes = ScopeBuilder(self.ver).build(tree)
        u = Unit(self, self.scopes[tree], "<module>")
        if mode == "eval":
            u.expr(tree.body)
            u.emit("RETURN_VALUE")
            return u.finish("<module>", 0, 0, 0, 0, 1)
        if self.ver >= (3, 6) and any(isinstance(s, ast.AnnAssign) for s in ast.walk(tree)):
            u.emit("SETUP_ANNOTATIONS")
        u.stmts(tree.body)
        u.load_const(None)
        u.emit("RETURN_VALUE")
        return u.finish("<module>", 0, 0, 0, 0, 1)

    def function_code(self, node, args, name, scope, qual):
        u = Unit(self, scope, qual)
        flags = CO_OPTIMIZED | CO_NEWLOCALS
        if args.vararg:
            flags |= CO_VARARGS
        if args.kwarg:
            flags |= CO_VARKW
        if scope.is_gen:
            flags |= CO_GENERATOR
            if self.ver >= (3, 10):
                u.emit("GEN_START", 0)
        u.line = node.lineno
        if isinstance(node, ast.Lambda):
            u.consts.insert(0, None)
            u.expr(node.body)
            u.emit("RETURN_VALUE")
        else:
            body = node.body
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
                    isinstance(body[0].value.value, str):
                u.consts.insert(0, body[0].value.value)
                body = body[1:]
            else:
                u.consts.insert(0, None)
            u.stmts(body)
            u.load_const(None)
            u.emit("RETURN_VALUE")
        npos = len(args.posonlyargs) + len(args.args)
        return u.finish(name, npos, len(args.posonlyargs), len(args.kwonlyargs), flags,
                        node.lineno)

    def class_code(self, n, scope, qual):
        v = self.ver
        u = Unit(self, scope, qual)
        u.line = n.lineno
        nargs = 0
        if v >= (3, 0):
            if v < (3, 4):
                u.varnames = ["__locals__"]
                nargs = 1
                u.emit("LOAD_FAST", 0)
                u.emit("STORE_LOCALS")
            u.nameop("__name__", "LOAD")
            u.nameop("__module__", "STORE")
            if v >= (3, 3):
                u.load_const(qual)
                u.nameop("__qualname__", "STORE")
        else:
            u.nameop("__name__", "LOAD")
            u.nameop("__module__", "STORE")
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and \
                isinstance(body[0].value.value, str):
            u.load_const(body[0].value.value)
            u.nameop("__doc__", "STORE")
            body = body[1:]
        if v >= (3, 6) and any(isinstance(s, ast.AnnAssign) for s in body):
            u.emit("SETUP_ANNOTATIONS")
        u.stmts(body)
        if v < (3, 0):
            u.emit("LOAD_LOCALS")
            u.emit("RETURN_VALUE")
            return u.finish(n.name, 0, 0, 0, CO_NEWLOCALS, n.lineno)
        if "__class__" in scope.cells:
            u.emit("LOAD_CLOSURE", u.deref_i("__class__"))
            if v >= (3, 6):
                u.emit("DUP_TOP")
                u.emit("STORE_NAME", u.name_i("__classcell__"))
        else:
            u.load_const(None)
        u.emit("RETURN_VALUE")
        return u.finish(n.name, nargs, 0, 0, CO_NEWLOCALS if v < (3, 4) else 0, n.lineno)


def compile_source(src, filename="<t>", ver=(3, 6), pypy=False, mode="exec"):
    return Compiler(filename, ver, pypy).compile(src, mode)


# --------------------------------------------------------------------------
# to xdis code objects

def lnotab(co):
    out = bytearray()
    pa, pl = 0, co.firstlineno
    for a, l in co.lines:
        da, dl = a - pa, l - pl
        if da == 0 and dl == 0:
            continue
        while da > 255:
            out += bytes([255, 0])
            da -= 255
        if co.ver >= (3, 6):
            while dl > 127:
                out += bytes([da, 127])
                da = 0
                dl -= 127
            while dl < -128:
                out += bytes([da, 0x80])
                da = 0
                dl += 128
            out += bytes([da, dl & 255])
        else:
            if dl < 0:
                continue  # no negative deltas before 3.6
            while dl > 127:
                out += bytes([da, 127])
                da = 0
                dl -= 127
            out += bytes([da, dl])
        pa, pl = a, l
    return bytes(out)


def linetable310(co):
    out = bytearray()
    prev = co.firstlineno
    ents = co.lines + [(co.end, None)]
    for (a, l), (b, _) in zip(ents[:-1], ents[1:]):
        d = b - a
        dl = l - prev
        prev = l
        while dl > 127:
            out += bytes([0, 127])
            dl -= 127
        while dl < -127:
            out += bytes([0, (-127) & 255])
            dl += 127
        while d > 254:
            out += bytes([254, dl & 255])
            dl = 0
            d -= 254
        out += bytes([d, dl & 255])
    return bytes(out)


def to_xdis(co):
    from xdis.codetype import Code2, Code3, Code38, Code310

    consts = tuple(to_xdis(c) if isinstance(c, CodeObj) else c for c in co.consts)
    triple = tuple(co.ver) + (0,)
    common = dict(co_nlocals=len(co.varnames), co_stacksize=100, co_flags=co.flags,
                  co_code=co.code, co_consts=consts, co_names=tuple(co.names),
                  co_varnames=tuple(co.varnames), co_filename=co.filename, co_name=co.name,
                  co_firstlineno=co.firstlineno, co_freevars=tuple(co.freevars),
                  co_cellvars=tuple(co.cellvars), version_triple=triple)
    if co.ver < (3, 0):
        return Code2(co_argcount=co.argcount, co_lnotab=lnotab(co), **common)
    if co.ver < (3, 8):
        return Code3(co_argcount=co.argcount, co_kwonlyargcount=co.kwonly,
                     co_lnotab=lnotab(co), **common)
    if co.ver < (3, 10):
        return Code38(co_argcount=co.argcount, co_posonlyargcount=co.posonly,
                      co_kwonlyargcount=co.kwonly, co_lnotab=lnotab(co), **common)
    return Code310(co_argcount=co.argcount, co_posonlyargcount=co.posonly,
                   co_kwonlyargcount=co.kwonly, co_linetable=linetable310(co), **common)
