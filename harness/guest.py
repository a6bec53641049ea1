"""What recorded programs can use of the host, and the canonical text of values.

The specification has the same definitions (PyBase: Canon, PyMachine: ProbeOp).
"""
import types


class PErr(Exception):
    """raised by the probes that fail"""


class P:
    """A host object that reports every operation on it.

    n: 0 true, 1 false, 2 every operation raises PErr, 3 __exit__ suppresses,
    4 __enter__ raises, 5 __exit__ raises.
    """

    __slots__ = ("_name", "_n")
    log = None  # where operations are reported

    made = {}  # one object for each name, as in the specification

    def __new__(cls, name, n=0):
        self = P.made.get((name, n))
        if self is None:
            self = P.made[name, n] = object.__new__(cls)
            object.__setattr__(self, "_name", name)
            object.__setattr__(self, "_n", n)
        return self

    def _op(self, text, val, fails=False):
        P.log.append("!" + text)
        if self._n == 2 or fails:
            raise PErr()
        return val

    def _new(self, text):
        return self._op(text, P("(" + text + ")"))

    def __hash__(self):
        return object.__hash__(self)

    def __str__(self):
        return "S:" + self._name

    def __repr__(self):
        return "R:" + self._name

    def __bool__(self):
        return self._op("bool(%s)" % self._name, self._n != 1)

    def __getitem__(self, i):
        t = "%s[%s]" % (self._name, canon(i))
        return self._op(t, P(t))

    def __setitem__(self, i, v):
        self._op("%s[%s]=%s" % (self._name, canon(i), canon(v)), None)

    def __delitem__(self, i):
        self._op("del %s[%s]" % (self._name, canon(i)), None)

    def __getattr__(self, a):
        if a not in ("x", "y", "z", "m", "u", "w"):
            raise AttributeError(a)
        t = "%s.%s" % (self._name, a)
        return self._op(t, P(t))

    def __setattr__(self, a, v):
        self._op("%s.%s=%s" % (self._name, a, canon(v)), None)

    def __delattr__(self, a):
        self._op("del %s.%s" % (self._name, a), None)

    def __call__(*args, **kw):
        self = args[0]
        t = "%s(%s)" % (self._name, ",".join(
            [canon(a) for a in args[1:]] + ["%s=%s" % (k, canon(v)) for k, v in kw.items()]))
        return self._op(t, P(t))

    def __contains__(self, v):
        return self._op("%s in %s" % (canon(v), self._name), self._n != 1)

    def __iter__(self):
        return self._op("iter(%s)" % self._name, PIter(self._name))

    def __enter__(self):
        return self._op("enter(%s)" % self._name, P(self._name + "^"), self._n == 4)

    def __exit__(self, t, v, tb):
        text = "exit(%s,%s)" % (self._name, "None" if t is None else
                                getattr(t, "__name__", canon(t)))
        if (t is None) != (v is None) or (t is None and tb is not None):
            text += "?"
        elif t is not None and not isinstance(v, t):
            text += "?"
        return self._op(text, self._n == 3, self._n == 5)


def _binary(dunder, sym):
    def op(self, other, *more):
        return self._new("%s%s%s" % (self._name, sym, canon(other)))

    def rop(self, other, *more):
        return self._new("%s%s%s" % (canon(other), sym, self._name))

    def iop(self, other):
        return self._new("%s%s=%s" % (self._name, sym, canon(other)))

    setattr(P, "__%s__" % dunder, op)
    setattr(P, "__r%s__" % dunder, rop)
    setattr(P, "__i%s__" % dunder, iop)


for _d, _s in [("add", "+"), ("div", "/"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"),
               ("mod", "%"), ("pow", "**"), ("lshift", "<<"), ("rshift", ">>"), ("and", "&"),
               ("or", "|"), ("xor", "^"), ("matmul", "@")]:
    _binary(_d, _s)


def _compare(dunder, sym):
    def op(self, other):
        return self._new("%s%s%s" % (self._name, sym, canon(other)))
    setattr(P, "__%s__" % dunder, op)


for _d, _s in [("lt", "<"), ("le", "<="), ("eq", "=="), ("ne", "!="), ("gt", ">"), ("ge", ">=")]:
    _compare(_d, _s)


def _unary(dunder, sym):
    def op(self):
        return self._new("%s%s" % (sym, self._name))
    setattr(P, "__%s__" % dunder, op)


for _d, _s in [("neg", "-"), ("pos", "+"), ("invert", "~")]:
    _unary(_d, _s)


class PIter:
    def __init__(self, name):
        self.name = name
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        P.log.append("!next(%s)" % self.name)
        if self.i >= 2:
            raise StopIteration
        self.i += 1
        return P("%s.%d" % (self.name, self.i - 1))


HOST_EXCEPTIONS = None


def _sortkey(v):
    return (isinstance(v, str), v)


TMRO = type.__dict__["__mro__"].__get__
TDICT = type.__dict__["__dict__"].__get__
tname = type.__dict__["__name__"].__get__


def tmodule(t):
    """t.__module__, asking no metaclass."""
    try:
        return type.__dict__["__module__"].__get__(t)
    except AttributeError:
        return ""


def canon(v, depth=0):
    """The canonical text of a value; runs nothing of the program's."""
    t = type(v)
    if v is None or t is bool or t is int:
        return str(v)
    if depth > 8:
        return "..."
    if t is P:
        return object.__getattribute__(v, "_name")
    if t is str or tname(t) == "UnicodeForPython3":
        return "'%s'" % str(v)
    d = depth + 1
    if t is tuple:
        return "T(" + ",".join(canon(x, d) for x in v) + ")"
    if t is list:
        return "L[" + ",".join(canon(x, d) for x in v) + "]"
    if t is dict:
        return "D{" + ",".join(canon(k, d) + ":" + canon(x, d) for k, x in v.items()) + "}"
    if t is set or t is frozenset:
        return "S{" + ",".join(canon(x, d) for x in sorted(v, key=_sortkey)) + "}"
    if t is slice:
        return "slice(%s,%s,%s)" % (canon(v.start), canon(v.stop), canon(v.step))
    if t is range:
        return "range(%s,%s,%s)" % (v.start, v.stop, v.step)
    if v is Ellipsis:
        return "Ellipsis"
    if v is NotImplemented:
        return "NotImplemented"
    if any(k is type for k in TMRO(t)):
        return "<cls %s>" % tname(v)
    if t is types.BuiltinFunctionType or t is types.BuiltinMethodType:
        return "<bf>"
    if tname(t) == "Traceback24":
        return "<tb>"
    if tmodule(t) == "xpython.pyobj":
        n = tname(t)
        if n == "Function":
            return "<fn %s>" % v.__name__
        if n == "Method":
            return "<meth %s>" % canon_name(v.im_func)
        if n == "Cell":
            return "<cell>"
        if n == "Generator":
            return "<gen %s>" % v.gi_frame_name if hasattr(v, "gi_frame_name") else \
                "<gen %s>" % getattr(v, "__name__", "?")
        if n == "Traceback":
            return "<tb>"
        return "<%s>" % n
    if t is types.MethodType:
        return "<meth %s>" % canon_name(v.__func__)
    if t is types.FunctionType:
        return "<bf>" if getattr(v, "host", False) else "<fn %s>" % v.__name__
    if t is types.ModuleType:
        return "<mod %s>" % v.__name__
    if t is types.TracebackType:
        return "<tb>"
    if t is types.CodeType or tname(t).startswith("Code"):
        return "<code>"
    if t is staticmethod:
        return "<smeth>"
    if t is classmethod:
        return "<cmeth>"
    if t is property:
        return "<prop>"
    if t is super:
        return "<super>"
    if any(k is BaseException for k in TMRO(t)):
        if tmodule(t) == "builtins" or t is PErr:
            return "<E %s>" % tname(t)
        return "<E %s(%s)>" % (tname(t), ",".join(canon(a, d) for a in BaseException.args.__get__(v)))
    if any("__next__" in TDICT(k) for k in TMRO(t)) and (tmodule(t) == "builtins" or t is PIter):
        return "<iter>"
    if tmodule(t) == "builtins" and t is not object:
        return "<%s>" % tname(t)
    return "<I %s>" % tname(t)


def canon_name(f):
    return getattr(f, "__name__", "?")
