"""The modules that recorded programs can import.

MODULES describes them; tlc.py hands the description to the specification, the finder below makes
the modules for the host, which executes them.
"""
import importlib.abc
import importlib.machinery
import sys

import guest


class Bf:
    """a builtin function of the host"""

    def __init__(self, name):
        self.name = name


class Exc:
    """a builtin class of the host"""

    def __init__(self, name):
        self.name = name


# d: attributes; pkg: is a package; pre: what its code imports before it sets the attributes;
# fail: the exception its code ends with; dyn: it has a __getattr__ that knows some names
MODULES = {
    "xa": dict(d=dict(x=1, y="why", _z=3, len=Bf("len"), t=(1, (2, "three")), n=None, E=Exc("KeyError"))),
    "xall": dict(d=dict(__all__=("p", "_q", "p"), p=5, _q=6, r=7)),
    "xbadall": dict(d=dict(__all__=["p", "nope", "r"], p=8, r=9)),
    "xnoall": dict(d=dict(__all__=(), p=5)),
    "xfail": dict(d=dict(x=1), fail="ValueError"),
    "xfail2": dict(d=dict(x=1), fail="ImportError"),
    "xlate": dict(d=dict(z=11), pre=["xa", "xp.q"]),
    "xneeds": dict(d=dict(x=1), pre=["xall", "xmissing"]),
    "xneedsfail": dict(d=dict(x=1), pre=["xp.a", "xp.bad"]),
    "xcirc": dict(d=dict(x=1), pre=["xcirc2"]),
    "xcirc2": dict(d=dict(x=2), pre=["xcirc"]),
    "xdyn": dict(d=dict(x=1), dyn=("here", "there")),
    "xp": dict(pkg=True, d=dict(v=10, shadow="attr", __all__=("v", "b", "shadow"))),
    "xp.a": dict(d=dict(x=21, a=22)),
    "xp.b": dict(d=dict(x=31), pre=["xp.a"]),
    "xp.bad": dict(d=dict(x=1), fail="KeyError"),
    "xp.needs": dict(d=dict(x=1), pre=["xp.nothing"]),
    "xp.shadow": dict(d=dict(x=41)),
    "xp.q": dict(pkg=True, d=dict(w=12)),
    "xp.q.r": dict(d=dict(x=51, y=52)),
    "xp.q.s": dict(d=dict(x=61), pre=["xp.q.r", "xa"]),
    "xf": dict(pkg=True, d=dict(v=1), fail="ValueError"),
    "xf.a": dict(d=dict(x=1)),
    "xs": dict(pkg=True, d=dict(__all__=["one", "two"], k=3)),
    "xs.one": dict(d=dict(x=71)),
    "xs.two": dict(d=dict(x=81)),
}


def real(v):
    import builtins
    if isinstance(v, (Bf, Exc)):
        return getattr(builtins, v.name)
    return v


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        m = MODULES.get(name)
        if m is None:
            return None
        return importlib.machinery.ModuleSpec(name, self, is_package=bool(m.get("pkg")))

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        import builtins
        name = module.__name__
        m = MODULES[name]
        guest.P.log.append("load " + name)
        for x in m.get("pre", ()):
            __import__(x)
        if m.get("dyn"):
            def dyn(a):
                if not a.startswith("__"):
                    guest.P.log.append("getattr %s.%s" % (name, a))
                if a in m["dyn"]:
                    return name + "." + a
                raise AttributeError(a)
            module.__getattr__ = dyn
        for k, v in m["d"].items():
            setattr(module, k, real(v))
        if m.get("fail"):
            raise getattr(builtins, m["fail"])()


def fresh():
    """No such module has been imported yet."""
    for name in [x for x in sys.modules if x in MODULES]:
        del sys.modules[name]
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


def value(v, plain):
    if isinstance(v, Bf):
        return {"k": "bf", "n": 0, "s": v.name}
    if isinstance(v, Exc):
        return {"k": "bcls", "n": 0, "s": v.name}
    if isinstance(v, list):
        v = tuple(v)  # only __all__
    return plain(v)


def table(plain):
    out = {"sys": {"d": [["exc_info", {"k": "bf", "n": 0, "s": "exc_info"}],
                         ["exit", {"k": "bf", "n": 0, "s": "exit"}]],
                   "pkg": False, "pre": [], "fail": "", "dyn": []}}
    for name, m in MODULES.items():
        d = [[k, value(v, plain)] for k, v in m["d"].items()]
        out[name] = {"d": [["__name__", plain(name)]] + d, "pkg": bool(m.get("pkg")),
                     "pre": list(m.get("pre", ())), "fail": m.get("fail", ""),
                     "dyn": list(m.get("dyn", ()))}
    return out


def strings():
    acc = set(MODULES)
    for m in MODULES.values():
        acc |= set(m["d"])
        acc |= {v for v in m["d"].values() if isinstance(v, str)}
    return acc
