"""Loads SALib modules from /repo/src through the mechanical transformation."""
import ast
import os
import types
from .core import *
from . import trans, libs, npshim

REPO = os.environ.get("SALIB_REPO", "/repo")
SRC = os.path.join(REPO, "src")

_code_cache = {}


class Module(types.SimpleNamespace):
    pass


class Loader:
    """One Loader per check; modules share state like the real package."""

    def __init__(self):
        self.mods = {}
        self.stubs = {}  # (module, name) -> value put in place after loading
        self.lib = {
            "numpy": npshim, "numpy.random": npshim.random, "numpy.linalg": libs.NS("numpy.linalg", norm=lambda x: (_ for _ in ()).throw(Unsupported("norm"))),
            "math": libs.math_ns, "scipy": libs.scipy_ns, "scipy.stats": libs.stats_ns, "pandas": libs.pd_ns,
            "scipy.spatial": libs.spatial_ns, "scipy.spatial.distance": libs.spatial_ns.distance,
            "warnings": libs.warnings_ns, "itertools": libs.itertools_ns, "functools": libs.functools_ns,
            "scipy.stats.qmc": libs.stats_ns.qmc, "scipy.linalg": libs.linalg_ns,
        }
        self.used = {}  # function qualname -> times entered (for evidence)
        self.builtins = libs.make_builtins(self._import)

    def path(self, name):
        p = os.path.join(SRC, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        import builtins
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[: len(pkg) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        if full == "SALib" or full.startswith("SALib."):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        sub = full + "." + f
                        if os.path.exists(self.path(sub)[0]):
                            setattr(m, f, self.load(sub))
                        elif full == "SALib" and f == "ProblemSpec":
                            setattr(m, f, self.load("SALib.util").ProblemSpec)
                return m
            return self.load(full.split(".")[0])
        if full in self.lib:
            if fromlist:
                return self.lib[full]
            return self.lib[full.split(".")[0]]
        top = full.split(".")[0]
        if top in ("typing", "types", "__future__", "collections", "copy", "abc", "re", "csv", "io", "os", "sys", "argparse", "time", "pkgutil", "importlib", "inspect", "operator", "enum", "dataclasses", "string", "textwrap", "contextlib"):
            if top in ("argparse", "os", "csv", "pkgutil", "time", "importlib", "io"):
                return libs.NS(full)
            return builtins.__import__(name, globals, locals, fromlist, level)
        if top in self.lib and not fromlist:
            return self.lib[top]
        return libs.NS(full)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p, ispkg = self.path(name)
        if not os.path.exists(p):
            raise ImportError(name)
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        m = Module()
        m.__name__ = name
        self.mods[name] = m
        if "." in name:
            if not hasattr(self.mods[parent], leaf):
                setattr(self.mods[parent], leaf, m)
        g = m.__dict__
        g["__builtins__"] = self.builtins
        g["__package__"] = name if ispkg else name.rsplit(".", 1)[0]
        g["__file__"] = p
        if ispkg and name == "SALib":
            return self._finish(m)
        if name.endswith(".directions"):
            g["directions"] = npshim.Arr.__new__(npshim.Arr)
            g["directions"] = DirTable()
            return self._finish(m)
        src = open(p).read()
        key = (p, src)
        if key not in _code_cache:
            tree = trans.transform(src, p)
            _code_cache[key] = compile(tree, p, "exec")
        exec(_code_cache[key], g)
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            if parent in self.mods:
                setattr(self.mods[parent], leaf, m)
        return self._finish(m)

    def _finish(self, m):
        for (mod, nm), v in self.stubs.items():
            if mod == m.__name__ and hasattr(m, nm):
                setattr(m, nm, v)
        return m

    def stub(self, mod, name, value, everywhere=True):
        """Replace a callee by its contract, in its module and every importer."""
        m = self.load(mod)
        if not hasattr(m, name):
            raise Unsupported(f"{mod}.{name} no longer exists")
        orig = getattr(m, name)
        setattr(m, name, value)
        for o in list(self.mods.values()):
            for k, v in list(o.__dict__.items()):
                if v is orig:
                    setattr(o, k, value)
        return orig


class DirTable:
    """stand-in for the 21201-row table; contracts install their own model"""

    def __getitem__(self, k):
        raise Unsupported("direction table")

    def length(self):
        raise Unsupported("direction table")
