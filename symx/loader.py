"""Loads /repo/weac from its current source with numpy, scipy, math and
matplotlib replaced by the symbolic shims.  Nothing is cached between runs."""
import builtins
import os
import sys
import types

import numpy as np

from . import npshim
from .plotrec import matplotlib_modules
from .sym import issym

REPO = os.environ.get("VERIF_REPO", "/repo")


_CODE = {}        # within one process; the source cannot change under it


class Loader:
    def __init__(self, tracker=None):
        self.mods = {}
        self.shims = {"numpy": npshim.numpy_module(), "math": npshim.math_module(),
                      "numpy.linalg": None, "IPython": None}
        self.shims.update(npshim.scipy_modules())
        self.shims["numpy.linalg"] = self.shims["numpy"].linalg
        self.recorder, mm = matplotlib_modules(self.shims["numpy"])
        self.shims.update(mm)
        self.builtins = self._builtins()

    def _builtins(self):
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["float"] = npshim.Float
        b["int"] = npshim.Int
        b["print"] = lambda *a, **k: None
        b["isinstance"] = self._isinstance
        b["complex"] = npshim.Complex
        b["max"] = self._max
        b["min"] = self._min
        b["round"] = self._round
        b["sum"] = self._sum
        return b

    @staticmethod
    def _sum(xs, start=0):
        t = start
        for x in xs:
            t = t + x
        return t

    @staticmethod
    def _round(x, nd=None):
        if issym(x):
            return x.__round__(nd)
        return builtins.round(x, nd) if nd is not None else builtins.round(x)

    @staticmethod
    def _max(*a, **k):
        if not k:
            xs = list(a[0]) if len(a) == 1 else list(a)
            if xs and all(not isinstance(x, np.ndarray) for x in xs) and any(issym(x) for x in xs):
                # a leading NaN stays, later ones lose every comparison
                if npshim._nan(xs[0]):
                    return xs[0]
                return npshim.extremum([x for x in xs if not npshim._nan(x)], True)
            if len(a) == 1:
                return builtins.max(xs)
        return builtins.max(*a, **k)

    @staticmethod
    def _min(*a, **k):
        if not k:
            xs = list(a[0]) if len(a) == 1 else list(a)
            if xs and all(not isinstance(x, np.ndarray) for x in xs) and any(issym(x) for x in xs):
                # a leading NaN stays, later ones lose every comparison
                if npshim._nan(xs[0]):
                    return xs[0]
                return npshim.extremum([x for x in xs if not npshim._nan(x)], False)
            if len(a) == 1:
                return builtins.min(xs)
        return builtins.min(*a, **k)

    @staticmethod
    def _isinstance(x, t):
        import numbers
        from .sym import Sym, SymBool
        if isinstance(x, Sym):
            ts = t if isinstance(t, tuple) else (t,)
            flat = []
            for u in ts:
                flat.extend(getattr(u, "__args__", (u,)) if isinstance(u, types.UnionType) else (u,))
            for u in flat:
                if u in (float, npshim.Float, np.floating, np.float64, np.number, numbers.Number, numbers.Real):
                    return True
                if u is Sym or u is object:
                    return True
            return False
        if isinstance(x, SymBool):
            ts = t if isinstance(t, tuple) else (t,)
            return any(u in (bool, np.bool_) for u in ts)
        return isinstance(x, t)

    # --- import machinery --------------------------------------------------

    def _find(self, name):
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rpartition(".")[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        path, pkg = self._find(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        code = _CODE.get(path)
        if code is None:
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
            code = _CODE[path] = compile(src, path, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:-(level - 1)]
            name = ".".join(parts + ([name] if name else []))
        top = name.split(".")[0]
        if top == "weac":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[top]
        if name in self.shims or top in self.shims:
            if top == "IPython":
                raise ImportError("IPython hidden")
            if name not in self.shims:
                return builtins.__import__(name, globals, locals, fromlist, 0)
            m = self.shims[name]
            if not fromlist:
                return self.shims[top]
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)
