"""Load the repository's modules from their current source, with torch/numpy/math and the
outside world replaced by the symbolic stand-ins."""
import builtins
import copy
import io
import json as _json
import os as _os
import re as _re
import sys
import types
from fractions import Fraction
from . import val as V
from .val import SV, SB, Unsupported, to_sv
from . import tshim as TS
from . import nshim as NS

SRC = _os.environ.get("VERIF_REPO", "/repo") + "/src"


# ----------------------------------------------------------------- builtins
class _FMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, SV) and not (V.is_integral(o) and not o.is_const))

    def __subclasscheck__(cls, o):
        return o is cls or issubclass(o, float)

    def __call__(cls, x=0.0):
        if isinstance(x, TS.Tensor):
            x = x.item()
        if isinstance(x, NS.NArr):
            x = x.item()
        if isinstance(x, SV):
            return x
        if isinstance(x, SB):
            return V.lift(x)
        if isinstance(x, str) and x in TOKENS:
            return TOKENS[x]
        return float(x)

    def __getattr__(cls, n):
        return getattr(float, n)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class _Float(metaclass=_FMeta):
    _sym_float = True
    _sym_name = "float64"


class _IMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, SV) and not o.is_const and V.is_integral(o))

    def __subclasscheck__(cls, o):
        return o is cls or issubclass(o, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, TS.Tensor):
            x = x.item()
        if isinstance(x, NS.NArr):
            x = x.item()
        if isinstance(x, SV):
            if x.is_const:
                return int(x.cval)
            if TS._is_divzero(x):
                raise ValueError("cannot convert float NaN to integer")
            return V.trunc(x)
        if isinstance(x, SB):
            return V.lift(x)
        if isinstance(x, str) and x in TOKENS:
            return TOKENS[x]
        return int(x, *a)

    def __getattr__(cls, n):
        return getattr(int, n)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class _Int(metaclass=_IMeta):
    _sym_int = True
    _sym_name = "int64"


TOKENS = {}          # digit strings standing for symbolic integers inside file names


def _symish(x):
    return isinstance(x, (SV, SB)) or (isinstance(x, TS.Tensor) and x.a.size == 1) or (isinstance(x, NS.NArr) and x.size == 1)


def _sc(x):
    return x.item() if isinstance(x, (TS.Tensor, NS.NArr)) else x


def _whole(x):
    return type(x) is int or (isinstance(x, SV) and V.is_integral(x))


def _minmax(name):
    real = getattr(builtins, name)
    fold = V.smin if name == "min" else V.smax

    def f(*a, **k):
        if len(a) == 1:
            xs = list(a[0])
        else:
            xs = list(a)
        if k.get("key") is None and xs and builtins.any(_symish(x) for x in xs) and \
                builtins.all(isinstance(_sc(x), (int, float, Fraction, SV, SB)) for x in xs):
            r = _sc(xs[0])
            tens = builtins.any(isinstance(x, TS.Tensor) for x in xs)
            for x in xs[1:]:
                x = _sc(x)
                if not tens and _whole(r) and _whole(x):     # counts steer loops: decide, as the comparison they stand for would
                    r = x if ((x < r) if name == "min" else (x > r)) else r
                else:
                    r = fold(r, x)
            if tens:
                dt = next(x.dt for x in xs if isinstance(x, TS.Tensor))
                return TS.Tensor(TS.scal(to_sv(r)), dt)
            return r
        if not xs and "default" in k:
            return k["default"]
        return real(*a, **k)
    return f


def _round(x, nd=None):
    if isinstance(x, TS.Tensor):
        x = x.item()
    if isinstance(x, SV):
        if nd is not None:
            if not x.is_const:
                sc = 10 ** nd
                return V.floor(x * sc + Fraction(1, 2)) / sc
            return V.SV.const(builtins.round(x.cval, nd))
        return x.__round__()
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


# ----------------------------------------------------------------- virtual files
class VStr(str):
    data = None


class VFile(io.StringIO):
    def __init__(self, vfs, path, mode):
        self.vfs, self.path, self.mode = vfs, path, mode
        self.obj = vfs.files.get(path)
        super().__init__("")
        if "w" in mode or "a" in mode or "x" in mode:
            vfs.written.setdefault(path, [])

    def read(self, *a):
        if isinstance(self.obj, str):
            return self.obj
        s = VStr("{}")
        s.data = self.obj
        return s

    def write(self, s):
        self.vfs.written[self.path].append(s)
        return len(s)

    def close(self):
        pass


class VFS:
    def __init__(self):
        self.files = {}
        self.dirs = {}
        self.written = {}

    def open(self, path, mode="r", *a, **k):
        path = str(path)
        if any(c in mode for c in "wax"):
            return VFile(self, path, mode)
        if path in self.files:
            return VFile(self, path, mode)
        raise FileNotFoundError(path)


class _Json:
    JSONDecodeError = _json.JSONDecodeError

    def __init__(self, vfs):
        self.vfs = vfs

    def load(self, f, **k):
        if isinstance(f, VFile):
            if isinstance(f.obj, str):
                return _json.loads(f.obj)
            return copy.deepcopy(f.obj)
        return _json.load(f, **k)

    def loads(self, s, **k):
        if isinstance(s, VStr):
            return copy.deepcopy(s.data)
        return _json.loads(s, **k)

    def dump(self, obj, f, **k):
        if isinstance(f, VFile):
            f.vfs.files[f.path] = _pyify(obj)
            return
        _json.dump(obj, f, **k)

    def dumps(self, obj, **k):
        s = VStr("{}")
        s.data = _pyify(obj)
        return s


def _pyify(o):
    if isinstance(o, dict):
        return {k: _pyify(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_pyify(v) for v in o]
    return o


class _Path:
    def __init__(self, vfs):
        self.vfs = vfs

    def exists(self, p):
        p = str(p)
        return p in self.vfs.files or p in self.vfs.dirs or p in self.vfs.written

    isfile = exists

    def isdir(self, p):
        return str(p) in self.vfs.dirs

    def __getattr__(self, n):
        return getattr(_os.path, n)


class _Os:
    def __init__(self, vfs):
        self.vfs = vfs
        self.path = _Path(vfs)
        self.sep = "/"
        self.environ = {}
        self.name = "posix"
        self.linesep = "\n"

    def listdir(self, p="."):
        return list(self.vfs.dirs.get(str(p), []))

    def makedirs(self, p, *a, **k):
        self.vfs.dirs.setdefault(str(p), [])

    mkdir = makedirs

    def getenv(self, k, d=None):
        return d

    def getcwd(self):
        return "/work"

    def fspath(self, p):
        return str(p)

    def __getattr__(self, n):
        raise Unsupported("os." + n)


class _Glob:
    def __init__(self, vfs):
        self.vfs = vfs

    def glob(self, pat, **k):
        import fnmatch
        d, b = _os.path.split(pat)
        return [d + "/" + f for f in self.vfs.dirs.get(d, []) if fnmatch.fnmatch(f, b)]

    def iglob(self, pat, **k):
        return iter(self.glob(pat))


class _TimeMod:
    def time(self):
        return 0.0
    perf_counter = monotonic = process_time = time

    def strftime(self, *a):
        return "t"

    def sleep(self, *a):
        pass


class _DT:
    @staticmethod
    def now(*a):
        return _DT()
    utcnow = now
    today = now

    def strftime(self, *a):
        return "TIMESTAMP"

    def isoformat(self, *a):
        return "TIMESTAMP"

    def timestamp(self):
        return 0.0

    def __sub__(self, o):
        return self

    def total_seconds(self):
        return 0.0


class Stub:
    """inert external object"""
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Stub(self._n + "." + n)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        if self._n.endswith(".subplots"):
            nums = [x for x in a if isinstance(x, int)] or [1]
            n = 1
            for x in nums:
                n *= x
            return Stub("fig"), (Stub("ax") if n == 1 else tuple(Stub("ax") for _ in range(n)))
        return Stub(self._n + "()")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(())


class UStub:
    """external object whose use cannot be encoded"""
    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return UStub(self._n + "." + n)

    def __call__(self, *a, **k):
        raise Unsupported(self._n)


class _GymEnv:
    metadata = {}
    np_random = None

    def reset(self, *, seed=None, options=None):
        self._seed = seed

    def __class_getitem__(cls, k):
        return cls


class _Box:
    def __init__(self, low=None, high=None, shape=None, dtype=None, **k):
        self.low, self.high, self.shape, self.dtype = low, high, shape, dtype


def _passthru(mod):
    return mod


PASS = {"re", "datetime", "collections", "functools", "itertools", "typing", "dataclasses", "copy", "abc", "enum",
        "operator", "string", "textwrap", "warnings", "contextlib", "sys", "numbers", "types", "fractions", "__future__",
        "traceback", "collections.abc", "argparse", "logging", "bisect", "heapq", "inspect", "weakref", "statistics"}


class Loader:
    def __init__(self, src=None, vfs=None, ext=None):
        self.src = src or SRC
        self.vfs = vfs or VFS()
        self.reg = {}
        self.torch = TS.TorchModule()
        self.np = NS.NumpyModule()
        self.math = NS.MathModule()
        gym = types.SimpleNamespace(Env=_GymEnv, spaces=types.SimpleNamespace(Box=_Box, Discrete=_Box), Wrapper=object)
        import datetime
        dtm = types.SimpleNamespace(datetime=_DT, timedelta=datetime.timedelta, date=_DT, timezone=datetime.timezone)
        self.ext = {
            "torch": self.torch, "numpy": self.np, "math": self.math,
            "matplotlib": Stub("matplotlib"), "scipy": UStub("scipy"), "tqdm": types.SimpleNamespace(tqdm=lambda it, *a, **k: it, trange=lambda n, **k: range(n)),
            "imageio": Stub("imageio"), "vtk": None, "vtkmodules": None, "pyevtk": Stub("pyevtk"),
            "gymnasium": gym, "gym": gym, "time": _TimeMod(), "datetime": dtm, "json": _Json(self.vfs), "os": _Os(self.vfs),
            "glob": _Glob(self.vfs), "logging": Stub("logging"), "random": UStub("random"), "pathlib": UStub("pathlib"),
            "argparse": Stub("argparse"), "pandas": None, "triton": None, "cupy": None, "pyamg": None,
        }
        if ext:
            self.ext.update(ext)
        b = dict(builtins.__dict__)
        b.update(__import__=self._import, float=_Float, int=_Int, min=_minmax("min"), max=_minmax("max"), round=_round,
                 print=lambda *a, **k: None, open=self.vfs.open, input=None)
        self.builtins = b

    # -- import machinery
    def find(self, name):
        p = _os.path.join(self.src, *name.split("."))
        if _os.path.isfile(p + ".py"):
            return p + ".py", False
        if _os.path.isdir(p):
            i = _os.path.join(p, "__init__.py")
            return (i if _os.path.isfile(i) else None), True
        return None

    def load(self, name):
        m = self.reg.get(name)
        if m is not None:
            return m
        f = self.find(name)
        if f is None:
            raise ImportError("no module " + name)
        path, ispkg = f
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path or ""
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = []
        self.reg[name] = m
        par, _, leaf = name.rpartition(".")
        if par:
            setattr(self.load(par), leaf, m)
        if path:
            with open(path, encoding="utf-8") as fh:
                code = compile(fh.read(), path, "exec")
            try:
                exec(code, m.__dict__)
            except Exception:
                self.reg.pop(name, None)
                raise
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".") if pkg else []
            if level - 1 > len(parts) or (level - 1 == len(parts)):
                raise ImportError("attempted relative import beyond top-level package")
            base = parts[:len(parts) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
            m = self.load(full)
            for n in fromlist or ():
                if n != "*" and not hasattr(m, n) and self.find(full + "." + n):
                    self.load(full + "." + n)
            return m
        top = name.split(".")[0]
        if name in self.ext or top in self.ext:
            if name in self.ext and self.ext[name] is not None and (fromlist or "." not in name):
                return self.ext[name]
            m = self.ext.get(top)
            if m is None:
                raise ImportError("No module named '%s'" % name)
            if not fromlist:
                return m
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m
        if self.find(name):
            m = self.load(name)
            if fromlist:
                for n in fromlist:
                    if n != "*" and not hasattr(m, n) and self.find(name + "." + n):
                        self.load(name + "." + n)
                return m
            return self.load(top)
        if top == "src" and self.find(name[4:] or "."):
            return self.load(name[4:])
        if name in PASS or top in PASS:
            return __import__(name, globals, locals, fromlist, level)
        raise ImportError("No module named '%s'" % name)
