"""numpy and math as seen by the code under test."""
import builtins
import math as _math
import numpy as np
from fractions import Fraction
from . import val as V
from .val import SV, SB, Ctx, Unsupported, to_sv, ite, lift
from . import tshim as TS


class NArr(np.ndarray):
    """object ndarray of symbolic elements"""
    sym_dt = None

    def __array_finalize__(self, o):
        self.sym_dt = getattr(o, "sym_dt", None)

    def astype(self, dt, *a, **k):
        if dt is object:
            return self.copy()
        d = TS.np_dt(dt)
        r = TS.emap(lambda x: TS.norm_el(x, d), np.asarray(self).view(np.ndarray)).view(NArr)
        r.sym_dt = d
        return r

    @property
    def T(self):
        return np.ndarray.transpose(self)

    def _t(self):
        return TS.Tensor(self.view(np.ndarray), self.sym_dt or TS.float64)

    def min(self, axis=None, **k):
        return _back(TS.FUNCS["amin"](self._t(), () if axis is None else axis))

    def max(self, axis=None, **k):
        return _back(TS.FUNCS["amax"](self._t(), () if axis is None else axis))

    def sum(self, axis=None, **k):
        return _back(TS.sum_(self._t(), axis))

    def mean(self, axis=None, **k):
        return _back(TS.mean(self._t(), axis))

    def std(self, axis=None, ddof=0, **k):
        return _back(TS.std(self._t(), axis, correction=ddof))

    def any(self, axis=None, **k):
        return _back(TS.any_(self._t(), axis))

    def all(self, axis=None, **k):
        return _back(TS.all_(self._t(), axis))

    def item(self, *a):
        if a:
            return self[a[0]]
        return self.view(np.ndarray).reshape(-1)[0]

    def __format__(self, spec):
        return format(self.item(), spec) if self.size == 1 else "<array>"

    def _cmp(self, o, op):
        r = TS._bin(op, self._t(), TS.T(o) if not isinstance(o, TS.Tensor) else o)
        return _back(r)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.view(np.ndarray).reshape(-1)[0])

    def __float__(self):
        return float(self.item())

    def __truediv__(self, o):
        return _back(TS._bin("div", self._t(), _tin(o)))

    def __rtruediv__(self, o):
        return _back(TS._bin("div", _tin(o), self._t()))


def _tin(o):
    return o if not isinstance(o, np.ndarray) else (o._t() if isinstance(o, NArr) else TS.from_any(o))


def _back(t):
    if isinstance(t, TS.Tensor):
        if t.a.ndim == 0:
            return t.item()
        if t.dt is TS.int64:
            # known integers are plain numpy integers (they may index plain arrays)
            els = [to_sv(x) if isinstance(x, SV) else x for x in t.a.reshape(-1)]
            if builtins.all(isinstance(x, (int, np.integer)) or (isinstance(x, SV) and x.is_const) for x in els):
                return np.array([int(x.cval) if isinstance(x, SV) else int(x) for x in els], dtype=np.int64).reshape(t.a.shape)
        r = t.a.view(NArr)
        r.sym_dt = t.dt
        return r
    return t


def _scalar(x):
    return x.item() if isinstance(x, (TS.Tensor, np.ndarray, np.generic)) else x


def has_sym(x, depth=0):
    if isinstance(x, (SV, SB, TS.Tensor, NArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 4:
        return builtins.any(has_sym(y, depth + 1) for y in x)
    return False


def np_asarray(x, dtype=None, **k):
    if has_sym(x):
        d = TS.np_dt(dtype) if dtype not in (None, object) else None
        if isinstance(x, NArr) and (d is None or d is x.sym_dt):
            return x
        t = TS.from_any(x._t() if isinstance(x, NArr) else x, d)
        if d is None and not isinstance(x, (TS.Tensor, NArr)) and t.dt is TS.float32:
            t = TS.Tensor(t.a, TS.float64)
        r = t.a.view(NArr)
        r.sym_dt = t.dt
        return r
    return np.asarray(x, dtype=dtype)


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
        return np.interp(x, xp, fp, left=left, right=right)
    xs = [to_sv(v) for v in np.asarray(xp, dtype=object).reshape(-1)]
    fs = [to_sv(v) for v in np.asarray(fp, dtype=object).reshape(-1)]
    n = len(xs)
    if n == 0:
        raise ValueError("array of sample points is empty")
    lf = fs[0] if left is None else to_sv(left)
    rf = fs[-1] if right is None else to_sv(right)

    # numpy locates the interval by binary search; with increasing xp this is the scan below.
    def one(v):
        v = to_sv(v)
        for i in range(n - 1):
            if not V.rel("<", xs[i] - xs[i + 1]) is True:
                if Ctx.explorer is not None and not Ctx.explorer.branch(xs[i] < xs[i + 1]):
                    # not increasing: numpy's answer is not the documented interpolation
                    return Ctx.explorer.fresh("interp_unsorted")
        r = ite(v > xs[-1], rf, fs[-1])
        for i in range(n - 2, -1, -1):
            slope = (fs[i + 1] - fs[i]) / (xs[i + 1] - xs[i])
            val = slope * (v - xs[i]) + fs[i]
            r = ite(v < xs[i + 1], val, r)
        return ite(v < xs[0], lf, r)
    a = x if isinstance(x, np.ndarray) else np_asarray(x)
    r = TS.emap(one, a.view(np.ndarray) if isinstance(a, NArr) else np.asarray(a, dtype=object))
    if r.ndim == 0 and not isinstance(x, np.ndarray):
        return r[()]
    r = r.view(NArr)
    r.sym_dt = TS.float64
    return r


def _wrap_fn(tname):
    def f(x, *a, **k):
        if has_sym(x) or builtins.any(has_sym(y) for y in a):
            if "axis" in k:
                k["dim"] = k.pop("axis")
            k.pop("keepdims", None)
            args = [_tin(np_asarray(y)) if isinstance(y, (list, tuple, np.ndarray)) else y for y in (x,) + a]
            if not isinstance(args[0], TS.Tensor):
                args[0] = TS.T(args[0])
            return _back(TS.FUNCS[tname](*args, **k))
        return getattr(np, tname if hasattr(np, tname) else tname)(x, *a, **k)
    return f


class _DT:
    """numpy scalar type that also accepts symbolic values"""

    def __init__(self, name):
        self._sym_name = {"bool_": "bool"}.get(name, name)
        self._np = getattr(np, name)
        self.__name__ = name
        self.dtype = np.dtype(self._np)          # lets numpy itself accept this object as a dtype

    def __call__(self, x=0):
        if has_sym(x):
            if isinstance(x, (SV, SB)):
                return TS.norm_el(x, TS.np_dt(self))
            return np_asarray(x, dtype=self)
        return self._np(x)


class NumpyModule:
    def __init__(self):
        d = self.__dict__
        d["__name__"] = "numpy"
        for n in ("float64", "float32", "float16", "int64", "int32", "int8", "uint8", "bool_"):
            d[n] = _DT(n)
        d.update(pi=np.pi, inf=np.inf, nan=np.nan, e=np.e, ndarray=np.ndarray, newaxis=None, integer=np.integer, floating=np.floating,
                 asarray=np_asarray, array=self._array, interp=np_interp, generic=np.generic, number=np.number)
        for n in ("abs", "sqrt", "exp", "log", "sum", "mean", "std", "var", "prod", "maximum", "minimum", "where", "clip", "any", "all",
                  "amax", "amin", "argmax", "argmin", "cumsum", "isnan", "isinf", "isfinite", "floor", "ceil", "square", "diff",
                  "logical_and", "logical_or", "logical_not", "sort", "argsort", "isclose", "allclose", "dot", "matmul", "sign",
                  "nan_to_num", "count_nonzero", "searchsorted", "round", "flip", "outer", "add", "multiply", "subtract", "divide", "power"):
            t = {"power": "pow"}.get(n, n)

            def mk(nn, tt):
                g = _wrap_fn(tt)

                def f(x, *a, **k):
                    if has_sym(x) or builtins.any(has_sym(y) for y in a):
                        return g(x, *a, **k)
                    return getattr(np, nn)(x, *a, **k)
                return f
            d[n] = mk(n, t)
        d["max"] = d["amax"]
        d["min"] = d["amin"]
        d["random"] = TS._NS("numpy.random", seed=lambda *a: None, default_rng=lambda *a: None)
        d["linalg"] = TS._NS("numpy.linalg")
        d["errstate"] = TS._CtxDeco
        d["set_printoptions"] = lambda **k: None

    @staticmethod
    def _array(x, dtype=None, copy=True, **k):
        if has_sym(x):
            r = np_asarray(x, dtype)
            return r.copy() if r is x else r
        return np.array(x, dtype=_realdt(dtype), **k)

    def savez_compressed(self, path, *a, **k):
        OUTPUTS.append(("npz", str(path), dict(k)))

    def savez(self, path, *a, **k):
        OUTPUTS.append(("npz", str(path), dict(k)))

    def save(self, path, arr, **k):
        OUTPUTS.append(("npy", str(path), arr))

    def array2string(self, *a, **k):
        return "<array>"

    def concatenate(self, xs, axis=0, **k):
        if has_sym(list(xs)):
            arrs = [np_asarray(x) for x in xs]
            ts = [a._t() if isinstance(a, NArr) else TS.from_any(a) for a in arrs]
            return _back(TS.cat(ts, axis))
        return np.concatenate(xs, axis)

    @staticmethod
    def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, **k):
        if not (has_sym(start) or has_sym(stop)):
            return np.linspace(start, stop, num, endpoint=endpoint, retstep=retstep, dtype=_realdt(dtype), **k)
        if retstep or k:
            raise Unsupported("numpy.linspace options on symbolic data")
        n = int(num)
        a, b = to_sv(_scalar(start)), to_sv(_scalar(stop))
        div = builtins.max(n - 1 if endpoint else n, 1)
        return np_asarray([a + (b - a) * i / div for i in range(n)], dtype=dtype or np.float64)

    @staticmethod
    def ptp(x, axis=None, **k):
        if not has_sym(x):
            return np.ptp(x, axis=axis, **k)
        x = np_asarray(x)
        return x.max(axis=axis) - x.min(axis=axis)

    def column_stack(self, xs):
        return self.stack(list(xs), 1) if builtins.all(np.ndim(x) == 1 for x in xs) else self.hstack(xs)

    @staticmethod
    def negative(x):
        return -np_asarray(x)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = getattr(np, n, None)
        if r is None:
            raise Unsupported("numpy.%s" % n)
        if isinstance(r, type) or not callable(r):
            return r

        def f(*a, **k):
            if "dtype" in k:
                k["dtype"] = _realdt(k["dtype"])
            a = tuple(_realdt(x) if isinstance(x, _DT) else x for x in a)
            if builtins.any(has_sym(x) for x in a) or builtins.any(has_sym(x) for x in k.values()):
                if n in ("zeros_like", "ones_like", "full_like", "empty_like"):
                    k.pop("dtype", None)
                    return _back(TS.FUNCS[n](_tin(np_asarray(a[0])), *a[1:]))
                if n in ("stack", "hstack", "vstack"):
                    ax = (k["axis"],) if "axis" in k else tuple(a[1:])
                    return _back(TS.FUNCS[n]([_tin(np_asarray(x)) for x in a[0]], *ax))
                if n in ("reshape", "transpose", "ravel", "squeeze", "expand_dims", "ascontiguousarray", "asfortranarray", "copy",
                         "broadcast_to", "swapaxes", "moveaxis", "take", "repeat", "tile", "roll", "shape", "ndim", "size", "array_equal"):
                    if n == "array_equal":
                        return bool(np_asarray(a[0])._cmp(a[1], "eq").all())
                    return r(*a, **k)
                raise Unsupported("numpy.%s on symbolic data" % n)
            return r(*a, **k)
        return f


OUTPUTS = []


def _realdt(d):
    if isinstance(d, _DT):
        return d._np
    if getattr(d, "_sym_float", False):
        return float
    if getattr(d, "_sym_int", False):
        return int
    return d


class MathModule:
    def __init__(self):
        self.__dict__["__name__"] = "math"

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = getattr(_math, n)
        if not callable(r):
            return r

        def f(*a):
            b = [x.item() if isinstance(x, TS.Tensor) else x for x in a]
            if builtins.any(isinstance(x, (SV, SB)) for x in b):
                if builtins.all(not isinstance(x, (SV, SB)) or (isinstance(x, SV) and x.is_const) for x in b):
                    if n in ("ceil", "floor", "trunc"):
                        return int(getattr(_math, n)(to_sv(b[0]).cval))
                    if n not in ("sqrt", "log", "exp", "pow", "fabs"):
                        q = r(*[float(x) if isinstance(x, SV) else x for x in b])
                        return q
                if n in ("sqrt", "log", "exp"):
                    if len(b) > 1:
                        return V.fn1("log", b[0]) / _math.log(float(b[1]))
                    return V.fn1(n, b[0])
                if n == "log10":
                    return V.fn1("log", b[0]) / _math.log(10)
                if n == "floor":
                    return V.floor(b[0])
                if n == "ceil":
                    return V.ceil(b[0])
                if n == "trunc":
                    return V.trunc(b[0])
                if n == "fabs":
                    return V.sabs(b[0])
                if n == "pow":
                    return to_sv(b[0]) ** b[1]
                if n in ("isnan", "isinf"):
                    return TS._is_divzero(b[0])
                if n == "isfinite":
                    return not TS._is_divzero(b[0])
                if n == "hypot":
                    return V.fn1("sqrt", to_sv(b[0]) * b[0] + to_sv(b[1]) * b[1])
                if n == "isclose":
                    return V.sabs(to_sv(b[0]) - b[1]) <= V.smax(V.sabs(b[0]), V.sabs(b[1])) * 1e-9
                raise Unsupported("math.%s" % n)
            if n in ("prod", "fsum") and has_sym(a[0]):
                acc = to_sv(1 if n == "prod" else 0)
                for x in a[0]:
                    acc = acc * x if n == "prod" else acc + x
                return acc
            return r(*a)
        return f
