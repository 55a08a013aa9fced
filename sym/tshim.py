"""Symbolic stand-in for the parts of torch the simulator uses (and reasonable neighbours).

Tensors hold numpy object arrays (so views alias exactly as torch views do) of SV / int /
SB elements.  Floats are exact reals; dtype is tracked, rounding is not.
"""
import builtins
import functools
import math as _math
from collections import namedtuple
from fractions import Fraction
import numpy as np
from . import val as V
from .val import SV, SB, Ctx, Unsupported, to_sv, to_b, bnot, band, bor, ite, lift


class DType:
    def __init__(self, name, cat, bits):
        self.name, self.cat, self.bits = name, cat, bits

    @property
    def is_floating_point(self):
        return self.cat == 2

    @property
    def is_complex(self):
        return False

    @property
    def itemsize(self):
        return self.bits // 8

    def __repr__(self):
        return "torch." + self.name


float64 = double = DType("float64", 2, 64)
float32 = DType("float32", 2, 32)
float16 = half = DType("float16", 2, 16)
bfloat16 = DType("bfloat16", 2, 16)
int64 = long = DType("int64", 1, 64)
int32 = DType("int32", 1, 32)
int16 = DType("int16", 1, 16)
int8 = DType("int8", 1, 8)
uint8 = DType("uint8", 1, 8)
bool_ = DType("bool", 0, 8)
DTYPES = {d.name: d for d in (float64, float32, float16, bfloat16, int64, int32, int16, int8, uint8, bool_)}
_default = [float32]


def np_dt(d):
    """map a numpy / python dtype to ours"""
    if d is None or isinstance(d, DType):
        return d
    n = getattr(d, "_sym_name", None) or getattr(d, "__name__", None) or getattr(d, "name", None) or str(d)
    n = {"float": "float64", "int": "int64", "bool": "bool", "bool_": "bool", "_Float": "float64", "_Int": "int64"}.get(n, n)
    if n in DTYPES:
        return DTYPES[n]
    raise Unsupported("dtype %r" % (d,))


class device:
    def __init__(self, t="cpu", index=None):
        if isinstance(t, device):
            t = t.type
        t = str(t)
        self.type, _, i = t.partition(":")
        self.index = int(i) if i else index

    def __str__(self):
        return self.type

    __repr__ = __str__

    def __eq__(self, o):
        if isinstance(o, str):
            o = device(o)
        return isinstance(o, device) and o.type == self.type

    def __hash__(self):
        return hash(self.type)


CPU = device("cpu")


class Size(tuple):
    def numel(self):
        n = 1
        for x in self:
            n *= x
        return n


strided, sparse_coo, sparse_csr = "torch.strided", "torch.sparse_coo", "torch.sparse_csr"


# --------------------------------------------------------------- element helpers
def norm_el(x, dt):
    """bring a python/np/SV/SB scalar into the canonical element form for dtype dt"""
    if isinstance(x, Tensor):
        x = x.item()
    if dt.cat == 2:
        if isinstance(x, SV):
            return x
        if isinstance(x, float) and (x != x or x in (V.INF, -V.INF)):
            if x == V.INF:
                return BIG
            if x == -V.INF:
                return -BIG
            return NANV()
        return to_sv(x)
    if dt.cat == 1:
        if isinstance(x, SV):
            if x.is_const:
                c = x.cval
                return int(c) if c.denominator == 1 else int(_math.trunc(c))
            return x if V.is_integral(x) else V.trunc(x)
        if isinstance(x, SB):
            return lift(x)
        if isinstance(x, (bool, np.bool_)):
            return int(x)
        return int(x)
    return to_b(x)


BIG = V.SV.const(Fraction(10) ** 60)      # stands for +inf in reductions / sentinels


def NANV():
    ex = Ctx.explorer
    if ex is None:
        raise Unsupported("nan")
    ex.note_divzero()
    return ex.fresh("divzero")


def _is_divzero(x):
    if not isinstance(x, SV):
        return False
    for m in x.t:
        for aid, e in m:
            a = V.ATOMS[aid]
            if a.kind == "var" and a.name.startswith("divzero"):
                return True
    return False


def obj(shape):
    return np.empty(shape, dtype=object)


def fromlist(flat, shape):
    a = np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        a[i] = x
    return a.reshape(shape)


def scal(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def asarr(x):
    """np.frompyfunc returns bare objects for 0-d inputs"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    return scal(x)


def emap(f, *arrs):
    Ctx.in_tensor += 1
    try:
        return asarr(np.frompyfunc(f, len(arrs), 1)(*arrs))
    finally:
        Ctx.in_tensor -= 1


def cast_arr(a, src, dst):
    if src.cat == dst.cat:
        if src.cat == 2 or src is dst:
            return a.copy()
        return a.copy()
    return emap(lambda x: norm_el(x, dst), a)


def concrete_ints(t):
    """int tensor (or list) -> numpy intp array"""
    a = t.a if isinstance(t, Tensor) else np.asarray(t, dtype=object)
    out = np.empty(a.shape, dtype=np.intp)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        x = af[i]
        of[i] = V.concretise_int(x) if isinstance(x, SV) else int(x)
    return of.reshape(a.shape)


def concrete_bools(a):
    out = np.empty(a.shape, dtype=bool)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = bool(af[i])
    return of.reshape(a.shape)


def all_concrete_bool(a):
    return all(isinstance(x, (bool, np.bool_)) for x in a.reshape(-1))


# --------------------------------------------------------------- dtype promotion
def scalar_cat(x):
    if isinstance(x, (bool, SB, np.bool_)):
        return 0
    if isinstance(x, (int, np.integer)):
        return 1
    return 2


def result_dtype(*xs):
    """torch promotion: dimensioned tensors > 0-dim tensors > python scalars within a category"""
    best = {0: None, 1: None, 2: None}   # priority -> dtype
    for x in xs:
        if isinstance(x, Tensor):
            pr = 2 if x.a.ndim > 0 else 1
            d = x.dt
        elif isinstance(x, np.ndarray):
            pr, d = 2, (float64 if x.dtype == object else np_dt(x.dtype))
        else:
            pr = 0
            c = scalar_cat(x)
            d = _default[0] if c == 2 else int64 if c == 1 else bool_
        b = best[pr]
        if b is None or (d.cat, d.bits) > (b.cat, b.bits):
            best[pr] = d
    r = best[2]
    for pr in (1, 0):
        d = best[pr]
        if d is None:
            continue
        if r is None or d.cat > r.cat:
            r = d
    return r


def T(x, dt=None):
    """anything -> Tensor"""
    if isinstance(x, Tensor):
        return x if dt is None or x.dt is dt else Tensor(cast_arr(x.a, x.dt, dt), dt)
    if isinstance(x, np.ndarray):
        return from_any(x, dt)
    if isinstance(x, (list, tuple)):
        return from_any(x, dt)
    c = scalar_cat(x)
    d = dt or (_default[0] if c == 2 else int64 if c == 1 else bool_)
    return Tensor(scal(norm_el(x, d)), d)


def from_any(data, dt=None):
    if isinstance(data, Tensor):
        d = dt or data.dt
        return Tensor(cast_arr(data.a, data.dt, d), d)
    if isinstance(data, np.ndarray) and data.dtype != object:
        d0 = np_dt(data.dtype)
        d = dt or d0
        a = obj(data.shape)
        af, df = a.reshape(-1), data.reshape(-1)
        for i in range(df.size):
            af[i] = norm_el(df[i].item(), d)
        return Tensor(af.reshape(data.shape), d)

    def shape_of(x):
        if isinstance(x, (list, tuple)):
            if not x:
                return (0,)
            return (len(x),) + shape_of(x[0])
        if isinstance(x, (Tensor, np.ndarray)):
            return tuple(x.shape)
        return ()

    def flat(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                yield from flat(y)
        elif isinstance(x, Tensor):
            yield from x.a.reshape(-1)
        elif isinstance(x, np.ndarray):
            yield from x.reshape(-1)
        else:
            yield x
    fl = list(flat(data))
    if dt is None:
        if isinstance(data, np.ndarray):
            cats = [scalar_cat(x) for x in fl]
            mc = max(cats, default=2)
            dt = getattr(data, "sym_dt", None) or (float64 if mc == 2 else int64 if mc == 1 else bool_)
        else:
            cats = [scalar_cat(x) for x in fl]
            mc = max(cats, default=2)
            dt = _default[0] if mc == 2 else int64 if mc == 1 else bool_
    return Tensor(fromlist([norm_el(x, dt) for x in fl], shape_of(data)), dt)


# --------------------------------------------------------------- Tensor
class TensorMeta(type):
    pass


class Tensor(metaclass=TensorMeta):
    __array_priority__ = 2000
    is_sparse = False
    is_sparse_csr = False
    layout = strided
    requires_grad = False
    grad = None
    is_cuda = False

    def __init__(self, a, dt, dev=None):
        if not (isinstance(a, np.ndarray) and a.dtype == object):
            a = asarr(a)
        self.a = a
        self.dt = dt

    # -- attributes
    @property
    def dtype(self):
        return self.dt

    @property
    def device(self):
        return CPU

    @property
    def shape(self):
        return Size(self.a.shape)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def T(self):
        return Tensor(self.a.T, self.dt)

    @property
    def mT(self):
        return Tensor(np.swapaxes(self.a, -1, -2), self.dt)

    @property
    def data(self):
        return self

    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    def dim(self):
        return self.a.ndim
    ndimension = dim

    def numel(self):
        return self.a.size
    nelement = numel

    def stride(self, d=None):
        st = tuple(s // self.a.itemsize for s in self.a.strides)
        return st if d is None else st[d]

    def is_contiguous(self, **k):
        return bool(self.a.flags["C_CONTIGUOUS"])

    def element_size(self):
        return self.dt.bits // 8

    def data_ptr(self):
        return self.a.__array_interface__["data"][0]

    def is_floating_point(self):
        return self.dt.cat == 2

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return self.a.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __hash__(self):
        return id(self)

    # -- scalars
    def item(self):
        if self.a.size != 1:
            raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % self.a.size)
        return pyscalar(self.a.reshape(-1)[0], self.dt)

    def __bool__(self):
        if self.a.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        x = self.a.reshape(-1)[0]
        return bool(x)

    def __float__(self):
        return float(self.item())

    def __int__(self):
        x = self.item()
        return int(x)

    def __index__(self):
        if self.dt.cat == 2:
            raise TypeError("only integer tensors of a single element can be converted to an index")
        x = self.item()
        return V.concretise_int(x) if isinstance(x, SV) else int(x)

    def tolist(self):
        def rec(a):
            if a.ndim == 0:
                return pyscalar(a[()], self.dt)
            return [rec(np.asarray(a[i], dtype=object) if not isinstance(a[i], np.ndarray) else a[i])
                    if a.ndim > 1 else pyscalar(a[i], self.dt) for i in range(a.shape[0])]
        return rec(self.a)

    def numpy(self, **k):
        from .nshim import NArr
        r = self.a.view(NArr)
        r.sym_dt = self.dt
        return r

    def __array__(self, dtype=None, copy=None):
        from .nshim import NArr
        r = self.a.view(NArr)
        r.sym_dt = self.dt
        return r

    def __format__(self, spec):
        if self.a.ndim == 0:
            x = self.item()
            return format(x, spec) if isinstance(x, (SV, SB)) else format(x, spec)
        return "<tensor>"

    def __repr__(self):
        return "SymTensor(shape=%s, dtype=%s)" % (tuple(self.a.shape), self.dt)

    # -- indexing
    def __getitem__(self, idx):
        r = self.a[_index(idx, self.a.shape)]
        return Tensor(r if isinstance(r, np.ndarray) and r.dtype == object else scal(r), self.dt)

    def __setitem__(self, idx, val):
        _setitem(self, idx, val)

    def __delitem__(self, i):
        raise TypeError("tensor does not support deletion")

    def __contains__(self, x):
        return bool(eq(self, x).any())

    # -- arithmetic
    def __add__(self, o):
        return _bin("add", self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return _bin("sub", self, o)

    def __rsub__(self, o):
        return _bin("sub", o, self)

    def __mul__(self, o):
        return _bin("mul", self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return _bin("div", self, o)

    def __rtruediv__(self, o):
        return _bin("div", o, self)

    def __floordiv__(self, o):
        return _bin("floordiv", self, o)

    def __rfloordiv__(self, o):
        return _bin("floordiv", o, self)

    def __mod__(self, o):
        return _bin("mod", self, o)

    def __rmod__(self, o):
        return _bin("mod", o, self)

    def __pow__(self, o):
        return _bin("pow", self, o)

    def __rpow__(self, o):
        return _bin("pow", o, self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(T(o), self)

    def __neg__(self):
        return Tensor(emap(lambda x: -x, self.a), self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        if self.dt.cat == 0:
            return Tensor(emap(bnot, self.a), bool_)
        return Tensor(emap(lambda x: ~int(x), self.a), self.dt)

    def __and__(self, o):
        return _bin("and", self, o)
    __rand__ = __and__

    def __or__(self, o):
        return _bin("or", self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return _bin("xor", self, o)
    __rxor__ = __xor__

    def __lshift__(self, o):
        return Tensor(emap(lambda x, y: int(x) << int(y), self.a, T(o).a), self.dt)

    def __rshift__(self, o):
        return Tensor(emap(lambda x, y: int(x) >> int(y), self.a, T(o).a), self.dt)

    def __lt__(self, o):
        return _bin("lt", self, o)

    def __le__(self, o):
        return _bin("le", self, o)

    def __gt__(self, o):
        return _bin("gt", self, o)

    def __ge__(self, o):
        return _bin("ge", self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return _bin("eq", self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return _bin("ne", self, o)

    # -- in place
    def _assign(self, r):
        r = T(r)
        if r.dt.cat > self.dt.cat:
            raise RuntimeError("result type %s can't be cast to the desired output type %s" % (r.dt.name, self.dt.name))
        self.a[...] = cast_arr(r.a, r.dt, self.dt)
        return self

    def __iadd__(self, o):
        return self._assign(self + o)

    def __isub__(self, o):
        return self._assign(self - o)

    def __imul__(self, o):
        return self._assign(self * o)

    def __itruediv__(self, o):
        return self._assign(self / o)

    def __ifloordiv__(self, o):
        return self._assign(self // o)

    def __ipow__(self, o):
        return self._assign(self ** o)

    def __iand__(self, o):
        return self._assign(self & o)

    def __ior__(self, o):
        return self._assign(self | o)

    def __ixor__(self, o):
        return self._assign(self ^ o)

    def __imod__(self, o):
        return self._assign(self % o)

    def __deepcopy__(self, memo):
        return self.clone()

    # -- misc methods which are not plain functions
    def clone(self, **k):
        return Tensor(self.a.copy(), self.dt)

    def detach(self):
        return Tensor(self.a, self.dt)

    def cpu(self, *a, **k):
        return self

    def cuda(self, *a, **k):
        raise RuntimeError("no CUDA")

    def requires_grad_(self, *a):
        return self

    def contiguous(self, **k):
        return self if self.a.flags["C_CONTIGUOUS"] else Tensor(np.ascontiguousarray(self.a), self.dt)

    def to(self, *args, **kw):
        dt = kw.get("dtype")
        for x in args:
            if isinstance(x, DType):
                dt = x
            elif isinstance(x, Tensor):
                dt = x.dt
            elif x is not None and not isinstance(x, (device, str, bool)):
                dt = np_dt(x)
        dt = np_dt(dt)
        if dt is None or dt is self.dt:
            return Tensor(self.a.copy(), self.dt) if kw.get("copy") else self
        return Tensor(cast_arr(self.a, self.dt, dt), dt)

    def type(self, dt=None, **k):
        if dt is None:
            return "torch.Tensor"
        return self.to(np_dt(dt))

    def type_as(self, o):
        return self.to(o.dt)

    def double(self):
        return self.to(float64)

    def float(self):
        return self.to(float32)

    def half(self):
        return self.to(float16)

    def long(self):
        return self.to(int64)

    def int(self):
        return self.to(int32)

    def short(self):
        return self.to(int16)

    def char(self):
        return self.to(int8)

    def bool(self):
        return self.to(bool_)

    def copy_(self, src, *a, **k):
        s = T(src)
        self.a[...] = cast_arr(s.a, s.dt, self.dt)
        return self

    def fill_(self, v):
        self.a[...] = scal(norm_el(v, self.dt))
        return self

    def zero_(self):
        return self.fill_(0)

    def view(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], DType):
            raise Unsupported("bit view")
        return Tensor(self.a.reshape(_shape(shape)), self.dt)

    def view_as(self, o):
        return Tensor(self.a.reshape(o.a.shape), self.dt)

    def new_zeros(self, *s, **k):
        k.setdefault("dtype", self.dt)
        return zeros(*s, **k)

    def new_ones(self, *s, **k):
        k.setdefault("dtype", self.dt)
        return ones(*s, **k)

    def new_full(self, s, v, **k):
        k.setdefault("dtype", self.dt)
        return full(s, v, **k)

    def new_empty(self, *s, **k):
        k.setdefault("dtype", self.dt)
        return zeros(*s, **k)

    def new_tensor(self, d, **k):
        k.setdefault("dtype", self.dt)
        return tensor(d, **k)

    def apply_(self, f):
        self.a[...] = emap(lambda x: norm_el(f(x), self.dt), self.a)
        return self

    def where(self, cond, other):
        return where(cond, self, other)

    def to_sparse(self, *a, **k):
        idx = [i for i in np.ndindex(*self.a.shape) if not (isinstance(self.a[i], SV) and not self.a[i].t or type(self.a[i]) is int and self.a[i] == 0)]
        ind = np.array(idx, dtype=np.int64).reshape(-1, self.a.ndim).T
        return SparseCOO(ind, fromlist([self.a[i] for i in idx], (len(idx),)), self.a.shape, self.dt, True)

    def to_sparse_coo(self):
        return self.to_sparse()

    def to_sparse_csr(self, *a, **k):
        return self.to_sparse().to_sparse_csr()

    def to_dense(self):
        return self

    def index_put_(self, idx, vals, accumulate=False):
        idx = tuple(idx)
        if accumulate:
            ix = np.broadcast_arrays(*[concrete_ints(i) for i in idx])
            v = np.broadcast_to(T(vals).a, ix[0].shape)
            for p in np.ndindex(*ix[0].shape):
                k = tuple(int(i[p]) for i in ix)
                self.a[k] = self.a[k] + v[p]
        else:
            self[idx] = vals
        return self

    def scatter_(self, dim, index, src=None, value=None, reduce=None):
        if value is not None:
            src = value
        return _scatter(self, dim, index, src, {None: "set", "add": "sum", "multiply": "prod"}[reduce], True)

    def scatter_add_(self, dim, index, src):
        return _scatter(self, dim, index, src, "sum", True)

    def scatter_reduce_(self, dim, index, src, reduce, *, include_self=True):
        return _scatter(self, dim, index, src, reduce, include_self)

    def index_add_(self, dim, index, source, alpha=1):
        idx = concrete_ints(index)
        s = np.moveaxis(T(source).a, dim, 0) if T(source).a.ndim else T(source).a.reshape(1)
        v = np.moveaxis(self.a, dim, 0)
        for n, i in enumerate(idx.reshape(-1)):
            v[i] = emap(lambda x, y: x + y * alpha, asarr(v[i]), asarr(s[n])) if self.a.ndim > 1 else v[i] + s[n] * alpha
        return self

    def index_copy_(self, dim, index, source):
        idx = concrete_ints(index)
        s = np.moveaxis(T(source).a, dim, 0)
        v = np.moveaxis(self.a, dim, 0)
        for n, i in enumerate(idx.reshape(-1)):
            v[i] = s[n]
        return self

    def index_fill_(self, dim, index, value):
        idx = concrete_ints(index)
        v = np.moveaxis(self.a, dim, 0)
        for i in idx.reshape(-1):
            if v.ndim == 1:
                v[i] = norm_el(value, self.dt)
            else:
                v[i][...] = scal(norm_el(value, self.dt))
        return self

    def masked_fill_(self, mask, value):
        return self._assign(masked_fill(self, mask, value))

    def masked_scatter_(self, mask, src):
        self[mask] = src.reshape(-1)[:int(mask.sum())]
        return self

    def uniform_(self, a=0.0, b=1.0, **k):
        af = self.a
        for i in np.ndindex(*af.shape):
            af[i] = Ctx.explorer.fresh("rand", a, b)
        return self

    def normal_(self, *a, **k):
        for i in np.ndindex(*self.a.shape):
            self.a[i] = Ctx.explorer.fresh("randn")
        return self

    def random_(self, *a, **k):
        raise Unsupported("random_")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = FUNCS.get(name)
        if f is not None:
            return functools.partial(f, self)
        if name.endswith("_") and not name.startswith("_"):
            f = FUNCS.get(name[:-1])
            if f is not None:
                def inplace(*a, **k):
                    r = f(self, *a, **k)
                    if r.a.shape != self.a.shape:
                        if name[:-1] in ("unsqueeze", "squeeze", "t", "transpose"):
                            self.a = r.a
                            return self
                        raise RuntimeError("in-place shape change")
                    return self._assign(r)
                return inplace
        raise Unsupported("Tensor.%s" % name)


def pyscalar(x, dt):
    if dt.cat == 2:
        return x                      # SV
    if dt.cat == 1:
        return x if isinstance(x, SV) else int(x)
    return x


def _shape(args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
        args = args[0]
    return tuple(int(x) for x in args)


def _index(idx, shape):
    def conv(i):
        if isinstance(i, Tensor):
            if i.dt.cat == 0:
                return concrete_bools(i.a)
            if i.a.ndim == 0:
                return int(i.__index__())
            return concrete_ints(i)
        if isinstance(i, SV):
            return V.concretise_int(i)
        if isinstance(i, SB):
            return bool(i)
        if isinstance(i, slice):
            f = lambda x: None if x is None else int(x.__index__())
            return slice(f(i.start), f(i.stop), f(i.step))
        if isinstance(i, np.ndarray):
            if i.dtype == object:
                if i.size and all(isinstance(x, (bool, SB)) for x in i.reshape(-1)):
                    return concrete_bools(i)
                return concrete_ints(i)
            return i
        if isinstance(i, list):
            if any(isinstance(x, (slice, Tensor)) or x is None or x is Ellipsis for x in i):
                return tuple(conv(x) for x in i)
            return np.asarray([int(x) if not isinstance(x, bool) else x for x in i]) if i else np.zeros(0, dtype=np.intp)
        return i
    if isinstance(idx, tuple):
        return tuple(conv(i) for i in idx)
    return conv(idx)


def _setitem(self, idx, val):
    # symbolic mask of full shape with a broadcastable value: no forking needed
    if isinstance(idx, Tensor) and idx.dt.cat == 0 and not all_concrete_bool(idx.a) and idx.a.shape == self.a.shape:
        v = T(val)
        if v.a.ndim == 0 or (v.a.size == 1 and v.a.ndim == 1):
            vv = norm_el(v.a.reshape(-1)[0], self.dt)
            self.a[...] = emap(lambda c, x: norm_el(ite(c, vv, x), self.dt), idx.a, self.a)
            return
    k = _index(idx, self.a.shape)
    v = T(val)
    va = cast_arr(v.a, v.dt, self.dt) if v.dt is not self.dt else v.a
    tgt = self.a[k]
    if not isinstance(tgt, np.ndarray) or tgt.dtype != object:
        if va.size != 1:
            raise RuntimeError("shape mismatch in assignment")
        self.a[k] = va.reshape(-1)[0]
        return
    if va.ndim > tgt.ndim:
        va = va.reshape(va.shape[va.ndim - tgt.ndim:])
    try:
        b = np.broadcast_to(va, tgt.shape)
    except ValueError:
        raise RuntimeError("shape mismatch: value tensor of shape %s cannot be broadcast to indexing result of shape %s" % (va.shape, tgt.shape))
    if np.shares_memory(va, self.a):
        b = b.copy()
    self.a[k] = b


# --------------------------------------------------------------- element-wise ops
def _trunc_div(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x // y
    return V.floor(to_sv(x) / y)


def _mod(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x % y
    return to_sv(x) - to_sv(y) * V.floor(to_sv(x) / y)


def _cmp(op):
    def f(x, y):
        if isinstance(x, int) and isinstance(y, int):
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op]
        if op == "eq" and (isinstance(x, SB) or isinstance(y, SB)) and isinstance(x, (SB, bool)) and isinstance(y, (SB, bool)):
            return bnot(to_b(x) ^ y if isinstance(x, SB) else y ^ x)
        if op == "ne" and (isinstance(x, SB) or isinstance(y, SB)) and isinstance(x, (SB, bool)) and isinstance(y, (SB, bool)):
            return x ^ y if isinstance(x, SB) else y ^ x
        a, b = to_sv(x), to_sv(y)
        return {"lt": a.__lt__, "le": a.__le__, "gt": a.__gt__, "ge": a.__ge__, "eq": a.__eq__, "ne": a.__ne__}[op](b)
    return f


def _logic(op):
    def f(x, y):
        if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool):
            return {"and": x & y, "or": x | y, "xor": x ^ y}[op]
        x, y = to_b(x), to_b(y)
        if op == "and":
            return band(x, y)
        if op == "or":
            return bor(x, y)
        return bor(band(x, bnot(y)), band(bnot(x), y))
    return f


_OPS = {
    "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
    "div": lambda x, y: to_sv(x) / y, "floordiv": _trunc_div, "mod": _mod,
    "pow": lambda x, y: x ** y if isinstance(x, int) and isinstance(y, int) else to_sv(x) ** y,
    "max": lambda x, y: builtins.max(x, y) if isinstance(x, int) and isinstance(y, int) else V.smax(x, y),
    "min": lambda x, y: builtins.min(x, y) if isinstance(x, int) and isinstance(y, int) else V.smin(x, y),
    "and": _logic("and"), "or": _logic("or"), "xor": _logic("xor"),
}
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    _OPS[_n] = _cmp(_n)
_CMP = ("lt", "le", "gt", "ge", "eq", "ne")


def _bin(op, a, b):
    if isinstance(a, (SparseCOO, SparseCSR)) or isinstance(b, (SparseCOO, SparseCSR)):
        return _sparse_bin(op, a, b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        raise TypeError("unsupported operand type for tensor arithmetic")
    rd = result_dtype(a, b)
    ta = a if isinstance(a, Tensor) else T(a)
    tb = b if isinstance(b, Tensor) else T(b)
    if op in _CMP:
        return Tensor(emap(_OPS[op], ta.a, tb.a), bool_)
    if op in ("and", "or", "xor"):
        if rd.cat == 2:
            raise RuntimeError("bitwise op on float tensor")
        if rd.cat == 1:
            ta, tb = T(ta, rd), T(tb, rd)
        return Tensor(emap(_OPS[op], ta.a, tb.a), rd)
    if op == "div" and rd.cat < 2:
        rd = _default[0]
    if op == "sub" and ta.dt.cat == 0 and tb.dt.cat == 0:
        raise RuntimeError("Subtraction, the `-` operator, with two bool tensors is not supported.")
    xa = ta.a if ta.dt.cat == rd.cat else cast_arr(ta.a, ta.dt, rd)
    xb = tb.a if tb.dt.cat == rd.cat else cast_arr(tb.a, tb.dt, rd)
    if op in ("add", "mul") and rd.cat == 0:
        return Tensor(emap(_OPS["or" if op == "add" else "and"], xa, xb), bool_)
    if op == "pow" and rd.cat == 2 and not isinstance(b, Tensor):
        e = b
        return Tensor(emap(lambda x: x ** e, xa), rd)
    try:
        return Tensor(emap(_OPS[op], xa, xb), rd)
    except ValueError as e:
        if "broadcast" in str(e):
            raise RuntimeError("The size of tensor a must match the size of tensor b: %s" % e)
        raise


def _un(f, keep=False):
    def g(x, **k):
        x = T(x)
        d = x.dt if (keep or x.dt.cat == 2) else _default[0]
        r = Tensor(emap(f, x.a if x.dt.cat == d.cat else cast_arr(x.a, x.dt, d)), d)
        return _out(r, k)
    return g


def _out(r, k):
    o = k.get("out")
    if o is not None:
        o.a[...] = r.a
        return o
    return r


FUNCS = {}


def reg(*names):
    def deco(f):
        for n in names or (f.__name__,):
            FUNCS[n] = f
        return f
    return deco


for _n, _f, _keep in [
    ("neg", lambda x: -x, True), ("negative", lambda x: -x, True), ("sqrt", lambda x: V.fn1("sqrt", x), False), ("exp", lambda x: V.fn1("exp", x), False),
    ("log", lambda x: V.fn1("log", x), False), ("square", lambda x: x * x, True), ("reciprocal", lambda x: to_sv(1) / x, False),
    ("floor", lambda x: x if isinstance(x, int) else V.floor(x), True), ("ceil", lambda x: x if isinstance(x, int) else V.ceil(x), True),
    ("trunc", lambda x: x if isinstance(x, int) else V.trunc(x), True), ("round", lambda x: x if isinstance(x, int) else to_sv(x.__round__()), True),
    ("relu", lambda x: builtins.max(x, 0) if isinstance(x, int) else V.smax(x, V.ZERO), True), ("rsqrt", lambda x: to_sv(1) / V.fn1("sqrt", x), False),
    ("log10", lambda x: V.fn1("log", x) / _math.log(10), False), ("log2", lambda x: V.fn1("log", x) / _math.log(2), False),
]:
    FUNCS[_n] = _un(_f, _keep)


def absolute(x, **k):
    x = T(x)
    return _out(Tensor(emap(lambda v: builtins.abs(v) if isinstance(v, int) else V.sabs(v), x.a), x.dt), k)


FUNCS["abs"] = FUNCS["absolute"] = FUNCS["fabs"] = absolute
FUNCS["detach_"] = lambda x: x


@reg()
def sign(x):
    x = T(x)
    return Tensor(emap(lambda v: norm_el(ite(to_sv(v) > 0, V.ONE, ite(to_sv(v) < 0, -V.ONE, V.ZERO)), x.dt), x.a), x.dt)


FUNCS["sgn"] = sign


@reg("add")
def _add(x, o, *, alpha=1, **k):
    return _out(_bin("add", x, o if alpha == 1 else T(o) * alpha), k)


@reg("sub", "subtract")
def _sub(x, o, *, alpha=1, **k):
    return _out(_bin("sub", x, o if alpha == 1 else T(o) * alpha), k)


@reg("rsub")
def _rsub(x, o):
    return _bin("sub", o, x)


@reg("mul", "multiply")
def _mul(x, o, **k):
    return _out(_bin("mul", x, o), k)


@reg("div", "divide", "true_divide")
def _div(x, o, *, rounding_mode=None, **k):
    if rounding_mode == "floor":
        return _out(_bin("floordiv", x, o), k)
    if rounding_mode == "trunc":
        d = result_dtype(x, o)
        r = emap(lambda a, b: norm_el(V.trunc(to_sv(a) / b), d), T(x).a, T(o).a)
        return _out(Tensor(r, d), k)
    return _out(_bin("div", x, o), k)


for _n, _o in [("floor_divide", "floordiv"), ("remainder", "mod"), ("pow", "pow"), ("maximum", "max"), ("minimum", "min"), ("fmax", "max"), ("fmin", "min"),
               ("eq", "eq"), ("ne", "ne"), ("lt", "lt"), ("le", "le"), ("gt", "gt"), ("ge", "ge"), ("less", "lt"), ("greater", "gt"), ("less_equal", "le"),
               ("greater_equal", "ge"), ("not_equal", "ne"), ("bitwise_and", "and"), ("bitwise_or", "or"), ("bitwise_xor", "xor")]:
    def _mkop(o):
        return lambda x, y, **k: _out(_bin(o, x, y), k)
    FUNCS[_n] = _mkop(_o)
eq = FUNCS["eq"]


@reg("fmod")
def _fmod(x, y):
    return T(x) - T(y) * FUNCS["trunc"](T(x) / y)


@reg("float_power")
def _fpow(x, y):
    return _bin("pow", T(x, float64), y)


for _n in ("and", "or", "xor"):
    def _mkl(o):
        return lambda x, y, **k: Tensor(emap(_logic(o), T(T(x), bool_).a, T(T(y), bool_).a), bool_)
    FUNCS["logical_" + _n] = _mkl(_n)


@reg("logical_not", "bitwise_not")
def logical_not(x, **k):
    x = T(x)
    return Tensor(emap(bnot, x.a), bool_)


@reg("isnan", "isinf")
def isnan(x):
    x = T(x)
    return Tensor(emap(lambda v: _is_divzero(v), x.a), bool_)


@reg()
def isfinite(x):
    x = T(x)
    return Tensor(emap(lambda v: not _is_divzero(v), x.a), bool_)


@reg()
def nan_to_num(x, nan=0.0, posinf=None, neginf=None, **k):
    x = T(x)

    def f(v):
        if _is_divzero(v):
            if nan == posinf == neginf:
                return norm_el(nan, x.dt)
            return Ctx.explorer.fresh("divzero_nn")
        return v
    return Tensor(emap(f, x.a), x.dt)


@reg()
def where(cond, x=None, y=None, **k):
    if x is None and y is None:
        return nonzero(cond, as_tuple=True)
    c = T(cond)
    d = result_dtype(x, y)
    xa, ya = T(T(x), d).a, T(T(y), d).a
    return _out(Tensor(emap(lambda c, a, b: norm_el(ite(c, a, b), d), c.a, xa, ya), d), k)


@reg()
def masked_fill(x, mask, value):
    x = T(x)
    v = norm_el(value, x.dt)
    return Tensor(emap(lambda c, a: norm_el(ite(c, v, a), x.dt), T(mask).a, x.a), x.dt)


@reg()
def masked_select(x, mask):
    return x[mask]


@reg("clamp", "clip")
def clamp(x, min=None, max=None, **k):
    x = T(x)
    d = result_dtype(*[z for z in (x, min, max) if z is not None])
    r = T(x, d) if d is not x.dt else x
    if min is not None:
        r = _bin("max", r, min)
    if max is not None:
        r = _bin("min", r, max)
    if min is None and max is None:
        raise RuntimeError("torch.clamp: At least one of 'min' or 'max' must not be None")
    if r is x:
        r = x.clone()
    return _out(r, k)


@reg()
def clamp_min(x, min):
    return clamp(x, min=min)


@reg()
def clamp_max(x, max):
    return clamp(x, max=max)


@reg()
def lerp(a, b, w):
    return T(a) + (T(b) - a) * w


@reg()
def addcmul(x, a, b, *, value=1):
    return T(x) + T(a) * b * value


@reg()
def addcdiv(x, a, b, *, value=1):
    return T(x) + T(a) / b * value


# --------------------------------------------------------------- reductions
def _axis(dim):
    if dim is None:
        return None
    if isinstance(dim, (list, tuple)):
        return tuple(int(d) for d in dim)
    return int(dim)


def _reduce(x, f, init, dim, keepdim, dt):
    ax = _axis(dim)
    a = x.a
    Ctx.in_tensor += 1
    try:
        if ax is None or ax == ():
            acc = init
            for v in a.reshape(-1):
                acc = v if acc is None else f(acc, v)
            r = scal(acc)
            if keepdim:
                r = r.reshape((1,) * a.ndim)
            return Tensor(r, dt)
        if isinstance(ax, int):
            ax = (ax,)
        if a.ndim == 0:
            return Tensor(a.copy(), dt)
        ax = tuple(d % a.ndim for d in ax)
        keep = [d for d in range(a.ndim) if d not in ax]
        b = np.transpose(a, keep + list(ax))
        kshape = tuple(a.shape[d] for d in keep)
        b = b.reshape(kshape + (-1,))
        out = obj(kshape)
        for i in np.ndindex(*kshape):
            acc = init
            for v in b[i].reshape(-1):
                acc = v if acc is None else f(acc, v)
            out[i] = acc
        if keepdim:
            out = out.reshape(tuple(1 if d in ax else a.shape[d] for d in range(a.ndim)))
        return Tensor(out, dt)
    finally:
        Ctx.in_tensor -= 1


@reg("sum")
def sum_(x, dim=None, keepdim=False, dtype=None, axis=None, **k):
    if isinstance(x, (SparseCOO, SparseCSR)):
        x = x.to_dense()
    x = T(x)
    if axis is not None:
        dim = axis
    d = np_dt(dtype) or (x.dt if x.dt.cat == 2 else int64)
    x = T(x, d)
    return _out(_reduce(x, lambda p, v: p + v, norm_el(0, d), dim, keepdim, d), k)


@reg("nansum")
def nansum(x, **k):
    return sum_(x, **k)


@reg()
def mean(x, dim=None, keepdim=False, dtype=None, **k):
    x = T(x)
    if dtype is not None:
        x = T(x, np_dt(dtype))
    s = sum_(x, dim, keepdim)
    n = x.a.size // builtins.max(1, s.a.size)
    return s / n


@reg()
def prod(x, dim=None, keepdim=False, dtype=None, **k):
    x = T(x)
    d = np_dt(dtype) or (x.dt if x.dt.cat == 2 else int64)
    return _reduce(T(x, d), lambda p, v: p * v, norm_el(1, d), dim, keepdim, d)


def _mx(a, b):
    return _OPS["max"](a, b)


def _mn(a, b):
    return _OPS["min"](a, b)


@reg()
def amax(x, dim=(), keepdim=False, **k):
    x = T(x)
    if x.a.size == 0:
        raise RuntimeError("amax(): Expected reduction dim to be specified for input.numel() == 0")
    return _reduce(x, _mx if x.dt.cat else bor, None, dim, keepdim, x.dt)


@reg()
def amin(x, dim=(), keepdim=False, **k):
    x = T(x)
    if x.a.size == 0:
        raise RuntimeError("amin(): Expected reduction dim to be specified for input.numel() == 0")
    return _reduce(x, _mn if x.dt.cat else band, None, dim, keepdim, x.dt)


MaxRes = namedtuple("MaxRes", ["values", "indices"])


def _maxmin(f, op, cmp):
    def g(x, dim=None, keepdim=False, axis=None, other=None, **k):
        if axis is not None:
            dim = axis
        if other is not None:
            dim = other
        if isinstance(dim, Tensor) or isinstance(dim, (SV, float)):
            return _bin(op, x, dim)
        x = T(x)
        if x.a.size == 0 and dim is None:
            raise RuntimeError(op + "(): Expected reduction dim to be specified for input.numel() == 0.")
        if dim is None:
            return _reduce(x, f, None, None, False, x.dt)
        vals = _reduce(x, f, None, dim, keepdim, x.dt)
        return MaxRes(vals, _LazyArg(x, dim, keepdim, cmp))
    return g


class _LazyArg:
    """indices of max/min along a dim; evaluated (by branching) only when used"""

    def __init__(self, x, dim, keepdim, cmp):
        self._args = (x, dim, keepdim, cmp)
        self._t = None

    def _get(self):
        if self._t is None:
            self._t = _argext(*self._args)
        return self._t

    def __getattr__(self, n):
        return getattr(self._get(), n)

    def __getitem__(self, i):
        return self._get()[i]


def _argext(x, dim, keepdim, cmp):
    a = x.a
    if dim is None:
        best = 0
        f = a.reshape(-1)
        for i in range(1, f.size):
            if cmp(to_sv(f[i]), to_sv(f[best])):
                best = i
        return Tensor(scal(best), int64)
    b = np.moveaxis(a, dim, -1)
    out = obj(b.shape[:-1])
    for p in np.ndindex(*b.shape[:-1]):
        best = 0
        for i in range(1, b.shape[-1]):
            if cmp(to_sv(b[p + (i,)]), to_sv(b[p + (best,)])):
                best = i
        out[p] = best
    if keepdim:
        out = np.expand_dims(out, dim)
    return Tensor(out, int64)


FUNCS["max"] = _maxmin(_mx, "max", lambda a, b: a > b)
FUNCS["min"] = _maxmin(_mn, "min", lambda a, b: a < b)
FUNCS["argmax"] = lambda x, dim=None, keepdim=False: _argext(T(x), dim, keepdim, lambda a, b: a > b)
FUNCS["argmin"] = lambda x, dim=None, keepdim=False: _argext(T(x), dim, keepdim, lambda a, b: a < b)


@reg("any")
def any_(x, dim=None, keepdim=False, **k):
    x = T(T(x), bool_)
    return _reduce(x, bor, False, dim, keepdim, bool_)


@reg("all")
def all_(x, dim=None, keepdim=False, **k):
    x = T(T(x), bool_)
    return _reduce(x, band, True, dim, keepdim, bool_)


@reg()
def count_nonzero(x, dim=None):
    return sum_(T(T(x), bool_), dim)


@reg()
def norm(x, p=2, dim=None, keepdim=False, ord=None, **k):
    if isinstance(x, (SparseCOO, SparseCSR)):
        x = x._values_t()
    x = T(x)
    if ord is not None:
        p = ord
    if p in (2, "fro", None, 2.0):
        return FUNCS["sqrt"](sum_(x * x, dim, keepdim))
    if p == 1:
        return sum_(absolute(x), dim, keepdim)
    if p in (V.INF, "inf"):
        return amax(absolute(x), () if dim is None else dim, keepdim)
    raise Unsupported("norm p=%r" % (p,))


@reg()
def var(x, dim=None, unbiased=True, keepdim=False, correction=None, **k):
    x = T(x)
    if isinstance(dim, bool):
        unbiased, dim = dim, None
    m = mean(x, dim, True)
    s = sum_((x - m) * (x - m), dim, keepdim)
    n = x.a.size // builtins.max(1, s.a.size)
    c = (1 if unbiased else 0) if correction is None else correction
    return s / (n - c)


@reg()
def std(x, *a, **k):
    return FUNCS["sqrt"](var(x, *a, **k))


@reg()
def cumsum(x, dim=0, dtype=None, **k):
    x = T(x)
    d = np_dt(dtype) or (x.dt if x.dt.cat == 2 else int64)
    x = T(x, d)
    out = x.a.copy()
    v = np.moveaxis(out, dim, 0)
    for i in range(1, v.shape[0]):
        v[i] = v[i - 1] + v[i]
    return _out(Tensor(out, d), k)


@reg()
def cumprod(x, dim=0, **k):
    x = T(x)
    out = x.a.copy()
    v = np.moveaxis(out, dim, 0)
    for i in range(1, v.shape[0]):
        v[i] = v[i - 1] * v[i]
    return Tensor(out, x.dt)


@reg()
def diff(x, n=1, dim=-1, **k):
    x = T(x)
    v = np.moveaxis(x.a, dim, 0)
    r = emap(lambda a, b: a - b, v[1:], v[:-1])
    return Tensor(np.moveaxis(r, 0, dim), x.dt)


# --------------------------------------------------------------- linear algebra
def _matmul_arr(a, b):
    Ctx.in_tensor += 1
    try:
        if a.ndim == 1 and b.ndim == 1:
            s = None
            if a.shape != b.shape:
                raise RuntimeError("inconsistent tensor size")
            for x, y in zip(a, b):
                t = x * y
                s = t if s is None else s + t
            return scal(s if s is not None else V.ZERO)
        if a.ndim == 1:
            return _matmul_arr(a.reshape(1, -1), b)[..., 0, :]
        if b.ndim == 1:
            return _matmul_arr(a, b.reshape(-1, 1))[..., 0]
        if a.ndim > 2 or b.ndim > 2:
            ab = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
            a2 = np.broadcast_to(a, ab + a.shape[-2:])
            b2 = np.broadcast_to(b, ab + b.shape[-2:])
            out = obj(ab + (a.shape[-2], b.shape[-1]))
            for i in np.ndindex(*ab):
                out[i] = _matmul_arr(a2[i], b2[i])
            return out
        n, m = a.shape
        m2, p = b.shape
        if m != m2:
            raise RuntimeError("mat1 and mat2 shapes cannot be multiplied (%dx%d and %dx%d)" % (n, m, m2, p))
        out = obj((n, p))
        for i in range(n):
            for j in range(p):
                s = V.ZERO
                for k in range(m):
                    x, y = a[i, k], b[k, j]
                    s = s + x * y
                out[i, j] = s
        return out
    finally:
        Ctx.in_tensor -= 1


@reg("matmul", "mm", "mv", "bmm")
def matmul(a, b, **k):
    if isinstance(a, (SparseCOO, SparseCSR)) or isinstance(b, (SparseCOO, SparseCSR)):
        return sparse_mm(a, b)
    a, b = T(a), T(b)
    if a.dt is not b.dt:
        raise RuntimeError("expected m1 and m2 to have the same dtype, but got: %s != %s" % (a.dt.name, b.dt.name))
    r = _matmul_arr(a.a, b.a)
    if a.dt.cat == 1:
        r = emap(lambda x: norm_el(x, a.dt), r)
    return _out(Tensor(r, a.dt), k)


@reg("dot", "vdot", "inner")
def dot(a, b, **k):
    if a.a.ndim != 1 or b.a.ndim != 1:
        raise RuntimeError("1D tensors expected")
    return matmul(a, b)


@reg("outer", "ger")
def outer(a, b):
    return T(a).reshape(-1, 1) * T(b).reshape(1, -1)


@reg()
def addmm(x, a, b, *, beta=1, alpha=1):
    return T(x) * beta + matmul(a, b) * alpha


@reg()
def addmv(x, a, b, *, beta=1, alpha=1):
    return T(x) * beta + matmul(a, b) * alpha


@reg()
def trace(x):
    return sum_(diagonal(x))


@reg()
def diagonal(x, offset=0, dim1=0, dim2=1):
    d = np.diagonal(x.a, offset, dim1, dim2)
    try:
        d.flags.writeable = True
    except ValueError:
        pass
    return Tensor(d, x.dt)


@reg()
def diag(x, diagonal=0):
    if x.a.ndim == 1:
        n = x.a.size + builtins.abs(diagonal)
        r = zeros(n, n, dtype=x.dt)
        for i in range(x.a.size):
            r.a[i + builtins.max(0, -diagonal), i + builtins.max(0, diagonal)] = x.a[i]
        return r
    return FUNCS["diagonal"](x, diagonal).clone()


@reg("diag_embed", "diagflat")
def diag_embed(x):
    return diag(x)


@reg()
def tril(x, diagonal=0):
    r = x.clone()
    for i in np.ndindex(*r.a.shape):
        if i[-1] > i[-2] + diagonal:
            r.a[i] = norm_el(0, x.dt)
    return r


@reg()
def triu(x, diagonal=0):
    r = x.clone()
    for i in np.ndindex(*r.a.shape):
        if i[-1] < i[-2] + diagonal:
            r.a[i] = norm_el(0, x.dt)
    return r


def gauss_solve(A, B):
    """exact solve by symbolic Gaussian elimination (small systems); pivots branch on zero"""
    n = A.shape[0]
    M = A.copy()
    R = B.copy()
    Ctx.in_tensor += 1
    try:
        for c in range(n):
            piv = None
            for r in range(c, n):
                z = V.rel("==", to_sv(M[r, c]))
                if z is False or (z is not True and not Ctx.explorer.branch(z)):
                    piv = r
                    break
            if piv is None:
                raise RuntimeError("linalg.solve: The solver failed because the input matrix is singular.")
            if piv != c:
                M[[c, piv]] = M[[piv, c]]
                R[[c, piv]] = R[[piv, c]]
            inv = V.ONE / M[c, c]
            for r in range(n):
                if r == c:
                    continue
                f = M[r, c]
                if isinstance(f, SV) and not f.t:
                    continue
                f = f * inv
                for k in range(c, n):
                    M[r, k] = M[r, k] - f * M[c, k] if k != c else V.ZERO
                for k in range(R.shape[1]):
                    R[r, k] = R[r, k] - f * R[c, k]
        for c in range(n):
            for k in range(R.shape[1]):
                R[c, k] = R[c, k] / M[c, c]
        return R
    finally:
        Ctx.in_tensor -= 1


def linalg_solve(A, B, **k):
    hook = HOOKS.get("linalg.solve")
    if hook is not None:
        r = hook(A, B)
        if r is not None:
            return r
    b = B.a.reshape(-1, 1) if B.a.ndim == 1 else B.a
    return Tensor(gauss_solve(A.a, b).reshape(B.a.shape), A.dt)


HOOKS = {}


# --------------------------------------------------------------- creation
def _mk(shape, v, dtype):
    dt = np_dt(dtype) or (_default[0])
    a = obj(shape)
    a[...] = scal(norm_el(v, dt))
    return Tensor(a, dt)


@reg()
def zeros(*s, dtype=None, device=None, size=None, **k):
    return _mk(_shape(s) if size is None else _shape((size,)), 0, dtype)


@reg()
def ones(*s, dtype=None, device=None, size=None, **k):
    return _mk(_shape(s) if size is None else _shape((size,)), 1, dtype)


@reg()
def empty(*s, dtype=None, device=None, size=None, **k):
    return _mk(_shape(s) if size is None else _shape((size,)), 0, dtype)


@reg()
def full(size, fill_value, *, dtype=None, device=None, **k):
    if isinstance(fill_value, Tensor):
        if fill_value.a.ndim != 0:
            raise RuntimeError("full(): argument 'fill_value' must be Number")
        fill_value = fill_value.item()
    elif isinstance(fill_value, (list, tuple, np.ndarray)):
        raise TypeError("full(): argument 'fill_value' (position 2) must be Number, not %s" % type(fill_value).__name__)
    if dtype is None:
        c = scalar_cat(fill_value)
        dtype = _default[0] if c == 2 else int64 if c == 1 else bool_
    return _mk(_shape((size,)) if not isinstance(size, int) else (size,), fill_value, dtype)


@reg()
def zeros_like(x, *, dtype=None, **k):
    return _mk(x.shape, 0, dtype or x.dt)


@reg()
def ones_like(x, *, dtype=None, **k):
    return _mk(x.shape, 1, dtype or x.dt)


@reg()
def empty_like(x, *, dtype=None, **k):
    return _mk(x.shape, 0, dtype or x.dt)


@reg()
def full_like(x, v, *, dtype=None, **k):
    return _mk(x.shape, v, dtype or x.dt)


@reg()
def tensor(data, *, dtype=None, device=None, requires_grad=False, **k):
    return from_any(data, np_dt(dtype))


@reg("as_tensor", "asarray")
def as_tensor(data, dtype=None, device=None, **k):
    if isinstance(data, Tensor):
        return data.to(dtype) if dtype is not None else data
    return from_any(data, np_dt(dtype))


@reg()
def scalar_tensor(x, *, dtype=None, **k):
    return from_any(x, np_dt(dtype) or _default[0])


@reg()
def from_numpy(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return Tensor(emap(lambda v: norm_el(v, getattr(x, "sym_dt", None) or float64), np.asarray(x, dtype=object).view(np.ndarray)),
                      getattr(x, "sym_dt", None) or float64)
    return from_any(np.asarray(x))


@reg()
def arange(*args, dtype=None, device=None, start=None, end=None, step=1, **k):
    args = list(args)
    if end is not None:
        args = [start or 0, end, step]
    args = [a.item() if isinstance(a, Tensor) else a for a in args]
    isf = builtins.any(isinstance(a, (float, SV)) and not (isinstance(a, SV) and V.is_integral(a)) for a in args)
    args = [V.concretise_int(a) if isinstance(a, SV) and V.is_integral(a) else a for a in args]
    if not isf:
        r = list(range(*[int(a) for a in args]))
        dt = np_dt(dtype) or int64
    else:
        if builtins.any(isinstance(a, SV) and not a.is_const for a in args):
            raise Unsupported("symbolic arange")
        r = [float(x) for x in np.arange(*[float(a) for a in args])]
        dt = np_dt(dtype) or _default[0]
    return Tensor(fromlist([norm_el(x, dt) for x in r], (len(r),)), dt)


@reg()
def linspace(start, end, steps, *, dtype=None, **k):
    s, e = to_sv(start), to_sv(end)
    dt = np_dt(dtype) or _default[0]
    if steps == 1:
        return Tensor(fromlist([s], (1,)), dt)
    return Tensor(fromlist([s + (e - s) * Fraction(i, steps - 1) for i in range(steps)], (steps,)), dt)


@reg()
def eye(n, m=None, *, dtype=None, **k):
    r = zeros(n, m or n, dtype=dtype)
    for i in range(builtins.min(r.a.shape)):
        r.a[i, i] = norm_el(1, r.dt)
    return r


@reg()
def rand(*s, dtype=None, size=None, **k):
    r = zeros(*(s if size is None else (size,)), dtype=dtype)
    for i in np.ndindex(*r.a.shape):
        r.a[i] = Ctx.explorer.fresh("rand", 0, 1)
    return r


@reg()
def rand_like(x, **k):
    return rand(tuple(x.shape))


@reg()
def randn(*s, dtype=None, size=None, **k):
    r = zeros(*(s if size is None else (size,)), dtype=dtype)
    for i in np.ndindex(*r.a.shape):
        r.a[i] = Ctx.explorer.fresh("randn")
    return r


@reg()
def randn_like(x, **k):
    return randn(tuple(x.shape))


# --------------------------------------------------------------- joining / shape
def _cat_dt(ts):
    d = ts[0].dt
    for t in ts[1:]:
        if (t.dt.cat, t.dt.bits) > (d.cat, d.bits):
            d = t.dt
    return d


@reg("cat", "concat", "concatenate")
def cat(ts, dim=0, axis=None, **k):
    ts = [T(t) for t in ts]
    d = _cat_dt(ts)
    arrs = [T(t, d).a for t in ts]
    nd = builtins.max(a.ndim for a in arrs)
    arrs = [a for a in arrs if not (a.ndim == 1 and a.size == 0 and nd > 1)]
    try:
        return _out(Tensor(np.concatenate(arrs, axis=dim if axis is None else axis), d), k)
    except ValueError as e:
        raise RuntimeError(str(e))


@reg()
def stack(ts, dim=0, **k):
    ts = [T(t) for t in ts]
    d = _cat_dt(ts)
    try:
        return Tensor(np.stack([T(t, d).a for t in ts], axis=dim), d)
    except ValueError as e:
        raise RuntimeError(str(e))


@reg("hstack")
def hstack(ts):
    ts = [T(t) for t in ts]
    return cat([t.reshape(1) if t.a.ndim == 0 else t for t in ts], 0 if ts[0].a.ndim <= 1 else 1)


@reg("vstack")
def vstack(ts):
    return cat([T(t).reshape(1, -1) if T(t).a.ndim < 2 else t for t in ts], 0)


@reg()
def reshape(x, *s, shape=None):
    return Tensor(x.a.reshape(_shape(s) if shape is None else tuple(shape)), x.dt)


@reg("flatten")
def flatten(x, start_dim=0, end_dim=-1):
    if x.a.ndim == 0:
        return Tensor(x.a.reshape(1), x.dt)
    n = x.a.ndim
    s, e = start_dim % n, end_dim % n
    return Tensor(x.a.reshape(x.a.shape[:s] + (-1,) + x.a.shape[e + 1:]), x.dt)


FUNCS["ravel"] = lambda x: Tensor(x.a.reshape(-1), x.dt)


@reg()
def squeeze(x, dim=None):
    if dim is None:
        return Tensor(x.a.reshape(tuple(s for s in x.a.shape if s != 1)), x.dt)
    if x.a.ndim and x.a.shape[dim] == 1:
        return Tensor(np.squeeze(x.a, dim), x.dt)
    return Tensor(x.a, x.dt)


@reg()
def unsqueeze(x, dim):
    return Tensor(np.expand_dims(x.a, dim), x.dt)


@reg("transpose", "swapaxes", "swapdims")
def transpose(x, d0, d1):
    return Tensor(np.swapaxes(x.a, d0, d1), x.dt)


@reg("t")
def t_(x):
    return Tensor(x.a.T, x.dt)


@reg()
def permute(x, *d, dims=None):
    return Tensor(np.transpose(x.a, _shape(d) if dims is None else tuple(dims)), x.dt)


@reg("movedim", "moveaxis")
def movedim(x, a, b):
    return Tensor(np.moveaxis(x.a, a, b), x.dt)


@reg()
def expand(x, *s, size=None):
    s = _shape(s) if size is None else tuple(size)
    off = len(s) - x.a.ndim
    s = tuple(x.a.shape[i - off] if v == -1 else v for i, v in enumerate(s))
    return Tensor(np.broadcast_to(x.a, s), x.dt)


@reg()
def expand_as(x, o):
    return Tensor(np.broadcast_to(x.a, o.a.shape), x.dt)


@reg()
def broadcast_to(x, s):
    return Tensor(np.broadcast_to(x.a, tuple(s)), x.dt)


@reg()
def broadcast_tensors(*ts):
    return [Tensor(a, t.dt) for a, t in zip(np.broadcast_arrays(*[t.a for t in ts]), ts)]


@reg()
def repeat(x, *s):
    s = _shape(s)
    a = x.a.reshape((1,) * (len(s) - x.a.ndim) + x.a.shape)
    return Tensor(np.tile(a, s), x.dt)


@reg()
def tile(x, *s):
    return Tensor(np.tile(x.a, _shape(s)), x.dt)


@reg()
def flip(x, *dims):
    return Tensor(np.flip(x.a, _shape(dims)).copy(), x.dt)


@reg()
def roll(x, shifts, dims=None):
    return Tensor(np.roll(x.a, shifts, dims), x.dt)


@reg()
def split(x, n, dim=0):
    a = x.a
    if isinstance(n, int):
        cuts = list(range(n, a.shape[dim], n))
    else:
        cuts = list(np.cumsum(n))[:-1]
    return tuple(Tensor(p, x.dt) for p in np.split(a, cuts, axis=dim))


@reg()
def chunk(x, n, dim=0):
    sz = -(-x.a.shape[dim] // n)
    return split(x, sz, dim)


@reg()
def unbind(x, dim=0):
    v = np.moveaxis(x.a, dim, 0)
    return tuple(Tensor(asarr(v[i]), x.dt) for i in range(v.shape[0]))


@reg()
def narrow(x, dim, start, length):
    ix = [slice(None)] * x.a.ndim
    ix[dim] = slice(int(start), int(start) + int(length))
    return Tensor(x.a[tuple(ix)], x.dt)


@reg()
def select(x, dim, i):
    return Tensor(asarr(np.moveaxis(x.a, dim, 0)[int(i)]), x.dt)


@reg()
def index_select(x, dim, index):
    return Tensor(np.take(x.a, concrete_ints(index), axis=dim), x.dt)


@reg()
def gather(x, dim, index, **k):
    ix = concrete_ints(index)
    out = obj(ix.shape)
    for p in np.ndindex(*ix.shape):
        q = list(p)
        q[dim] = ix[p]
        out[p] = x.a[tuple(q)]
    return Tensor(out, x.dt)


FUNCS["take_along_dim"] = lambda x, index, dim: gather(x, dim, index)


@reg()
def take(x, index):
    return Tensor(asarr(x.a.reshape(-1)[concrete_ints(index)]), x.dt)


@reg()
def repeat_interleave(x, repeats=None, dim=None, output_size=None, **k):
    if repeats is None:
        x = T(x)
        r = concrete_ints(x)
        return Tensor(fromlist([i for i, n in enumerate(r) for _ in range(n)], (int(r.sum()),)), int64)
    r = concrete_ints(repeats) if isinstance(repeats, Tensor) else repeats
    if isinstance(r, np.ndarray) and r.ndim == 0:
        r = int(r)
    a = x.a.reshape(-1) if dim is None else x.a
    if isinstance(r, np.ndarray) and r.size != a.shape[dim or 0] and r.size != 1:
        raise RuntimeError("repeats must have the same size as input along dim")
    return Tensor(np.repeat(a, r, axis=dim or 0), x.dt)


@reg()
def meshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    return tuple(Tensor(a, t.dt) for a, t in zip(np.meshgrid(*[t.a for t in ts], indexing=indexing), ts))


# --------------------------------------------------------------- scatter
def _scatter(self, dim, index, src, mode, include_self):
    ix = concrete_ints(index)
    s = T(src)
    if isinstance(src, Tensor) and src.dt is not self.dt and s.a.ndim > 0:
        if mode != "set" or True:
            raise RuntimeError("scatter(): Expected self.dtype to be equal to src.dtype")
    sa = cast_arr(s.a, s.dt, self.dt)
    seen = {}
    Ctx.in_tensor += 1
    try:
        for p in np.ndindex(*ix.shape):
            q = list(p)
            j = int(ix[p])
            if j < 0 or j >= self.a.shape[dim]:
                raise RuntimeError("index %d is out of bounds for dimension %d with size %d" % (j, dim, self.a.shape[dim]))
            q[dim] = j
            q = tuple(q)
            v = sa[p] if sa.ndim else sa[()]
            cur = self.a[q]
            if mode == "set":
                self.a[q] = v
                continue
            if not include_self and q not in seen:
                seen[q] = 1
                self.a[q] = v
                continue
            seen[q] = seen.get(q, 0) + 1
            if mode in ("sum", "add"):
                self.a[q] = cur + v
            elif mode == "prod":
                self.a[q] = cur * v
            elif mode == "amax":
                self.a[q] = _mx(cur, v)
            elif mode == "amin":
                self.a[q] = _mn(cur, v)
            else:
                raise Unsupported("scatter_reduce mode " + mode)
    finally:
        Ctx.in_tensor -= 1
    return self


FUNCS["scatter"] = lambda x, dim, index, src=None, value=None, **k: x.clone().scatter_(dim, index, src if src is not None else value, **k)
FUNCS["scatter_add"] = lambda x, dim, index, src: x.clone().scatter_add_(dim, index, src)
FUNCS["scatter_reduce"] = lambda x, dim, index, src, reduce, include_self=True: x.clone().scatter_reduce_(dim, index, src, reduce, include_self=include_self)
FUNCS["index_add"] = lambda x, dim, index, source, **k: x.clone().index_add_(dim, index, source, **k)
FUNCS["index_put"] = lambda x, idx, vals, accumulate=False: x.clone().index_put_(idx, vals, accumulate)
FUNCS["index_fill"] = lambda x, dim, index, v: x.clone().index_fill_(dim, index, v)
FUNCS["index_copy"] = lambda x, dim, index, v: x.clone().index_copy_(dim, index, v)


@reg()
def bincount(x, weights=None, minlength=0):
    ix = concrete_ints(x)
    n = builtins.max(int(ix.max()) + 1 if ix.size else 0, minlength)
    if weights is None:
        r = [0] * n
        for i in ix:
            r[i] += 1
        return Tensor(fromlist(r, (n,)), int64)
    r = [V.ZERO] * n
    for i, w in zip(ix, weights.a):
        r[i] = r[i] + w
    return Tensor(fromlist(r, (n,)), float64 if weights.dt is float64 else weights.dt)


# --------------------------------------------------------------- search / sort
@reg()
def nonzero(x, *, as_tuple=False, **k):
    x = T(x)
    m = concrete_bools(emap(lambda v: v if isinstance(v, (bool, SB)) else to_b(to_sv(v)), x.a))
    idx = np.nonzero(m)
    if as_tuple:
        return tuple(Tensor(fromlist([int(v) for v in i], (i.size,)), int64) for i in idx)
    r = np.argwhere(m)
    return Tensor(fromlist([int(v) for v in r.reshape(-1)], r.shape), int64)


def _order(vals, descending):
    def cmp(i, j):
        a, b = vals[i], vals[j]
        if isinstance(a, int) and isinstance(b, int):
            c = (a > b) - (a < b)
        else:
            a, b = to_sv(a), to_sv(b)
            c = -1 if bool(a < b) else (1 if bool(b < a) else 0)
        return -c if descending else c
    return sorted(range(len(vals)), key=functools.cmp_to_key(cmp))


SortRes = namedtuple("SortRes", ["values", "indices"])


@reg()
def argsort(x, dim=-1, descending=False, stable=False):
    if x.a.ndim != 1:
        raise Unsupported("argsort of %d-d" % x.a.ndim)
    o = _order(list(x.a), descending)
    return Tensor(fromlist(o, (len(o),)), int64)


@reg()
def sort(x, dim=-1, descending=False, stable=False, **k):
    i = argsort(x, dim, descending)
    return SortRes(x[i], i)


@reg()
def median(x, dim=None, **k):
    """the lower of the two middle values, as torch"""
    if dim is not None and x.a.ndim != 1:
        raise Unsupported("median(dim)")
    f = [x.a.reshape(-1)[i] for i in range(x.a.size)]
    o = _order(f, False)
    r = T(f[o[(len(f) - 1) // 2]], x.dt)
    if dim is not None:
        raise Unsupported("median(dim)")
    return r


@reg()
def topk(x, k, dim=-1, largest=True, sorted=True):
    i = argsort(x, dim, largest)[:k]
    return SortRes(x[i], i)


@reg()
def searchsorted(seq, v, right=False, side=None, **k):
    if side == "right":
        right = True
    sv, vv = T(seq).a, T(v).a

    def f(x):
        n = 0
        for s in sv.reshape(-1):
            if bool(to_sv(s) <= x) if right else bool(to_sv(s) < x):
                n += 1
            else:
                break
        return n
    return Tensor(emap(f, vv), int64)


@reg()
def bucketize(v, boundaries, right=False, **k):
    return searchsorted(boundaries, v, right=right)


@reg("unique")
def unique(x, sorted=True, return_inverse=False, return_counts=False, dim=None):
    if dim is not None:
        raise Unsupported("unique dim")
    v = concrete_ints(x.reshape(-1)) if x.dt.cat < 2 else None
    if v is None:
        raise Unsupported("unique of floats")
    u, inv, c = np.unique(v, return_inverse=True, return_counts=True)
    mk = lambda a, s=None: Tensor(fromlist([int(i) for i in a.reshape(-1)], s or (a.size,)), int64)
    out = [mk(u)]
    if return_inverse:
        out.append(mk(inv, x.a.shape))
    if return_counts:
        out.append(mk(c))
    return out[0] if len(out) == 1 else tuple(out)


@reg()
def unique_consecutive(x, return_inverse=False, return_counts=False, dim=None):
    v = [int(i) for i in concrete_ints(x.reshape(-1))]
    u, inv, c = [], [], []
    for i in v:
        if not u or u[-1] != i:
            u.append(i)
            c.append(0)
        inv.append(len(u) - 1)
        c[-1] += 1
    mk = lambda a: Tensor(fromlist(a, (len(a),)), int64)
    out = [mk(u)]
    if return_inverse:
        out.append(mk(inv))
    if return_counts:
        out.append(mk(c))
    return out[0] if len(out) == 1 else tuple(out)


@reg()
def isin(x, test, **k):
    s = set(int(i) for i in concrete_ints(T(test)).reshape(-1))
    return Tensor(emap(lambda v: int(v) in s, x.a), bool_)


@reg()
def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(all_(absolute(T(a) - b) <= absolute(T(b)) * rtol + atol))


@reg()
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return absolute(T(a) - b) <= absolute(T(b)) * rtol + atol


@reg()
def equal(a, b):
    return a.shape == b.shape and bool(all_(T(a) == b))


@reg()
def numel(x):
    return x.a.size


@reg()
def is_tensor(x):
    return isinstance(x, Tensor)


@reg("clone")
def clone(x, **k):
    return x.clone()


@reg("ones_like_")
def _oops(x):
    raise Unsupported("ones_like_")


FUNCS["is_floating_point"] = lambda x: x.dt.cat == 2
FUNCS["detach"] = lambda x: x.detach()
FUNCS["result_type"] = lambda a, b: result_dtype(a, b)
FUNCS["einsum"] = lambda *a: (_ for _ in ()).throw(Unsupported("einsum"))


# --------------------------------------------------------------- sparse
class SparseBase(Tensor):
    def __init__(self):
        raise TypeError

    @property
    def device(self):
        return CPU

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in ("nnz",):
            return self._nnz
        if name in ("indptr", "tocsr", "tocoo", "toarray"):      # scipy names: torch has no such attribute
            raise AttributeError(name)
        raise Unsupported("sparse Tensor.%s" % name)


class SparseCOO(SparseBase):
    is_sparse = True
    layout = sparse_coo

    def __init__(self, ind, vals, shape, dt, coalesced=False):
        self.ind = ind                    # numpy int64 (d, nnz)
        self.vals = vals                  # object array
        self.dt = dt
        self._shape = tuple(shape)
        self._c = coalesced

    @property
    def a(self):
        return self.to_dense().a

    @property
    def shape(self):
        return Size(self._shape)

    @property
    def ndim(self):
        return 2

    def size(self, d=None):
        return self.shape if d is None else self._shape[d]

    def dim(self):
        return 2

    def numel(self):
        return self._shape[0] * self._shape[1]

    def _nnz(self):
        return self.ind.shape[1]

    def is_coalesced(self):
        return self._c

    def coalesce(self):
        if self._c:
            return self
        order = sorted(range(self.ind.shape[1]), key=lambda n: tuple(self.ind[:, n]))
        keys, vals = [], []
        for n in order:
            k = tuple(int(x) for x in self.ind[:, n])
            if keys and keys[-1] == k:
                vals[-1] = vals[-1] + self.vals[n]
            else:
                keys.append(k)
                vals.append(self.vals[n])
        ind = np.array(keys, dtype=np.int64).reshape(-1, 2).T.copy()
        return SparseCOO(ind, fromlist(vals, (len(vals),)), self._shape, self.dt, True)

    def indices(self):
        if not self._c:
            raise RuntimeError("Cannot get indices on an uncoalesced tensor, please call .coalesce() first")
        return self._indices()

    def _indices(self):
        return Tensor(fromlist([int(x) for x in self.ind.reshape(-1)], self.ind.shape), int64)

    def values(self):
        if not self._c:
            raise RuntimeError("Cannot get values on an uncoalesced tensor, please call .coalesce() first")
        return Tensor(self.vals, self.dt)

    def _values(self):
        return Tensor(self.vals, self.dt)

    def _values_t(self):
        return Tensor(self.coalesce().vals, self.dt)

    def to_dense(self):
        d = _mk(self._shape, 0, self.dt)
        for n in range(self.ind.shape[1]):
            k = tuple(int(x) for x in self.ind[:, n])
            d.a[k] = d.a[k] + self.vals[n]
        return d

    def to_sparse_coo(self):
        return self

    def to_sparse(self, *a, **k):
        return self

    def to_sparse_csr(self, *a, **k):
        c = self.coalesce()
        crow = np.zeros(self._shape[0] + 1, dtype=np.int64)
        for r in c.ind[0]:
            crow[r + 1] += 1
        crow = np.cumsum(crow)
        return SparseCSR(crow, c.ind[1].copy(), c.vals, self._shape, self.dt)

    def t(self):
        return SparseCOO(self.ind[::-1].copy(), self.vals, self._shape[::-1], self.dt, False)

    def transpose(self, a, b):
        return self.t()

    T = property(t)

    def to(self, *args, **kw):
        dt = kw.get("dtype")
        for x in args:
            if isinstance(x, DType):
                dt = x
        if dt is None or dt is self.dt:
            return self
        return SparseCOO(self.ind, cast_arr(self.vals, self.dt, dt), self._shape, dt, self._c)

    def clone(self):
        return SparseCOO(self.ind.copy(), self.vals.copy(), self._shape, self.dt, self._c)

    def double(self):
        return self.to(float64)

    def float(self):
        return self.to(float32)

    def cpu(self):
        return self

    def detach(self):
        return self

    def __matmul__(self, o):
        return sparse_mm(self, o)

    def matmul(self, o):
        return sparse_mm(self, o)
    mm = mv = matmul

    def __mul__(self, o):
        return SparseCOO(self.ind, emap(lambda x: x * (o.item() if isinstance(o, Tensor) else o), self.vals), self._shape, self.dt, self._c)
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def sum(self, dim=None, **k):
        return sum_(self.to_dense(), dim)

    def __getitem__(self, i):
        return self.to_dense()[i]


class SparseCSR(SparseBase):
    is_sparse_csr = True
    layout = sparse_csr

    def __init__(self, crow, col, vals, shape, dt):
        self.crow, self.col, self.vals, self.dt, self._shape = crow, col, vals, dt, tuple(int(s) for s in shape)

    shape = SparseCOO.shape
    ndim = SparseCOO.ndim
    size = SparseCOO.size
    dim = SparseCOO.dim
    numel = SparseCOO.numel
    __matmul__ = SparseCOO.__matmul__
    matmul = mm = mv = SparseCOO.matmul
    __getitem__ = SparseCOO.__getitem__
    sum = SparseCOO.sum
    double = SparseCOO.double
    float = SparseCOO.float
    cpu = SparseCOO.cpu
    detach = SparseCOO.detach

    @property
    def a(self):
        return self.to_dense().a

    def _nnz(self):
        return len(self.col)

    def crow_indices(self):
        return Tensor(fromlist([int(x) for x in self.crow], (len(self.crow),)), int64)

    def col_indices(self):
        return Tensor(fromlist([int(x) for x in self.col], (len(self.col),)), int64)

    def values(self):
        return Tensor(self.vals, self.dt)

    def _values_t(self):
        return Tensor(self.vals, self.dt)

    def rows(self):
        return np.repeat(np.arange(self._shape[0]), np.diff(self.crow))

    def to_sparse_coo(self):
        return SparseCOO(np.stack([self.rows(), np.asarray(self.col, dtype=np.int64)]) if len(self.col) else np.zeros((2, 0), dtype=np.int64),
                         self.vals, self._shape, self.dt, True)

    def to_sparse(self, *a, **k):
        return self.to_sparse_coo()

    def to_sparse_csr(self, *a, **k):
        return self

    def to_dense(self):
        return self.to_sparse_coo().to_dense()

    def coalesce(self):
        return self

    def t(self):
        return self.to_sparse_coo().t().to_sparse_csr()

    def transpose(self, a, b):
        return self.t()

    T = property(t)

    def to(self, *args, **kw):
        dt = kw.get("dtype")
        for x in args:
            if isinstance(x, DType):
                dt = x
        if dt is None or dt is self.dt:
            return self
        return SparseCSR(self.crow, self.col, cast_arr(self.vals, self.dt, dt), self._shape, dt)

    def clone(self):
        return SparseCSR(self.crow.copy(), self.col.copy(), self.vals.copy(), self._shape, self.dt)

    def __mul__(self, o):
        return SparseCSR(self.crow, self.col, emap(lambda x: x * (o.item() if isinstance(o, Tensor) else o), self.vals), self._shape, self.dt)
    __rmul__ = __mul__


def _sparse_bin(op, a, b):
    if op == "mul" and not (isinstance(a, (SparseCOO, SparseCSR)) and isinstance(b, Tensor) and b.dim() > 0):
        return a * b if isinstance(a, (SparseCOO, SparseCSR)) else b * a
    da = a.to_dense() if isinstance(a, (SparseCOO, SparseCSR)) else a
    db = b.to_dense() if isinstance(b, (SparseCOO, SparseCSR)) else b
    r = _bin(op, da, db)
    if isinstance(a, (SparseCOO, SparseCSR)) and isinstance(b, (SparseCOO, SparseCSR)) and op in ("add", "sub"):
        return r.to_sparse() if isinstance(a, SparseCOO) else r.to_sparse_csr()
    return r


def sparse_mm(a, b, *rest, **k):
    if isinstance(a, (SparseCOO, SparseCSR)) and isinstance(b, (SparseCOO, SparseCSR)):
        A, B = a.to_sparse_coo(), b.to_sparse_coo()
        rows = {}
        for n in range(B.ind.shape[1]):
            rows.setdefault(int(B.ind[0, n]), []).append((int(B.ind[1, n]), B.vals[n]))
        acc = {}
        for n in range(A.ind.shape[1]):
            i, j, v = int(A.ind[0, n]), int(A.ind[1, n]), A.vals[n]
            for (c, w) in rows.get(j, ()):
                t = v * w
                acc[(i, c)] = acc[(i, c)] + t if (i, c) in acc else t
        keys = sorted(acc)
        ind = np.array(keys, dtype=np.int64).reshape(-1, 2).T.copy()
        r = SparseCOO(ind, fromlist([acc[x] for x in keys], (len(keys),)), (A._shape[0], B._shape[1]), A.dt, True)
        return r.to_sparse_csr() if isinstance(a, SparseCSR) else r
    if isinstance(a, (SparseCOO, SparseCSR)):
        if b.dt is not a.dt:
            raise RuntimeError("expected same dtype in sparse mm")
        A = a.to_sparse_coo()
        vec = b.a.ndim == 1
        X = b.a.reshape(-1, 1) if vec else b.a
        if X.shape[0] != A._shape[1]:
            raise RuntimeError("mat1 and mat2 shapes cannot be multiplied")
        out = _mk((A._shape[0], X.shape[1]), 0, a.dt).a
        for n in range(A.ind.shape[1]):
            i, j, v = int(A.ind[0, n]), int(A.ind[1, n]), A.vals[n]
            for c in range(X.shape[1]):
                out[i, c] = out[i, c] + v * X[j, c]
        return Tensor(out[:, 0].copy() if vec else out, a.dt)
    return transpose(sparse_mm(b.t(), T(a).t()), 0, 1) if T(a).dim() == 2 else sparse_mm(b.t(), a)


def sparse_coo_tensor(indices, values, size=None, *, dtype=None, device=None, is_coalesced=None, **k):
    ind = concrete_ints(T(indices))
    v = T(values)
    if dtype is not None:
        v = T(v, np_dt(dtype))
    if ind.ndim != 2 or ind.shape[1] != v.a.shape[0]:
        raise RuntimeError("number of indices must match values")
    if size is None:
        size = tuple(int(x) + 1 for x in ind.max(axis=1))
    if ind.size and ((ind < 0).any() or (ind.max(axis=1) >= np.array(tuple(size))).any()):
        raise RuntimeError("size is inconsistent with indices")
    return SparseCOO(ind, v.a.copy(), tuple(int(s) for s in size), v.dt, False)


def sparse_csr_tensor(crow, col, values, size=None, *, dtype=None, device=None, **k):
    cr, co = concrete_ints(T(crow)), concrete_ints(T(col))
    v = T(values)
    if dtype is not None:
        v = T(v, np_dt(dtype))
    if size is None:
        size = (len(cr) - 1, int(co.max()) + 1 if len(co) else 0)
    if len(cr) != int(size[0]) + 1 or cr[0] != 0 or cr[-1] != len(co) or len(co) != v.a.shape[0] or (np.diff(cr) < 0).any():
        raise RuntimeError("invalid CSR structure")
    if len(co) and (co.min() < 0 or co.max() >= int(size[1])):
        raise RuntimeError("`0 <= col_indices < ncols` is not satisfied.")
    for r in range(len(cr) - 1):
        seg = co[cr[r]:cr[r + 1]]
        if (np.diff(seg) <= 0).any():
            raise RuntimeError("`col_indices[..., crow_indices[..., i - 1]:crow_indices[..., i]] for all i = 1, ..., nrows are sorted and distinct` is not satisfied.")
    return SparseCSR(cr.astype(np.int64), co.astype(np.int64), v.a, tuple(int(s) for s in size), v.dt)


# --------------------------------------------------------------- module object
class _NS:
    def __init__(self, name, **kw):
        self.__dict__["_name"] = name
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self._name, n))


class _CtxDeco:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def _script(f=None, **k):
    return f if f is not None else (lambda g: g)


class Generator:
    def __init__(self, *a, **k):
        pass

    def manual_seed(self, s):
        return self


class _FInfo:
    def __init__(self, d=None):
        d = d or _default[0]
        f = np.finfo(np.float64 if d.bits == 64 else np.float32)
        self.eps, self.tiny, self.max, self.min = float(f.eps), float(f.tiny), float(f.max), float(f.min)
        self.smallest_normal = self.tiny


class _IInfo:
    def __init__(self, d=None):
        b = (d or int64).bits
        self.max, self.min = 2 ** (b - 1) - 1, -2 ** (b - 1)


class TorchModule:
    """what `import torch` yields inside the code under test"""

    def __init__(self):
        d = self.__dict__
        d["__name__"] = "torch"
        d["__version__"] = "sym"
        for n, f in FUNCS.items():
            d[n] = f
        for n, x in DTYPES.items():
            d[n] = x
        d.update(double=float64, float=float32, half=float16, long=int64, int=int32, short=int16, bool=bool_,
                 Tensor=Tensor, device=device, Size=Size, dtype=DType, strided=strided, sparse_coo=sparse_coo,
                 sparse_csr=sparse_csr, sparse_coo_tensor=sparse_coo_tensor, sparse_csr_tensor=sparse_csr_tensor,
                 FloatTensor=lambda x: from_any(x, float32), LongTensor=lambda x: from_any(x, int64),
                 DoubleTensor=lambda x: from_any(x, float64), BoolTensor=lambda x: from_any(x, bool_),
                 pi=_math.pi, inf=V.INF, nan=float("nan"), e=_math.e,
                 no_grad=_CtxDeco, inference_mode=_CtxDeco, enable_grad=_CtxDeco, set_grad_enabled=_CtxDeco,
                 manual_seed=lambda s: Generator(), Generator=Generator, finfo=_FInfo, iinfo=_IInfo,
                 get_default_dtype=lambda: _default[0], set_default_dtype=lambda x: _default.__setitem__(0, np_dt(x)),
                 set_num_threads=lambda n: None, get_num_threads=lambda: 1, is_grad_enabled=lambda: False,
                 compile=_script, memory_format=None, preserve_format=None, contiguous_format=None)
        d["sparse"] = _NS("torch.sparse", mm=sparse_mm, sum=lambda x, dim=None: sum_(x.to_dense(), dim))
        d["linalg"] = _NS("torch.linalg", norm=norm, vector_norm=norm, solve=linalg_solve, matmul=matmul,
                          inv=lambda A: Tensor(gauss_solve(A.a, eye(A.a.shape[0], dtype=A.dt).a), A.dt),
                          lstsq=_lstsq, qr=_qr, LinAlgError=RuntimeError, multi_dot=lambda ts: functools.reduce(matmul, ts))
        d["inverse"] = d["linalg"].inv
        d["cuda"] = _NS("torch.cuda", is_available=lambda: False, synchronize=lambda *a: None, empty_cache=lambda: None,
                        device_count=lambda: 0, get_device_name=lambda *a: "", memory_allocated=lambda *a: 0, current_device=lambda: 0)
        d["backends"] = _NS("torch.backends", mps=_NS("mps", is_available=lambda: False), cuda=_NS("cuda", is_built=lambda: False), cudnn=_NS("cudnn"))
        d["jit"] = _NS("torch.jit", script=_script, trace=lambda f, *a, **k: f, ignore=_script, export=_script)
        d["nn"] = _NS("torch.nn", functional=_NS("torch.nn.functional", relu=FUNCS["relu"], pad=_pad))
        d["random"] = _NS("torch.random", manual_seed=lambda s: None)
        d["autograd"] = _NS("torch.autograd")
        d["special"] = _NS("torch.special")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("torch.%s" % n)


def _pad(x, pad, mode="constant", value=0.0):
    a = x.a
    n = len(pad) // 2
    widths = [(0, 0)] * (a.ndim - n) + [(pad[2 * i], pad[2 * i + 1]) for i in reversed(range(n))]
    out = _mk(tuple(s + l + r for s, (l, r) in zip(a.shape, widths)), value, x.dt)
    out.a[tuple(slice(l, l + s) for s, (l, r) in zip(a.shape, widths))] = a
    return out


LstsqRes = namedtuple("LstsqRes", ["solution"])


def _lstsq(A, B, **k):
    hook = HOOKS.get("linalg.lstsq")
    if hook:
        r = hook(A, B)
        if r is not None:
            return LstsqRes(r)
    At = A.a.T
    b = B.a.reshape(-1, 1) if B.a.ndim == 1 else B.a
    return LstsqRes(Tensor(gauss_solve(_matmul_arr(At, A.a), _matmul_arr(At, b)).reshape((A.a.shape[1],) + B.a.shape[1:]), A.dt))


def _qr(A, mode="reduced"):
    hook = HOOKS.get("linalg.qr")
    if hook:
        r = hook(A)
        if r is not None:
            return r
    raise Unsupported("qr")
