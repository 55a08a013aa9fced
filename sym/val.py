"""Symbolic scalars.

SV  - a real-valued term in Laurent-polynomial normal form over *atoms*, with exact
      rational coefficients (python floats are taken by their shortest decimal form).
SB  - a boolean term over comparisons of SVs.

Atoms: base variables, if-then-else terms, reciprocals, cut definitions, and a few
transcendental applications.  Every atom has an interval; intervals are used to decide
comparisons without a solver when they are already implied by the stated input ranges.
"""
from fractions import Fraction
import math as _math

INF = float("inf")


class Unsupported(BaseException):
    """The engine met something it cannot encode.  BaseException on purpose: the code
    under test contains `except Exception` handlers which must not swallow it."""


class Ctx:
    explorer = None          # current path explorer (set by explore.py)
    cut_terms = 600          # polynomials larger than this become a definition atom
    in_tensor = 0            # >0 while a tensor operation is being evaluated element-wise


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "lo", "hi", "args", "integer", "key")

    def __init__(self, kind, name, lo, hi, args=None, integer=False):
        self.id = len(ATOMS)
        self.kind = kind
        self.name = name
        self.lo = lo
        self.hi = hi
        self.args = args
        self.integer = integer
        ATOMS.append(self)


ATOMS = []
_INTERN = {}


def reset():
    ATOMS.clear()
    _INTERN.clear()
    _SB_INTERN.clear()


_FRAC = {}


def _tidy(x):
    """a float constant as the short rational it stands for (within 1e-14), so that constants folded
    in different orders by the program are recognised as the same number"""
    ex = Fraction(x)
    r = Fraction("%.11e" % x)
    tol = abs(ex) / 10 ** 14
    if abs(r - ex) <= tol:
        return r
    m, e = ("%.17e" % x).split("e")
    f = Fraction(10) ** int(e)
    m = (ex / f).limit_denominator(5000)
    if abs(m * f - ex) <= tol:
        return m * f
    return Fraction(repr(x))


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            raise Unsupported("non-finite constant %r" % x)
        if x == int(x) and abs(x) < 1e15:
            return Fraction(int(x))
        r = _FRAC.get(x)
        if r is None:
            r = _FRAC[x] = _tidy(x)
        return r
    # numpy scalars
    if hasattr(x, "item"):
        return frac(x.item())
    raise Unsupported("cannot take %r as a number" % (type(x),))


# ---------------------------------------------------------------- intervals
def _imul(a, b, c, d):
    def m(x, y):
        if x == 0 or y == 0:
            return Fraction(0)
        return x * y
    p = (m(a, c), m(a, d), m(b, c), m(b, d))
    return min(p), max(p)


def _ipow(lo, hi, e):
    if e == 1:
        return lo, hi
    if e < 0:
        if lo > 0 or hi < 0:
            l = Fraction(0) if hi in (INF,) else (1 / hi)
            h = Fraction(0) if lo in (-INF,) else (1 / lo)
            return _ipow(l, h, -e)
        if lo == 0 and hi > 0:
            return _ipow(Fraction(0) if hi == INF else 1 / hi, INF, -e)
        return -INF, INF
    def p(x):
        if x in (INF, -INF):
            return INF if (x > 0 or e % 2 == 0) else -INF
        return x ** e
    if e % 2 == 1:
        return p(lo), p(hi)
    if lo >= 0:
        return p(lo), p(hi)
    if hi <= 0:
        return p(hi), p(lo)
    return Fraction(0), max(p(lo), p(hi))


_MONO_IV = {}


def mono_iv(m):
    lo, hi = Fraction(1), Fraction(1)
    for aid, e in m:
        a = ATOMS[aid]
        l, h = _ipow(a.lo, a.hi, e)
        lo, hi = _imul(lo, hi, l, h)
    return lo, hi


# ---------------------------------------------------------------- SV
def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    res = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                res.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            res.append(x)
            i += 1
        else:
            res.append(y)
            j += 1
    if i < la:
        res.extend(a[i:])
    if j < lb:
        res.extend(b[j:])
    return tuple(res)


FMT = []             # values printed into text: "<sym:n>" stands for the n-th


class SV:
    __slots__ = ("t", "_iv", "_key")
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t
        self._iv = None
        self._key = None

    # -- construction
    @staticmethod
    def const(x):
        f = frac(x)
        return SV({(): f}) if f else SV({})

    @staticmethod
    def atom(a):
        return SV({((a.id, 1),): Fraction(1)})

    @property
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    @property
    def cval(self):
        return self.t.get((), Fraction(0))

    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def iv(self):
        if self._iv is None:
            lo, hi = Fraction(0), Fraction(0)
            for m, c in self.t.items():
                if m:
                    l, h = mono_iv(m)
                    l, h = _imul(c, c, l, h)
                else:
                    l = h = c
                lo = lo + l if lo != -INF and l != -INF else -INF
                hi = hi + h if hi != INF and h != INF else INF
            self._iv = (lo, hi)
        return self._iv

    def __array_ufunc__(self, uf, method, *ins, **kw):
        return array_ufunc(uf, method, ins, kw)

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        if not b:
            return SV(a)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        return _cut(SV(r))
    __radd__ = __add__

    def __neg__(self):
        return SV({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        a, b = self.t, o.t
        if not a or not b:
            return SV({})
        if len(b) == 1 and () in b:
            k = b[()]
            if k == 1:
                return self
            return SV({m: short(c * k) for m, c in a.items()})
        if len(a) == 1 and () in a:
            k = a[()]
            if k == 1:
                return o
            return SV({m: short(c * k) for m, c in b.items()})
        if len(a) * len(b) > 4 * Ctx.cut_terms:
            if len(a) > len(b):
                return SV(define(self).t) * o
            return self * define(o)
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mono_mul(m1, m2)
                c = short(c1 * c2)
                v = r.get(m)
                if v is None:
                    r[m] = c
                else:
                    v = v + c
                    if v:
                        r[m] = v
                    else:
                        del r[m]
        return _cut(SV(r))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return self * recip(o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return o * recip(self)

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(lift(o) / self)

    def __mod__(self, o):
        o = lift(o)
        return self - o * floor(self / o)

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - lift(o) * q

    def __rdivmod__(self, o):
        return lift(o).__divmod__(self)

    def __pow__(self, e, mod=None):
        return power(self, e)

    def __rpow__(self, b):
        return power(lift(b), self)

    def __abs__(self):
        return sabs(self)

    # -- comparisons
    def __lt__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return rel("<", self - o)

    def __le__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return rel("<=", self - o)

    def __gt__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return rel("<", o - self)

    def __ge__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return rel("<=", o - self)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        try:
            o = lift(o)
        except Unsupported:
            return False
        if o is NotImplemented:
            return o
        return rel("==", self - o)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return bnot(r)

    def __hash__(self):
        if self.is_const:
            c = self.cval
            return hash(c)
        return hash(self.key())

    def __bool__(self):
        r = rel("==", self)
        return not (r if isinstance(r, bool) else bool(r))

    # -- conversions
    def __float__(self):
        if self.is_const:
            return float(self.cval)
        raise Unsupported("float() of a symbolic value outside the engine's control")

    def __int__(self):
        return concretise_int(trunc(self))

    def __index__(self):
        return concretise_int(self)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __round__(self, nd=None):
        if self.is_const:
            return SV.const(round(self.cval, nd)) if nd is not None else round(self.cval)
        f = floor(self + Fraction(1, 2))
        return f

    def __format__(self, spec):
        if self.is_const:
            try:
                return format(float(self.cval), spec)
            except (ValueError, OverflowError):
                return format(int(self.cval), spec)
        FMT.append(self)
        return "<sym:%d>" % (len(FMT) - 1)

    def __repr__(self):
        return "SV(%s)" % show(self)

    def __str__(self):
        if self.is_const:
            c = self.cval
            return str(float(c)) if c.denominator != 1 else str(int(c))
        return "<sym>"

    # methods people call on floats / numpy scalars / 0-dim values
    def item(self):
        return self

    def is_integer(self):
        return self == floor(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def sqrt(self):
        return fn1("sqrt", self)

    def exp(self):
        return fn1("exp", self)

    def log(self):
        return fn1("log", self)

    # numpy calls these methods by name on object arrays
    def ceil(self):
        return ceil(self)

    def floor(self):
        return floor(self)

    def rint(self):
        return self.__round__()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def array_ufunc(uf, method, ins, kw):
    """a numpy operator with a symbolic scalar among its operands"""
    import numpy as np
    from . import nshim
    if method != "__call__" or any(v is not None for v in kw.values()):
        return NotImplemented
    o = []
    for x in ins:
        if isinstance(x, np.ndarray) and not isinstance(x, nshim.NArr):
            x = nshim.np_asarray(x.astype(object))
        o.append(x)
    n = uf.__name__
    cmp = {"less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "equal": "eq", "not_equal": "ne"}
    if n in cmp:
        if isinstance(o[0], np.ndarray):
            return o[0]._cmp(o[1], cmp[n])
        flip = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}
        return o[1]._cmp(o[0], flip.get(cmp[n], cmp[n]))
    ops = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "power": "pow"}
    if n not in ops:
        raise Unsupported("numpy.%s with a symbolic number" % n)
    o = [x._t() if isinstance(x, nshim.NArr) else x for x in o]
    return nshim._back(nshim.TS._bin(ops[n], o[0], o[1]))


def lift(x):
    if isinstance(x, SV):
        return x
    if isinstance(x, float) and (x == INF or x == -INF):
        return BIG if x > 0 else NBIG
    if isinstance(x, (int, float, Fraction)):
        return SV.const(x)
    if isinstance(x, SB):
        return ite(x, ONE, ZERO)
    if type(x).__module__ == "numpy" and getattr(x, "ndim", 1) == 0 and hasattr(x, "item"):
        return lift(x.item())
    return NotImplemented


def to_sv(x):
    r = lift(x)
    if r is NotImplemented:
        raise Unsupported("not a scalar: %r" % (type(x),))
    return r


ZERO = SV({})
BIG = SV({(): Fraction(10) ** 60})        # stands for +inf
NBIG = SV({(): -Fraction(10) ** 60})
ONE = SV({(): Fraction(1)})


def _cut(sv):
    if len(sv.t) > Ctx.cut_terms:
        return define(sv)
    return sv


def define(sv):
    """Replace a large polynomial by a definition atom (syntactically hash-consed)."""
    if len(sv.t) <= 1:
        return sv
    k = ("def", sv.key())
    a = _INTERN.get(k)
    if a is None:
        lo, hi = sv.iv()
        a = Atom("def", "d", lo, hi, args=sv)
        _INTERN[k] = a
    return SV.atom(a)


def new_var(name, lo=-INF, hi=INF, integer=False):
    lo = lo if lo in (INF, -INF) else frac(lo)
    hi = hi if hi in (INF, -INF) else frac(hi)
    k = ("var", name)
    a = _INTERN.get(k)
    if a is None:
        a = Atom("var", name, lo, hi, integer=integer)
        _INTERN[k] = a
    return SV.atom(a)


def single_mono(sv):
    if len(sv.t) == 1:
        return next(iter(sv.t.items()))
    return None


def _nonzero(a):
    return a.lo > 0 or a.hi < 0


def short(c):
    """a coefficient kept to some 400 significant bits (irrational constants are approximations anyway)"""
    if c.denominator.bit_length() > 1500:
        k = 400 - c.numerator.bit_length() + c.denominator.bit_length()
        return Fraction((c.numerator << k) // c.denominator, 1 << k)
    return c


def recip(d):
    if not d.t:
        if Ctx.explorer is not None and Ctx.in_tensor:
            Ctx.explorer.note_divzero()
        return div_by_zero()
    if d.is_const:
        return SV({(): short(1 / d.cval)})
    sm = single_mono(d)
    if sm is not None and len(sm[0]) == 1 and sm[0][0][1] == 1 and ATOMS[sm[0][0][0]].kind == "floor" and Ctx.explorer is not None:
        k = Ctx.explorer.pick_int(d / sm[1] if sm[1] not in (1, -1) else d)
        if sm[1] not in (1, -1):
            k = k * sm[1]
        return recip(SV.const(k))
    if sm is not None:
        m, c = sm
        if all(_nonzero(ATOMS[aid]) for aid, e in m):
            # Laurent monomial only over atoms known to be non-zero
            return SV({tuple((aid, -e) for aid, e in m): 1 / c})
    # factor out content: leading coefficient and common non-zero monomial
    common = None
    for m in d.t:
        mm = {aid: e for aid, e in m if _nonzero(ATOMS[aid])}
        if common is None:
            common = mm
        else:
            common = {a: min(e, mm[a]) for a, e in common.items() if a in mm and (e > 0) == (mm[a] > 0)}
        if not common:
            break
    pre = ONE
    if common:
        cm = tuple(sorted((a, -e) for a, e in common.items() if e))
        if cm:
            pre = SV({cm: Fraction(1)})
            d = d * pre
    lead = d.t[min(d.t)] if () not in d.t else d.t[()]
    lo, hi = d.iv()
    if lo >= 0 or hi <= 0:
        s = abs(lead)
    else:
        s = lead
    if s != 1:
        d = d * (1 / s)
    if d.is_const:
        return pre * SV({(): 1 / (d.cval * s)})
    sm = single_mono(d)
    if sm is not None and all(_nonzero(ATOMS[aid]) for aid, e in sm[0]):
        m, c = sm
        return pre * SV({tuple((aid, -e) for aid, e in m): 1 / (c * s)})
    lo, hi = d.iv()
    if not (lo > 0 or hi < 0):
        ex = Ctx.explorer
        if ex is not None:
            # split on zero: torch yields inf/nan there, python raises ZeroDivisionError
            z = rel("==", d)
            if z is True or (z is not False and ex.branch(z)):
                if Ctx.in_tensor:
                    ex.note_divzero()
                return div_by_zero()
    k = ("inv", d.key())
    a = _INTERN.get(k)
    if a is None:
        if lo > 0 or hi < 0:
            l, h = _ipow(lo, hi, -1)
        elif lo == 0:
            l, h = (Fraction(0) if hi == INF else 1 / hi), INF
        elif hi == 0:
            l, h = -INF, (Fraction(0) if lo == -INF else 1 / lo)
        else:
            l, h = -INF, INF
        a = Atom("inv", "inv", l, h, args=d)
        _INTERN[k] = a
    return pre * SV.atom(a) * SV({(): 1 / s})


def div_by_zero():
    # python floats raise; tensors yield inf/nan, modelled by an unconstrained fresh value
    if not Ctx.in_tensor:
        raise ZeroDivisionError("float division by zero")
    ex = Ctx.explorer
    if ex is not None and ex.on_divzero == "fresh":
        return ex.fresh("divzero")
    raise Unsupported("division by a value that can be zero")


def power(b, e):
    e_sv = lift(e)
    if e_sv is NotImplemented:
        return e_sv
    b = lift(b)
    if e_sv.is_const:
        c = e_sv.cval
        if c.denominator == 1 and abs(c.numerator) <= 12:
            n = c.numerator
            if n == 0:
                return ONE
            r = ONE
            base = b
            if n >= 2 and len(b.t) >= 2 and b.iv()[0] >= 0:
                base = define(b)
            for _ in range(abs(n)):
                r = r * base
            return r if n > 0 else recip(r)
        if b.is_const:
            v = b.cval
            if v == 0:
                if c > 0:
                    return ZERO
                return div_by_zero()
            if v == 1:
                return ONE
            if v > 0:
                return SV.const(float(v) ** float(c))
        if c == Fraction(1, 2):
            return fn1("sqrt", b)
        # real power of a (non-negative) base; torch gives nan for a negative one
        if b.iv()[0] < 0 and Ctx.explorer is not None:
            neg = rel("<", b)
            if neg is True or (neg is not False and Ctx.explorer.branch(neg)):
                if Ctx.in_tensor:
                    Ctx.explorer.note_divzero()
                return Ctx.explorer.fresh("divzero")
        k = ("pow", b.key(), c)
        a = _INTERN.get(k)
        if a is None:
            lo, hi = b.iv()
            lo = max(lo, Fraction(0))

            def f(x, up):
                if x == INF:
                    return INF if c > 0 else Fraction(0)
                if x == 0:
                    return Fraction(0) if c > 0 else INF
                v = float(x) ** float(c)
                return frac(v * (1 + 1e-12) if up else v * (1 - 1e-12)) if x != 1 else Fraction(1)
            l, h = (f(lo, False), f(hi, True)) if c > 0 else (f(hi, False), f(lo, True))
            a = Atom("pow", "pow", l, h, args=(b, c))
            _INTERN[k] = a
        return SV.atom(a)
    # symbolic exponent: only via enumeration of integers
    raise Unsupported("symbolic exponent")


def fn1(name, x):
    x = to_sv(x)
    if x.is_const:
        v = float(x.cval)
        try:
            r = getattr(_math, name)(v)
        except ValueError:
            raise ValueError("math domain error")
        if name == "sqrt" and x.cval >= 0:
            n, d = x.cval.numerator, x.cval.denominator
            rn, rd = _math.isqrt(n), _math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return SV.const(Fraction(rn, rd))
        return SV.const(r)
    k = (name, x.key())
    a = _INTERN.get(k)
    if a is None:
        lo, hi = x.iv()
        if name == "sqrt":
            def g(v, up):
                if v == INF:
                    return INF
                v = max(v, Fraction(0))
                if v == 0:
                    return Fraction(0)
                w = _math.sqrt(v)
                return frac(w * (1 + 1e-12) if up else w * (1 - 1e-12))
            l, h = g(lo, False), g(hi, True)
        elif name == "exp":
            def g(v, up):
                if v == INF or v > 700:
                    return INF
                if v == -INF or v < -700:
                    return Fraction(0)
                if v == 0:
                    return Fraction(1)
                w = _math.exp(v)
                return frac(w * (1 + 1e-12) if up else w * (1 - 1e-12))
            l, h = g(lo, False), g(hi, True)
        elif name == "log":
            def g(v, up):
                if v == INF:
                    return INF
                if v <= 0:
                    return -INF
                w = _math.log(v)
                return frac(w + 1e-12 * (abs(w) + 1) * (1 if up else -1))
            l, h = g(lo, False), g(hi, True)
        else:
            raise Unsupported("function " + name)
        a = Atom(name, name, l, h, args=x)
        _INTERN[k] = a
    return SV.atom(a)


# -- integer parts (fresh integer atoms tied to their argument)
def floor(x):
    x = to_sv(x)
    if x.is_const:
        return SV.const(_math.floor(x.cval))
    if is_integral(x):
        return x
    k = ("floor", x.key())
    a = _INTERN.get(k)
    if a is None:
        lo, hi = x.iv()
        lo = lo if lo == -INF else Fraction(_math.floor(lo))
        hi = hi if hi == INF else Fraction(_math.floor(hi))
        a = Atom("floor", "floor", lo, hi, args=x, integer=True)
        _INTERN[k] = a
    return SV.atom(a)


def ceil(x):
    return -floor(-to_sv(x))


def trunc(x):
    x = to_sv(x)
    if x.is_const:
        return SV.const(_math.trunc(x.cval))
    lo, hi = x.iv()
    if lo >= 0:
        return floor(x)
    if hi <= 0:
        return ceil(x)
    if is_integral(x):
        return x
    return ite(x >= 0, floor(x), ceil(x))


def is_integral(x):
    for m, c in x.t.items():
        if c.denominator != 1:
            return False
        for aid, e in m:
            if e < 0 or not ATOMS[aid].integer:
                return False
    return True


def concretise_int(x):
    x = to_sv(x)
    if x.is_const:
        c = x.cval
        if c.denominator != 1:
            raise TypeError("not an integer value")
        return int(c)
    if Ctx.explorer is None:
        raise Unsupported("integer value of a symbolic term")
    return Ctx.explorer.pick_int(x)


# ---------------------------------------------------------------- SB
_SB_INTERN = {}


class SB:
    __slots__ = ("op", "args", "id", "neg")
    __array_priority__ = 1000

    def __bool__(self):
        if Ctx.explorer is None:
            raise Unsupported("branch on a symbolic condition outside a run")
        return Ctx.explorer.branch(self)

    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        o = to_b(o)
        return bor(band(self, bnot(o)), band(bnot(self), o))
    __rxor__ = __xor__

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        if isinstance(o, (SB, bool)):
            return bnot(self ^ o)
        if isinstance(o, (int, float, Fraction, SV)):
            return lift(self) == o
        return False

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return self.id

    def __add__(self, o):
        return lift(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return lift(o) - lift(self)

    def __mul__(self, o):
        return lift(self) * o
    __rmul__ = __mul__

    def __neg__(self):
        return -lift(self)

    def __lt__(self, o):
        return lift(self) < o

    def __gt__(self, o):
        return lift(self) > o

    def __le__(self, o):
        return lift(self) <= o

    def __ge__(self, o):
        return lift(self) >= o

    def item(self):
        return self

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __format__(self, spec):
        return "<symbool>"

    def logical_not(self):
        return bnot(self)

    def __repr__(self):
        return "SB(%s)" % showb(self)


def _mk(op, args):
    k = (op, args)
    b = _SB_INTERN.get(k)
    if b is None:
        b = SB.__new__(SB)
        b.op = op
        b.args = args
        b.id = len(_SB_INTERN)
        b.neg = None
        _SB_INTERN[k] = b
    return b


_REL_INTERN = {}


def _norm_rel(sv):
    """Scale by a positive factor: common positive atoms and |leading coefficient|."""
    t = sv.t
    if () not in t:
        common = None
        for m in t:
            mm = {aid: e for aid, e in m if ATOMS[aid].lo > 0}
            if common is None:
                common = mm
            else:
                common = {a: (min(e, mm[a]) if e > 0 else max(e, mm[a]))
                          for a, e in common.items() if a in mm and (e > 0) == (mm[a] > 0)}
            if not common:
                break
        if common:
            cm = tuple(sorted((a, -e) for a, e in common.items() if e))
            t = {_mono_mul(m, cm): c for m, c in t.items()}
    lead = abs(t[min(t)])
    if lead != 1:
        t = {m: c / lead for m, c in t.items()}
    return SV(t)


class RelArg:
    """hashable wrapper of a polynomial used as a relation argument"""
    __slots__ = ("sv", "h")

    def __init__(self, sv):
        self.sv = sv
        self.h = hash(sv.key())

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.sv.key() == o.sv.key()


def rel(op, sv):
    """sv op 0"""
    lo, hi = sv.iv()
    if op == "<":
        if hi < 0:
            return True
        if lo >= 0:
            return False
    elif op == "<=":
        if hi <= 0:
            return True
        if lo > 0:
            return False
    else:
        if lo > 0 or hi < 0:
            return False
        if lo == 0 and hi == 0:
            return True
    if sv.is_const:
        c = sv.cval
        return c < 0 if op == "<" else c <= 0 if op == "<=" else c == 0
    sv = _norm_rel(sv)
    # canonical: represent p<=0 as not(-p<0);  p==0 with canonical sign
    if op == "<":
        return _mk("<", RelArg(sv))
    if op == "<=":
        return bnot(_mk("<", RelArg(-sv)))
    if sv.t[min(sv.t)] < 0:
        sv = -sv
    return _mk("==", RelArg(sv))


def bvar(name):
    return _mk("bvar", name)


def to_b(x):
    if isinstance(x, (SB, bool)):
        return x
    if isinstance(x, SV):
        return bnot(rel("==", x))
    if isinstance(x, (int, float)):
        return bool(x)
    if type(x).__module__ == "numpy" and hasattr(x, "item"):
        return to_b(x.item())
    raise Unsupported("not a boolean: %r" % (type(x),))


def bnot(x):
    x = to_b(x)
    if isinstance(x, bool):
        return not x
    if x.op == "not":
        return x.args
    if x.neg is None:
        x.neg = _mk("not", x)
    return x.neg


def band(*xs):
    out = []
    seen = set()
    for x in xs:
        x = to_b(x)
        if x is False:
            return False
        if x is True:
            continue
        for y in (x.args if x.op == "and" else (x,)):
            if y.id not in seen:
                seen.add(y.id)
                out.append(y)
    for y in out:
        n = bnot(y)
        if n.id in seen:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b.id)
    return _mk("and", tuple(out))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bimplies(a, b):
    return bor(bnot(a), b)


# ---------------------------------------------------------------- ite / min / max
def ite(c, a, b):
    c = to_b(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        return bor(band(c, a), band(bnot(c), b))
    a, b = to_sv(a), to_sv(b)
    ex = Ctx.explorer
    if ex is not None:
        d = ex.decided(c)
        if d is not None:
            return a if d else b
    if a.t == b.t:
        return a
    if c.op == "not":
        return ite(c.args, b, a)
    # pull out the common additive part? keep it simple: intern on structure
    k = ("ite", c.id, a.key(), b.key())
    at = _INTERN.get(k)
    if at is None:
        la, ha = a.iv()
        lb, hb = b.iv()
        at = Atom("ite", "ite", min(la, lb), max(ha, hb), args=(c, a, b),
                  integer=is_integral(a) and is_integral(b))
        _INTERN[k] = at
    return SV.atom(at)


def smax(a, b):
    a, b = to_sv(a), to_sv(b)
    c = rel("<=", b - a)          # a >= b
    r = ite(c, a, b)
    _tighten(r, c, a, b, max)
    return r


def smin(a, b):
    a, b = to_sv(a), to_sv(b)
    c = rel("<=", a - b)          # a <= b
    r = ite(c, a, b)
    _tighten(r, c, a, b, min)
    return r


def _tighten(r, c, a, b, f):
    if isinstance(c, bool):
        return
    sm = single_mono(r)
    if sm is None or sm[1] != 1 or len(sm[0]) != 1 or sm[0][0][1] != 1:
        return
    at = ATOMS[sm[0][0][0]]
    if at.kind != "ite":
        return
    la, ha = a.iv()
    lb, hb = b.iv()
    at.lo, at.hi = f(la, lb), f(ha, hb)


def sabs(x):
    x = to_sv(x)
    lo, hi = x.iv()
    if lo >= 0:
        return x
    if hi <= 0:
        return -x
    r = ite(rel("<=", -x), x, -x)
    sm = single_mono(r)
    if sm is not None and sm[1] == 1 and len(sm[0]) == 1 and sm[0][0][1] == 1:
        at = ATOMS[sm[0][0][0]]
        if at.kind == "ite":
            at.lo = max(at.lo, Fraction(0))
    return r


def clamp(x, lo=None, hi=None):
    if lo is not None:
        x = smax(x, lo)
    if hi is not None:
        x = smin(x, hi)
    return x


# ---------------------------------------------------------------- printing
def show(sv, depth=2):
    if not sv.t:
        return "0"
    out = []
    for m, c in list(sv.t.items())[:12]:
        s = "%.6g" % float(c) if abs(c) < Fraction(10) ** 300 else "big"
        for aid, e in m:
            s += "*" + showa(ATOMS[aid], depth) + ("^%d" % e if e != 1 else "")
        out.append(s)
    if len(sv.t) > 12:
        out.append("...%d terms" % len(sv.t))
    return " + ".join(out)


def showa(a, depth):
    if a.kind == "var":
        return a.name
    if depth <= 0:
        return "%s#%d" % (a.kind, a.id)
    if a.kind == "ite":
        return "ite(%s, %s, %s)" % (showb(a.args[0], depth - 1), show(a.args[1], depth - 1), show(a.args[2], depth - 1))
    if a.kind == "pow":
        return "pow(%s, %s)" % (show(a.args[0], depth - 1), a.args[1])
    return "%s(%s)" % (a.kind, show(a.args, depth - 1) if isinstance(a.args, SV) else a.args)


def showb(b, depth=2):
    if isinstance(b, bool):
        return str(b)
    if b.op in ("<", "=="):
        return "%s %s 0" % (show(b.args.sv, depth), b.op)
    if b.op == "not":
        return "!(%s)" % showb(b.args, depth)
    if b.op == "bvar":
        return b.args
    return "(" + " & ".join(showb(x, depth) for x in b.args) + ")"


# ---------------------------------------------------------------- exact evaluation
class Evaluator:
    """Evaluate terms under an assignment of the base variables (by name).
    Exact rationals except for transcendental atoms."""

    def __init__(self, assign, bools=None):
        self.assign = assign
        self.bools = bools or {}
        self.memo = {}
        self.bmemo = {}

    def atom(self, a):
        v = self.memo.get(a.id)
        if v is not None:
            return v
        k = a.kind
        if k == "var":
            if a.name in self.assign:
                v = frac(self.assign[a.name])
            else:
                lo, hi = a.lo, a.hi
                v = lo if lo != -INF else (hi if hi != INF else Fraction(0))
        elif k == "ite":
            v = self.sv(a.args[1]) if self.b(a.args[0]) else self.sv(a.args[2])
        elif k == "inv":
            d = self.sv(a.args)
            if d == 0:
                raise ZeroDivisionError
            v = 1 / d
        elif k == "def":
            v = self.sv(a.args)
        elif k == "pow":
            b = self.sv(a.args[0])
            if b < 0:
                raise ValueError("negative base")
            if b == 0 and a.args[1] < 0:
                raise ZeroDivisionError
            v = Fraction(float(b) ** float(a.args[1]))
        elif k == "floor":
            v = Fraction(_math.floor(self.sv(a.args)))
        else:
            v = Fraction(getattr(_math, k)(float(self.sv(a.args))))
        self.memo[a.id] = v
        return v

    def sv(self, s):
        tot = Fraction(0)
        for m, c in s.t.items():
            for aid, e in m:
                v = self.atom(ATOMS[aid])
                if e < 0 and v == 0:
                    raise ZeroDivisionError
                c = c * v ** e
            tot += c
            if tot.denominator.bit_length() > 4000:
                tot = tot.limit_denominator(10 ** 400)
        return tot

    def b(self, x):
        if isinstance(x, bool):
            return x
        r = self.bmemo.get(x.id)
        if r is not None:
            return r
        if x.op == "<":
            r = self.sv(x.args.sv) < 0
        elif x.op == "==":
            r = self.sv(x.args.sv) == 0
        elif x.op == "not":
            r = not self.b(x.args)
        elif x.op == "and":
            r = all(self.b(y) for y in x.args)
        else:
            r = bool(self.bools.get(x.args, False))
        self.bmemo[x.id] = r
        return r


class FEval:
    """float evaluation at one sample point; variables without a value are drawn at random"""

    def __init__(self, rnd, assign=None):
        self.rnd = rnd
        self.assign = {k: float(v) for k, v in (assign or {}).items()}
        self.style = rnd.random()
        self.memo = {}
        self.bmemo = {}
        self.clust = 10 ** -rnd.uniform(0.5, 6) if rnd.random() < 0.5 else None
        self.base = {}

    def var(self, a):
        v = self.assign.get(a.name)
        if v is None:
            lo, hi = a.lo, a.hi
            if lo == -INF and hi == INF:
                v = self.rnd.uniform(-10, 10)
            elif lo == -INF:
                v = float(hi) - self.rnd.uniform(0, 10)
            elif hi == INF:
                v = float(lo) + self.rnd.uniform(0, 10)
            else:
                lo, hi = float(lo), float(hi)
                u = self.rnd.random()
                if self.clust is not None and self.style > 0.55:
                    # members of one family lie close to each other
                    fam = a.name.split("[")[0].rstrip("0123456789@")
                    b = self.base.setdefault(fam, u)
                    u = min(1.0, max(0.0, b + (self.rnd.random() - 0.5) * self.clust))
                elif self.style < 0.25:
                    u = u ** 3
                elif self.style < 0.4:
                    u = 1 - u ** 3
                elif self.style < 0.55 and self.rnd.random() < 0.3:
                    u = self.rnd.choice((0.0, 1.0, 0.5))
                v = lo + (hi - lo) * u
            if a.integer:
                v = float(round(v))
            self.assign[a.name] = v
        return v

    def atom(self, a):
        v = self.memo.get(a.id)
        if v is not None:
            return v
        k = a.kind
        if k == "var":
            v = self.var(a)
        elif k == "ite":
            v = self.sv(a.args[1]) if self.b(a.args[0]) else self.sv(a.args[2])
        elif k == "inv":
            v = 1.0 / self.sv(a.args)
        elif k == "def":
            v = self.sv(a.args)
        elif k == "pow":
            b = self.sv(a.args[0])
            if b < 0:
                if b < -1e-9:
                    raise ValueError
                b = 0.0
            v = b ** float(a.args[1])
        elif k == "floor":
            v = float(_math.floor(self.sv(a.args)))
        else:
            v = getattr(_math, k)(self.sv(a.args))
        self.memo[a.id] = v
        return v

    def sv(self, s):
        tot = 0.0
        for m, c in s.t.items():
            x = c.numerator / c.denominator
            for aid, e in m:
                v = self.atom(ATOMS[aid])
                x *= v if e == 1 else v ** e
            tot += x
        return tot

    def b(self, x):
        if isinstance(x, bool):
            return x
        r = self.bmemo.get(x.id)
        if r is not None:
            return r
        if x.op == "<":
            r = self.sv(x.args.sv) < 0
        elif x.op == "==":
            r = self.sv(x.args.sv) == 0
        elif x.op == "not":
            r = not self.b(x.args)
        elif x.op == "and":
            r = all(self.b(y) for y in x.args)
        else:
            r = self.assign.get("b_" + x.args)
            if r is None:
                r = self.assign["b_" + x.args] = self.rnd.random() < 0.5
        self.bmemo[x.id] = r
        return r

    def mutate(self, frac=0.3):
        """a nearby point"""
        q = FEval(self.rnd, self.assign)
        if not self.assign:
            return q
        eps = 10 ** -self.rnd.uniform(0.3, 5)
        for n in self.assign:
            if n.startswith("b_"):
                continue
            a = _INTERN.get(("var", n))
            if a is None or self.rnd.random() > frac:
                continue
            if a.lo == -INF or a.hi == INF:
                v = self.assign[n] * (1 + self.rnd.uniform(-1, 1) * eps)
                v = max(float(a.lo), min(float(a.hi), v))
            else:
                lo, hi = float(a.lo), float(a.hi)
                v = self.assign[n] + (hi - lo) * self.rnd.uniform(-1, 1) * eps
                v = max(lo, min(hi, v))
            q.assign[n] = float(round(v)) if a.integer else v
        return q

    def safe(self, x):
        """True / False / None when the point cannot be evaluated"""
        try:
            return self.b(x)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            return None


# ---------------------------------------------------------------- finiteness
def SB_all(l):
    r = True
    for x in l:
        r = band(r, x)
    return r


def finite(s, memo=None):
    """the condition under which a value does not come from a division by zero"""
    memo = {} if memo is None else memo
    r = True
    for m in s.t:
        for aid, e in m:
            f = memo.get(aid)
            if f is None:
                a = ATOMS[aid]
                if a.kind == "var":
                    f = not a.name.startswith("divzero")
                elif a.kind == "ite":
                    c, x, y = a.args
                    fx, fy = finite(to_sv(x), memo), finite(to_sv(y), memo)
                    f = fx if fx is fy else bor(band(c, fx), band(bnot(c), fy))
                elif a.kind in ("inv", "def"):
                    f = finite(a.args, memo)
                elif a.kind == "pow":
                    f = finite(a.args[0], memo)
                elif isinstance(a.args, SV):
                    f = finite(a.args, memo)
                else:
                    f = True
                memo[aid] = f
            r = band(r, f)
            if r is False:
                return r
    return r
