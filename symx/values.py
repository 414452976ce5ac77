"""Proxy values: integers, reals, booleans and IEEE doubles backed by z3 terms."""
import math
import numbers
from fractions import Fraction

import z3

from . import core
from .core import Unsupported, rv, to_fraction


class Sym:
    __slots__ = ()


def truth_expr(c):
    """True/False or a z3 Bool for any truth value."""
    if isinstance(c, SymBool):
        e = c.e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return e
    if z3.is_expr(c) and z3.is_bool(c):
        return c
    if isinstance(c, (SymInt, SymReal)):
        return c.e != 0
    return bool(c)


def _isinf(x):
    return not isinstance(x, Sym) and isinstance(x, float) and math.isinf(x)


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.current().branch(self.e)

    def __and__(self, o):
        t = truth_expr(o)
        if t is True:
            return self
        if t is False:
            return False
        return SymBool(z3.And(self.e, t))
    __rand__ = __and__

    def __or__(self, o):
        t = truth_expr(o)
        if t is False:
            return self
        if t is True:
            return True
        return SymBool(z3.Or(self.e, t))
    __ror__ = __or__

    def __xor__(self, o):
        t = truth_expr(o)
        if isinstance(t, bool):
            return SymBool(z3.Not(self.e)) if t else self
        return SymBool(z3.Xor(self.e, t))
    __rxor__ = __xor__

    def __invert__(self):       # ~True is an integer in Python; numpy-style use only
        return SymBool(z3.Not(self.e))

    def as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else SymBool(z3.Not(self.e))
        return self.as_int() == o

    def __ne__(self, o):
        r = self == o
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o): return self.as_int() + o
    __radd__ = __add__
    def __sub__(self, o): return self.as_int() - o
    def __rsub__(self, o): return o - self.as_int()
    def __mul__(self, o): return self.as_int() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self.as_int() < o
    def __le__(self, o): return self.as_int() <= o
    def __gt__(self, o): return self.as_int() > o
    def __ge__(self, o): return self.as_int() >= o
    def __neg__(self): return -self.as_int()

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        if spec and spec[-1] in "bdxX":
            return format(self.as_int(), spec)
        return repr(self)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def _num(x):
    """z3 arithmetic term for x, or None if x is not a finite number."""
    if isinstance(x, SymInt) or isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymBool):
        return x.as_int().e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return rv(x)
    if isinstance(x, float) or isinstance(x, numbers.Real):
        try:
            f = to_fraction(x)
        except (OverflowError, ValueError, TypeError):
            return None
        if isinstance(x, numbers.Integral):
            return z3.IntVal(int(x))
        return rv(f)
    try:
        import numpy as np
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return _num(x.item())
        if isinstance(x, np.bool_):
            return z3.IntVal(int(x))
    except ImportError:
        pass
    return None


def numeric_pair(a, b):
    """(x, y, both_concrete) for two numbers, else None."""
    if isinstance(a, SymFP) or isinstance(b, SymFP):
        return None
    x, y = _num(a), _num(b)
    if x is None or y is None:
        return None
    conc = not isinstance(a, Sym) and not isinstance(b, Sym)
    return x, y, conc


def _wrap(e):
    if e.sort() == z3.IntSort():
        return SymInt(e)
    return SymReal(e)


def _is_quot(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DIV


def _quotient(x, y):
    """x / y for y known not to be 0, keeping terms linear where they are: a quotient of
    a constant by a term is inverted instead of divided by (its denominator was already
    found not to be 0 when it was built)."""
    ys = z3.simplify(y)
    if z3.is_rational_value(ys):
        f = ys.as_fraction()
        r = z3.RealVal(f"{f.denominator}/{f.numerator}" if f > 0
                       else f"-{f.denominator}/{-f.numerator}")
        if _is_quot(x) and z3.is_rational_value(x.arg(0)):
            return z3.simplify(x.arg(0) * r) / x.arg(1)
        return x * r
    if _is_quot(y) and z3.is_rational_value(y.arg(0)):
        f = y.arg(0).as_fraction()
        if f != 0:
            r = z3.RealVal(f"{f.denominator}/{f.numerator}" if f > 0
                           else f"-{f.denominator}/{-f.numerator}")
            return x * y.arg(1) * r
    xs = z3.simplify(x)
    if z3.is_rational_value(xs):
        x = xs
    return x / y


def _inf_cmp(op, o):
    """finite <op> o for infinite o."""
    pos = o > 0
    return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]


def _nan(o):
    return isinstance(o, float) and math.isnan(o)


class _Arith(Sym):
    __slots__ = ()

    def _cmp(self, o, op):
        if isinstance(o, SymFP):
            return NotImplemented
        y = _num(o)
        if y is None:
            if isinstance(o, float) or isinstance(o, numbers.Real):
                if _nan(float(o)):
                    return op == "!="
                return _inf_cmp(op, float(o))
            if op == "==":
                return False if o is None or isinstance(o, (str, tuple, list, dict)) \
                    else NotImplemented
            if op == "!=":
                return True if o is None or isinstance(o, (str, tuple, list, dict)) \
                    else NotImplemented
            return NotImplemented
        x = self.e
        if op == "<":
            r = x < y
        elif op == "<=":
            r = x <= y
        elif op == ">":
            r = x > y
        elif op == ">=":
            r = x >= y
        elif op == "==":
            r = x == y
        else:
            r = x != y
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return SymBool(r)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")

    def __bool__(self):
        return core.current().branch(self.e != 0)

    def _bin(self, o, fn, refl=False):
        y = _num(o)
        if y is None:
            return None
        x = self.e
        if refl:
            x, y = y, x
        return fn(x, y)

    def __add__(self, o):
        r = self._bin(o, lambda x, y: x + y)
        if r is None:
            return self._inf_arith(o, "+")
        return _wrap(r)

    def __radd__(self, o):
        r = self._bin(o, lambda x, y: x + y, True)
        if r is None:
            return self._inf_arith(o, "+")
        return _wrap(r)

    def __sub__(self, o):
        r = self._bin(o, lambda x, y: x - y)
        if r is None:
            return self._inf_arith(o, "-")
        return _wrap(r)

    def __rsub__(self, o):
        r = self._bin(o, lambda x, y: x - y, True)
        if r is None:
            return self._inf_arith(o, "r-")
        return _wrap(r)

    def _complex(self):
        from .cplx import SymComplex
        return SymComplex(self, 0.0)

    def _inf_arith(self, o, op):
        if isinstance(o, complex):
            return {"+": lambda: self._complex() + o, "-": lambda: self._complex() - o,
                    "r-": lambda: o - self._complex()}[op]()
        if isinstance(o, float) and math.isinf(o):
            return o if op in ("+", "r-") else -o
        if isinstance(o, float) and math.isnan(o):
            return o
        return NotImplemented

    def __mul__(self, o):
        r = self._bin(o, lambda x, y: x * y)
        if r is None:
            if isinstance(o, (str, list, tuple)) and isinstance(self, SymInt):
                return o * self.__index__()
            if isinstance(o, complex):
                return self._complex() * o
            if _isinf(o):
                raise Unsupported("infinite times symbolic")
            return NotImplemented
        return _wrap(r)

    def __rmul__(self, o):
        r = self._bin(o, lambda x, y: x * y, True)
        if r is None:
            if isinstance(o, (str, list, tuple)) and isinstance(self, SymInt):
                return o * self.__index__()
            if isinstance(o, complex):
                return self._complex() * o
            if _isinf(o):
                raise Unsupported("infinite times symbolic")
            return NotImplemented
        return _wrap(r)

    @staticmethod
    def _div(x, y):
        ex = core.current()
        ys = z3.simplify(y)
        if z3.is_int_value(ys) or z3.is_rational_value(ys):
            if ys.as_fraction() == 0 if z3.is_rational_value(ys) else ys.as_long() == 0:
                raise ZeroDivisionError("division by zero")
        elif ex.branch(y == 0):
            raise ZeroDivisionError("division by zero")
        if x.sort() == z3.IntSort():
            x = z3.ToReal(x)
        if y.sort() == z3.IntSort():
            y = z3.ToReal(y)
        if ex.recip:
            return SymReal(x * ex.polys.reciprocal(ex, y))
        return SymReal(_quotient(x, y))

    def __truediv__(self, o):
        if _isinf(o):
            return 0.0
        y = _num(o)
        if y is None and isinstance(o, complex):
            return self._complex() / o
        return NotImplemented if y is None else self._div(self.e, y)

    def __rtruediv__(self, o):
        if _isinf(o):
            raise Unsupported("infinite divided by symbolic")
        y = _num(o)
        if y is None and isinstance(o, complex):
            return o * (1 / self)
        return NotImplemented if y is None else self._div(y, self.e)

    @staticmethod
    def _floordiv(x, y):
        ex = core.current()
        if ex.branch(y == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if x.sort() == z3.IntSort() and y.sort() == z3.IntSort():
            if ex.branch(y > 0):
                return SymInt(x / y)
            return SymInt((-x) / (-y))
        x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
        y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
        return SymReal(z3.ToReal(z3.ToInt(x / y)))

    def __floordiv__(self, o):
        y = _num(o)
        return NotImplemented if y is None else self._floordiv(self.e, y)

    def __rfloordiv__(self, o):
        y = _num(o)
        return NotImplemented if y is None else self._floordiv(y, self.e)

    @staticmethod
    def _mod(x, y):
        ex = core.current()
        if ex.branch(y == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if x.sort() == z3.IntSort() and y.sort() == z3.IntSort():
            if ex.branch(y > 0):
                return SymInt(x % y)
            return SymInt(-((-x) % (-y)))
        x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
        y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
        return SymReal(x - y * z3.ToReal(z3.ToInt(x / y)))

    def __mod__(self, o):
        y = _num(o)
        return NotImplemented if y is None else self._mod(self.e, y)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        y = _num(o)
        return NotImplemented if y is None else self._mod(y, self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return _wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return _wrap(z3.If(self.e >= 0, self.e, -self.e))

    # powers and transcendental functions live in funcs.py
    def __pow__(self, o, mod=None):
        from . import funcs
        return funcs.power(self, o)

    def __rpow__(self, o):
        from . import funcs
        return funcs.power(o, self)

    def sqrt(self):
        from . import funcs
        return funcs.sqrt(self)

    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from . import funcs
        fn = funcs.METHODS.get(name)
        if fn is not None:
            return lambda: fn(self)
        raise AttributeError(name)

    def item(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


class SymInt(_Arith):
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo=None, hi=None):
        self.e, self.lo, self.hi = e, lo, hi

    @property
    def __class__(self):
        return int

    def __index__(self):
        return core.current().concretize(self.e)

    def __int__(self):
        return core.current().concretize(self.e)

    def __float__(self):
        return float(core.current().concretize(self.e))

    def __hash__(self):
        if getattr(core.EX, "hash_mode", None) == "constant":
            return 0        # sets and dictionaries of symbolic keys decide by equality
        return hash(core.current().concretize(self.e))

    def __round__(self, n=None):
        return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def is_integer(self): return True
    def bit_length(self): return int(self).bit_length()
    def bit_count(self): return int(self).bit_count()

    def to_bytes(self, *a, **k): return int(self).to_bytes(*a, **k)

    def as_integer_ratio(self): return self, 1
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1

    # bit operations
    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rlshift__(self, o):
        from . import funcs
        return o * funcs.power(2, self)

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __rrshift__(self, o):
        return o >> int(self)

    def __invert__(self):
        return -self - 1

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, Sym) and o >= 0:
            if o & (o + 1) == 0:                   # 0..01..1
                return SymInt(self.e % (o + 1))
            out = z3.IntVal(0)
            k = 0
            while o >> k:
                if (o >> k) & 1:
                    out = out + ((self.e / (1 << k)) % 2) * (1 << k)
                k += 1
            return SymInt(out)
        return self._bits(o, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int) and not isinstance(o, Sym) and o >= 0:
            out = self.e
            k = 0
            while o >> k:
                if (o >> k) & 1:
                    out = out + (1 - (self.e / (1 << k)) % 2) * (1 << k)
                k += 1
            return SymInt(out)
        return self._bits(o, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, int) and not isinstance(o, Sym) and o >= 0:
            out = self.e
            k = 0
            while o >> k:
                if (o >> k) & 1:
                    out = out + (1 - 2 * ((self.e / (1 << k)) % 2)) * (1 << k)
                k += 1
            return SymInt(out)
        return self._bits(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def _bits(self, o, fn):
        y = _num(o)
        if y is None or y.sort() != z3.IntSort():
            return NotImplemented
        n = 48
        ex = core.current()
        for t in (self.e, y):
            if not ex.branch(z3.And(t >= 0, t < 2 ** n)):
                raise Unsupported("bit operation outside 0..2^48")
        return SymInt(z3.BV2Int(fn(z3.Int2BV(self.e, n), z3.Int2BV(y, n))))

    def __repr__(self):
        return "<symint>"

    def __str__(self):
        from . import strings
        return strings.one_digit(self) or "<symint>"

    def __format__(self, spec):
        from . import strings
        return strings.format_int(self, spec)


class SymReal(_Arith):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def __float__(self):
        raise Unsupported("conversion of a symbolic real to float")

    def __int__(self):
        t = self.__trunc__()
        return int(t)

    def __hash__(self):
        # one hash for all: sets and dictionaries of symbolic keys decide by equality
        if getattr(core.EX, "warm", False):
            return 0
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            return hash(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        return 0

    def __round__(self, n=None):
        if n is None or n == 0:
            x = self.e + rv(Fraction(1, 2))
            f = z3.ToInt(x)
            tie = z3.And(z3.IsInt(x), f % 2 == 1)
            r = SymInt(z3.If(tie, f - 1, f))
            if n is None and getattr(core.EX, "round_mode", None) == "fork":
                return int(core.EX.concretize(r.e))     # one path per rounded value
            return r if n is None else SymReal(z3.ToReal(r.e))
        s = Fraction(10) ** int(n)
        return (self * s).__round__() / s

    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def floor(self): return SymReal(z3.ToReal(z3.ToInt(self.e)))
    def ceil(self): return SymReal(-z3.ToReal(z3.ToInt(-self.e)))
    def rint(self): return SymReal(z3.ToReal(self.__round__().e))

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))

    def __repr__(self):
        return "<symreal>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symreal>"


def ite(c, a, b):
    t = truth_expr(c)
    if t is True:
        return a
    if t is False:
        return b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        ta, tb = truth_expr(a), truth_expr(b)
        conv = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v
        return SymBool(z3.If(t, conv(ta), conv(tb)))
    x, y = _num(a), _num(b)
    if x is None or y is None:
        raise Unsupported("if-then-else over non-numbers")
    if x.sort() != y.sort():
        x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
        y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
    return _wrap(z3.If(t, x, y))


# ---------------------------------------------------------------- IEEE doubles
_RNE = z3.RNE()
_F64 = z3.Float64()


def _fp(x):
    if isinstance(x, SymFP):
        return x.e
    if isinstance(x, bool):
        return None
    if isinstance(x, Sym):
        return None
    if isinstance(x, numbers.Real):
        return z3.FPVal(float(x), _F64)
    return None


class SymFP(Sym):
    """A double with exact IEEE-754 semantics (round to nearest even)."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def _b(self, o, fn, refl=False):
        y = _fp(o)
        if y is None:
            return NotImplemented
        x = self.e
        if refl:
            x, y = y, x
        return SymFP(fn(x, y))

    def __add__(self, o):
        if isinstance(o, (int, float)) and not core._is_sym(o) and o == 0:
            # x + 0 is x, but for the sign of a zero
            if math.copysign(1.0, o) < 0:
                return self
            return SymFP(z3.If(z3.fpIsZero(self.e), z3.fpPlusZero(self.e.sort()), self.e))
        return self._b(o, lambda x, y: z3.fpAdd(_RNE, x, y))

    def __radd__(self, o):
        if isinstance(o, (int, float)) and not core._is_sym(o) and o == 0:
            return self.__add__(o)
        return self._b(o, lambda x, y: z3.fpAdd(_RNE, x, y), True)

    def __sub__(self, o): return self._b(o, lambda x, y: z3.fpSub(_RNE, x, y))
    def __rsub__(self, o): return self._b(o, lambda x, y: z3.fpSub(_RNE, x, y), True)
    def __mul__(self, o): return self._b(o, lambda x, y: z3.fpMul(_RNE, x, y))
    def __rmul__(self, o): return self._b(o, lambda x, y: z3.fpMul(_RNE, x, y), True)
    def __truediv__(self, o): return self._b(o, lambda x, y: z3.fpDiv(_RNE, x, y))
    def __rtruediv__(self, o): return self._b(o, lambda x, y: z3.fpDiv(_RNE, x, y), True)
    def __neg__(self): return SymFP(z3.fpNeg(self.e))
    def __abs__(self): return SymFP(z3.fpAbs(self.e))

    def _c(self, o, fn):
        y = _fp(o)
        if y is None:
            return NotImplemented
        return SymBool(fn(self.e, y))

    def __lt__(self, o): return self._c(o, z3.fpLT)
    def __le__(self, o): return self._c(o, z3.fpLEQ)
    def __gt__(self, o): return self._c(o, z3.fpGT)
    def __ge__(self, o): return self._c(o, z3.fpGEQ)

    def __eq__(self, o):
        y = _fp(o)
        return False if y is None else SymBool(z3.fpEQ(self.e, y))

    def __ne__(self, o):
        y = _fp(o)
        return True if y is None else SymBool(z3.Not(z3.fpEQ(self.e, y)))

    def __bool__(self):
        return core.current().branch(z3.Not(z3.fpIsZero(self.e)))

    def __hash__(self):
        raise Unsupported("hash of a symbolic double")

    def __float__(self):
        raise Unsupported("conversion of a symbolic double")

    def __round__(self, n=None):
        raise Unsupported("rounding a symbolic double")

    def __repr__(self): return "<symfp>"
    __str__ = __repr__
    def __format__(self, spec): return "<symfp>"
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
