"""Complex numbers with symbolic parts."""
import cmath

import z3

from . import core
from .values import Sym, SymBool, SymReal, SymFP, _num


def _parts(x):
    if isinstance(x, SymComplex):
        return x.re, x.im
    if isinstance(x, SymFP):
        return None
    if isinstance(x, complex) or (hasattr(x, "dtype") and getattr(x, "shape", 1) == ()
                                  and x.dtype.kind == "c"):
        x = complex(x)
        return x.real, x.imag
    if _num(x) is None:
        return None
    return x, 0.0


def _zero(x):
    return not isinstance(x, Sym) and x == 0


def _mul(a, b):
    return 0.0 if _zero(a) or _zero(b) else a * b


class SymComplex(Sym):
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im

    def _with(self, o, fn, refl=False):
        p = _parts(o)
        if p is None:
            return NotImplemented
        x, y = (self.re, self.im), p
        if refl:
            x, y = y, x
        return SymComplex(*fn(x, y))

    def __add__(self, o): return self._with(o, lambda x, y: (x[0] + y[0], x[1] + y[1]))
    __radd__ = __add__
    def __sub__(self, o): return self._with(o, lambda x, y: (x[0] - y[0], x[1] - y[1]))

    def __rsub__(self, o):
        return self._with(o, lambda x, y: (x[0] - y[0], x[1] - y[1]), True)

    @staticmethod
    def _times(x, y):
        return (_mul(x[0], y[0]) - _mul(x[1], y[1]), _mul(x[0], y[1]) + _mul(x[1], y[0]))

    def __mul__(self, o): return self._with(o, self._times)
    __rmul__ = __mul__

    @staticmethod
    def _over(x, y):
        if _zero(y[1]):
            return x[0] / y[0], (0.0 if _zero(x[1]) else x[1] / y[0])
        ex = core.current()
        n = y[0] * y[0] + y[1] * y[1]
        a, b = SymComplex._times(x, (y[0], -y[1]))
        zero = z3.And(_num(y[0]) == 0, _num(y[1]) == 0)
        if ex.complex_div == "assume":
            ex.add(_num(n) > 0)
        elif ex.branch(zero):
            raise ZeroDivisionError("complex division by zero")
        if not ex.recip:
            return a / n, b / n
        i = SymReal(ex.polys.reciprocal(ex, _num(n)))
        return a * i, b * i

    def __truediv__(self, o): return self._with(o, self._over)
    def __rtruediv__(self, o): return self._with(o, self._over, True)
    def __neg__(self): return SymComplex(-self.re, -self.im)
    def __pos__(self): return self
    def conjugate(self): return SymComplex(self.re, -self.im)

    def __abs__(self):
        from . import funcs
        return funcs.sqrt(self.re * self.re + self.im * self.im, nonneg=True)

    absolute = __abs__

    def __pow__(self, n):
        if n == 0.5:
            return self.sqrt()
        if isinstance(n, int) and 0 < n <= 4:
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        raise core.Unsupported("power of a symbolic complex number")

    def sqrt(self):
        """Principal root: fresh parts a >= 0, b with (a + jb)^2 = self."""
        ex = core.current()
        if ex.warm:
            x, y = (z3.simplify(z3.ToReal(v) if z3.is_int(v) else v)
                    for v in (_num(self.re), _num(self.im)))
            if not (z3.is_rational_value(x) and z3.is_rational_value(y)):
                raise core.WarmStop()
            z = cmath.sqrt(complex(*(v.numerator_as_long() / v.denominator_as_long()
                                     for v in (x, y))))
            return SymComplex(z.real, z.imag)
        x, y = _num(self.re), _num(self.im)
        x, y = (z3.ToReal(v) if v.sort() == z3.IntSort() else v for v in (x, y))
        roots = ex.__dict__.setdefault("croots", [])
        if roots and roots[0] is not ex.pc:
            roots.clear()
        if not roots:
            roots.append(ex.pc)
        for u, v, r in roots[1:]:
            if ex.recip and ex.polys.same(x, u) and ex.polys.same(y, v):
                return r
        a, b = ex.aux_real("croot"), ex.aux_real("croot")
        ex.keep.append((x, y))
        ex.add(z3.And(a >= 0, a * a - b * b == x, 2 * a * b == y,
                      z3.Implies(a == 0, b >= 0), z3.Implies(x > 0, a > 0)))
        roots.append((x, y, SymComplex(SymReal(a), SymReal(b))))
        return SymComplex(SymReal(a), SymReal(b))

    def __eq__(self, o):
        p = _parts(o)
        if p is None:
            return False
        from . import values
        return values.SymBool(z3.And(_num(self.re) == _num(p[0]), _num(self.im) == _num(p[1])))

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is False else ~r if isinstance(r, SymBool) else not r

    def __bool__(self):
        return core.current().branch(z3.Or(_num(self.re) != 0, _num(self.im) != 0))

    def __hash__(self):
        raise core.Unsupported("hash of a symbolic complex number")

    def __complex__(self):
        raise core.Unsupported("conversion of a symbolic complex number")

    def item(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return "<symcomplex>"


def exp(z):
    from . import funcs
    c, s = funcs.cos(z.im), funcs.sin(z.im)
    if _zero(z.re):
        return SymComplex(c, s)
    m = funcs.exp(z.re)
    return SymComplex(m * c, m * s)
