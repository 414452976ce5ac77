"""Powers, roots and transcendental functions over symbolic reals.

Roots are exact (a fresh non-negative variable whose square is the argument).  Other
functions are uninterpreted with the listed axioms instantiated at their arguments."""
import math
from fractions import Fraction

import z3

from . import core, cplx
from .cplx import SymComplex
from .core import Unsupported, rv, to_fraction
from .values import Sym, SymBool, SymInt, SymReal, SymFP, _num


def _real(x):
    e = _num(x)
    if e is None:
        raise Unsupported(f"not a number: {x!r}")
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _uf(name, arity=1):
    ex = core.current()
    if name not in ex.ufs:
        ex.ufs[name] = z3.Function(name, *([z3.RealSort()] * (arity + 1)))
    return ex.ufs[name]


def _once(key):
    ex = core.current()
    if key in ex.uf_axioms_done:
        return False
    ex.uf_axioms_done.add(key)
    return True


TRUE = {"exp": math.exp, "cos": math.cos, "sin": math.sin, "erf": math.erf,
        "arctan": math.atan, "pow10": lambda x: 10.0 ** x, "log10": math.log10,
        "ln": math.log}


def _canon(e, name="any"):
    """The term as it indexes applications: a sum of monomials where quotients are
    products, so that equal polynomials are the same term."""
    ex = core.current()
    if not ex.recip:
        return z3.simplify(e)
    t = ex.polys.point(name, e)
    ex.keep.append(t)
    return t


def _fixed(ex, fn, x):
    """In a run on fixed values: the value of the function in floating point, which leaves
    no terms and axioms behind."""
    a = z3.simplify(_real(x))
    if not z3.is_rational_value(a):
        raise core.WarmStop()
    try:
        return SymReal(rv(Fraction(fn(a.numerator_as_long() / a.denominator_as_long()))))
    except OverflowError:
        raise core.WarmStop()


def _apply(name, x, axioms):
    ex = core.current()
    if ex.warm:
        return _fixed(ex, TRUE[name], x)
    a = _canon(_real(x))
    f = _uf(name)
    t = f(a)
    if _once((name, a.get_id())):
        ex.keep.append(a)
        ex.uf_apps.append((a, t, TRUE[name]))
        for ax in axioms(a, t, f):
            ex.add(ax)
    return SymReal(t)


def sqrt(x, nonneg=False):
    if isinstance(x, SymComplex):
        return x.sqrt()
    ex = core.current()
    if ex.warm:
        return _fixed(ex, math.sqrt, x)
    a = _canon(_real(x))
    key = ("sqrt", a.get_id())
    cache = ex.__dict__.setdefault("sqrt_cache", {})
    if key in cache and cache[key][0] is ex.pc:
        return SymReal(cache[key][2])
    if not nonneg and ex.branch(a < 0):
        raise ValueError("math domain error")
    if ex.recip:
        r = ex.polys.known_root(a)
        if r is not None:
            return SymReal(r)
    r = ex.aux_real("sqrt")
    if ex.recip:
        ex.polys.root(a, r)
    ex.add(z3.And(r >= 0, r * r == a))
    cache[key] = (ex.pc, a, r)
    return SymReal(r)


def _mono(name, a, t, strict=True, increasing=True, lip=None):
    """Monotonicity (unless strict is None) and a Lipschitz bound, against all earlier
    applications of the same function."""
    ex = core.current()
    apps = ex.__dict__.setdefault("mono_apps", {})
    if apps.get("pc") is not ex.pc:
        apps.clear()
        apps["pc"] = ex.pc
    prev = apps.setdefault(name, [])
    out = []
    if ex.recip:
        lip = None                  # equal polynomials are one application already
    for b, u in prev:
        if lip is not None:
            d, e = a - b, t - u
            out.append(z3.Implies(d >= 0, z3.And(e <= lip * d, e >= -lip * d)))
            out.append(z3.Implies(d <= 0, z3.And(e >= lip * d, e <= -lip * d)))
        if strict is None:
            continue
        out.append(z3.Implies(a < b, t < u if increasing else t > u))
        out.append(z3.Implies(b < a, u < t if increasing else u > t))
        out.append(z3.Implies(a == b, t == u))
    prev.append((a, t))
    return out


PI_LO = Fraction(314159265358979, 10 ** 14)
PI_HI = Fraction(314159265358980, 10 ** 14)


def _ax_arctan(a, t, f):
    lo, hi = rv(PI_LO / 2), rv(PI_HI / 2)
    ax = [t < hi, t > -hi,
          z3.Implies(a >= 0, z3.And(t >= 0, t <= a)),
          z3.Implies(a <= 0, z3.And(t <= 0, t >= a)),
          z3.Implies(a > 0, t > 0),
          # bracketing values of the function at fixed points
          z3.Implies(a >= 1, t >= rv(PI_LO / 4)),
          z3.Implies(a <= 1, t <= rv(PI_HI / 4)),
          # pi/2 - 1/a <= arctan a <= pi/2 - 1/a + 1/(3 a^3)   (a > 0)
          z3.Implies(a > 0, z3.And((t - lo) * a >= -1,
                                   (t - hi) * a * a * a <= -a * a + rv(Fraction(1, 3))))]
    return ax + _mono("arctan", a, t, lip=1)


def _ax_exp(a, t, f):
    return [t > 0, t >= a + 1, z3.Implies(a <= 0, t <= 1), z3.Implies(a >= 0, t >= 1),
            z3.Implies(a == 0, t == 1)] + _mono("exp", a, t)


def _ax_unit(a, t, f):
    return [t >= -1, t <= 1]


def _ax_cos(a, t, f):
    return [t >= -1, t <= 1, z3.Implies(a == 0, t == 1)] \
        + _mono("cos", a, t, strict=None, lip=1)


def _ax_sin(a, t, f):
    return [t >= -1, t <= 1, z3.Implies(a == 0, t == 0),
            z3.Implies(a >= 0, t <= a)] + _mono("sin", a, t, strict=None, lip=1)


def _ax_erf(a, t, f):
    return [t > -1, t < 1, z3.Implies(a >= 0, t >= 0), z3.Implies(a <= 0, t <= 0),
            z3.Implies(a > 0, t > 0)] + _mono("erf", a, t, lip=rv(Fraction(113, 100)))


def arctan(x): return _apply("arctan", x, _ax_arctan)
def exp(x):
    if isinstance(x, SymComplex):
        return cplx.exp(x)
    return _apply("exp", x, _ax_exp)


def _even(x):
    """(argument with a positive leading coefficient, whether it was negated)"""
    ex = core.current()
    if not ex.recip or ex.warm:
        return x, False
    p = ex.polys.of(_real(x))
    a = ex.polys.term(p)
    if p and p[min(p)] < 0:
        return SymReal(ex.polys.term({m: -c for m, c in p.items()})), True
    return SymReal(a), False


def _circle(c, s):
    ex = core.current()
    if not ex.recip or ex.warm:
        return
    if _once(("circle", c.e.get_id())):
        ex.add(c.e * c.e + s.e * s.e == 1)
        ex.polys.squared(s.e, {(): Fraction(1), ((c.e.get_id(), 2),): Fraction(-1)}, c.e)


def cos(x):
    x, _ = _even(x)
    c = _apply("cos", x, _ax_cos)
    if core.current().recip:
        _circle(c, _apply("sin", x, _ax_sin))
    return c


def sin(x):
    x, neg = _even(x)
    s = _apply("sin", x, _ax_sin)
    if core.current().recip:
        _circle(_apply("cos", x, _ax_cos), s)
    return -s if neg else s


def erf(x): return _apply("erf", x, _ax_erf)
def erfc(x): return 1 - erf(x)


def pow10(x):
    """10 ** x, linked to log10 through its inverse when the argument shows it."""
    a = z3.simplify(_real(x))
    ex = core.current()
    t = _apply("pow10", SymReal(a),
               lambda a, t, f: [t > 0, z3.Implies(a == 0, t == 1),
                                z3.Implies(a >= 0, t >= 1), z3.Implies(a <= 0, t <= 1)]
               + _mono("pow10", a, t))
    if ex.warm:
        return t
    lg = _uf("log10")
    if _once(("inv10", a.get_id())):
        ex.add(lg(t.e) == a)
    return t


def log10(x):
    ex = core.current()
    a = z3.simplify(_real(x))
    if ex.branch(a <= 0):
        raise ValueError("math domain error")
    t = _apply("log10", SymReal(a),
               lambda a, t, f: [z3.Implies(a == 1, t == 0), z3.Implies(a > 1, t > 0),
                                z3.Implies(a < 1, t < 0)] + _mono("log10", a, t))
    if ex.warm:
        return t
    p = _uf("pow10")
    if _once(("invl", a.get_id())):
        ex.add(p(t.e) == a)
    return t


def log(x):
    ex = core.current()
    if ex.branch(_real(x) <= 0):
        raise ValueError("math domain error")
    return _apply("ln", x, lambda a, t, f: [z3.Implies(a == 1, t == 0),
                                            t <= a - 1] + _mono("ln", a, t))


def ipow(x, n):
    """x ** n for a concrete positive integer n: exact for small n, else the nested
    squares of an uninterpreted power with the bounds that hold on [0, 1]."""
    a = _real(x)
    if n <= 4:
        t = a
        for _ in range(n - 1):
            t = t * a
        return SymReal(t)
    a = z3.simplify(a)
    ex = core.current()
    if ex.warm:
        return _fixed(ex, lambda v: v ** n, SymReal(a))
    f = _uf("ipow", 2)
    t = f(a, z3.RealVal(n))
    if _once(("ipow", a.get_id(), n)):
        ex.keep.append(a)
        ex.uf_apps.append((a, t, lambda v, n=n: v ** n))
        ex.add(z3.Implies(z3.And(a >= 0, a <= 1), z3.And(t >= 0, t <= 1, t <= a)))
        ex.add(z3.Implies(a == 0, t == 0))
        ex.add(z3.Implies(a == 1, t == 1))
        ex.add(z3.Implies(z3.And(a > 0, a < 1), z3.And(t > 0, t < 1)))
        ex.add(z3.Implies(a > 1, t > a))
        # (1-b)^n >= 1 - n b   (Bernoulli)
        ex.add(z3.Implies(z3.And(a >= 0, a <= 1), t >= 1 - n * (1 - a)))
        apps = ex.__dict__.setdefault("ipow_apps", {})
        if apps.get("pc") is not ex.pc:
            apps.clear()
            apps["pc"] = ex.pc
        prev = apps.setdefault(a.get_id(), [])
        for m, u in prev:
            hi, lo = (t, u) if n > m else (u, t)
            ex.add(z3.Implies(z3.And(a > 0, a < 1), hi < lo))
        prev.append((n, t))
    return SymReal(t)


def power(base, e):
    if isinstance(e, SymBool):
        e = e.as_int()
    if isinstance(base, SymBool):
        base = base.as_int()
    sb, se = isinstance(base, Sym), isinstance(e, Sym)
    if isinstance(base, SymFP) or isinstance(e, SymFP):
        raise Unsupported("power of symbolic double")
    if se and isinstance(e, SymReal):
        s = z3.simplify(e.e)
        if z3.is_rational_value(s):
            e = Fraction(s.numerator_as_long(), s.denominator_as_long())
            se = False
    if not se:
        f = to_fraction(e)
        if f.denominator == 1:
            n = f.numerator
            if n == 0:
                return 1
            if isinstance(base, SymInt) and n > 0 and isinstance(e, int):
                t = base
                for _ in range(n - 1):
                    t = t * base
                return t
            if n > 0:
                return ipow(base, n)
            return 1 / ipow(base, -n)
        if f.denominator == 2:
            r = sqrt(base)
            n = f.numerator
            if n > 0:
                return r if n == 1 else ipow(r, n)
            d = r if n == -1 else ipow(r, -n)
            return 1 / d
        if core.current().warm:
            return _fixed(core.current(), lambda v: v ** float(f), base)
        raise Unsupported(f"exponent {e}")
    if not sb and isinstance(e, SymInt):
        # constant to a small symbolic exponent: a table
        ex = core.current()
        b = base
        lo, hi = 0, 20
        if ex.branch(z3.And(e.e >= lo, e.e <= hi)):
            vals = [b ** k for k in range(lo, hi + 1)]
            isint = all(isinstance(v, int) for v in vals)
            conv = (lambda v: z3.IntVal(v)) if isint else (lambda v: rv(to_fraction(v)))
            t = conv(vals[-1])
            for k in range(hi - 1, lo - 1, -1):
                t = z3.If(e.e == k, conv(vals[k - lo]), t)
            return SymInt(t) if isint else SymReal(t)
        if ex.branch(z3.And(e.e >= -20, e.e < 0)):
            t = rv(to_fraction(b) ** -20)
            for k in range(-19, 0):
                t = z3.If(e.e == k, rv(to_fraction(b) ** k), t)
            return SymReal(t)
        return b ** int(e)
    if not sb and to_fraction(base) == 10:
        return pow10(e)
    if isinstance(e, SymInt):
        return power(base, int(e))
    if not sb and isinstance(base, float) and base == math.e:
        return exp(e)
    raise Unsupported("general power")


METHODS = {
    "exp": exp, "cos": cos, "sin": sin, "arctan": arctan, "log10": log10, "log": log,
    "absolute": abs, "erf": erf, "erfc": erfc, "square": lambda x: x * x,
}
