"""The environment the code under test runs in.

Both modes: random draws and wall-clock readings are delivered by the harness context
(symbolic variables, or their concrete values in a replay), logging is silenced.
Symbolic mode only: numeric library calls that cannot take proxy objects (numpy array
creation, linear algebra, math.*, float(), int()) are routed to equivalents."""
import builtins
import cmath as _cmath
import contextlib
import functools
import itertools
import logging
import math
import os
import random as _random
import statistics as _statistics
import sys
import time as _time
import types

import numpy as _np

from . import core
from .core import Unsupported


class Runtime:
    """Per-run hooks a harness may replace."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.draws = []             # every draw delivered, in order: (kind, value)
        self.clock_calls = 0
        self.on_unit = None         # () -> value in [0, 1)
        self.on_int = None          # (lo, hi inclusive) -> int
        self.clock = None           # () -> seconds

    def unit(self):
        v = self.on_unit() if self.on_unit else \
            self.ctx.real("u", 0, 1, hi_open=True, grid=core.Fraction(1, 1024))
        self.draws.append(("unit", v))
        return v

    def integer(self, lo, hi):
        v = self.on_int(lo, hi) if self.on_int else self.ctx.int("i", lo, hi)
        self.draws.append(("int", v))
        return v

    def now(self):
        self.clock_calls += 1
        if self.clock:
            return self.clock()
        return 1000.0 + 0.001 * self.clock_calls


RT = None


def _rt():
    return RT


# ---------------------------------------------------------------- random draws
def _unit(size=None):
    if RT is None:
        raise RuntimeError("random draw outside a run")
    if size is None:
        return RT.unit()
    n = size if not isinstance(size, tuple) else math.prod(size)
    a = _np.array([RT.unit() for _ in range(int(n))],
                  dtype=object if core.EX is not None else None)
    return a.reshape(size)


def _uniform(low=0.0, high=1.0, size=None):
    u = _unit(size)
    if isinstance(low, (int, float)) and isinstance(high, (int, float)) \
            and not core._is_sym(low) and not core._is_sym(high) and low == 0 and high == 1:
        return u
    return low + (high - low) * u


def _randint_incl(a, b):
    if RT is None:
        raise RuntimeError("random draw outside a run")
    if a > b:
        raise ValueError("empty range for randint")
    return RT.integer(a, b)


def _py_randrange(start, stop=None, step=1):
    if stop is None:
        start, stop = 0, start
    if step != 1:
        n = (stop - start + step - 1) // step
        return start + step * _randint_incl(0, n - 1)
    return _randint_incl(start, stop - 1)


def _np_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    if size is None:
        return _randint_incl(low, high - 1)
    n = size if not isinstance(size, tuple) else math.prod(size)
    a = _np.array([_randint_incl(low, high - 1) for _ in range(int(n))],
                  dtype=object if core.EX is not None else None)
    return a.reshape(size)


def _choice(seq, *a, **k):
    if a or k:
        raise Unsupported("random choice with options")
    if isinstance(seq, int):
        return _randint_incl(0, seq - 1)
    return seq[int(_randint_incl(0, len(seq) - 1))]


def _getrandbits(k):
    return _randint_incl(0, (1 << k) - 1)


PY_RANDOM = {"random": lambda: _unit(), "uniform": _uniform, "randint": _randint_incl,
             "randrange": _py_randrange, "choice": _choice, "getrandbits": _getrandbits}
NP_RANDOM = {"random": _unit, "random_sample": _unit, "ranf": _unit, "sample": _unit,
             "uniform": _uniform, "randint": _np_randint,
             "rand": lambda *s: _unit(s if s else None), "choice": _choice}


class _Gen:
    """What random.Random() / np.random.default_rng() give the code under test."""
    random = staticmethod(_unit)
    uniform = staticmethod(_uniform)
    choice = staticmethod(_choice)
    randrange = staticmethod(_py_randrange)
    getrandbits = staticmethod(_getrandbits)

    def __init__(self, *a, **k):
        pass

    def randint(self, a, b):
        return _randint_incl(a, b)

    def integers(self, low, high=None, size=None, endpoint=False, **k):
        if high is None:
            low, high = 0, low
        return _np_randint(low, high + 1 if endpoint else high, size)

    def seed(self, *a, **k):
        pass


# ---------------------------------------------------------------- wall clock
class ProxyModule(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__") and name not in ("__version__",):
            raise AttributeError(name)
        return getattr(self.__dict__["_real"], name)


def _clock():
    if RT is None:
        return _time.time()
    return RT.now()


def _clock_ns():
    v = _clock() * 1000000000
    return v if core._is_sym(v) else int(v)


TIME = {"time": _clock, "perf_counter": _clock, "monotonic": _clock,
        "process_time": _clock, "time_ns": _clock_ns, "perf_counter_ns": _clock_ns,
        "monotonic_ns": _clock_ns, "sleep": lambda s: None}


# ---------------------------------------------------------------- numeric shims
def _has_sym(x):
    if core._is_sym(x):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if type(x) in (list, tuple):
        return any(_has_sym(v) for v in x)
    return False


def _unary(name, npfn):
    def f(x, *a, **k):
        if core.EX is None or not _has_sym(x):
            return npfn(x, *a, **k)
        if core._is_sym(x):
            return _apply1(name, x)
        arr = _np.asarray(x, dtype=object)
        out = _np.empty(arr.shape, dtype=object)
        for idx in _np.ndindex(arr.shape):
            out[idx] = _apply1(name, arr[idx])
        return out if arr.ndim else out[()]
    f.__name__ = name
    return f


def _apply1(name, v):
    from . import funcs, values
    if not core._is_sym(v):
        r = getattr(_np, name)(v)
        return r.item() if hasattr(r, "item") else r
    if isinstance(v, values.SymBool):
        v = v.as_int()
    if name == "sqrt":
        return funcs.sqrt(v)
    if name in ("abs", "absolute", "fabs"):
        return abs(v)
    if name in ("ceil", "floor", "rint"):
        if isinstance(v, values.SymInt):
            return v
        return getattr(v, name)()
    if name == "isnan" or name == "isinf":
        return False
    if name == "isfinite":
        return True
    fn = funcs.METHODS.get(name)
    if fn is None:
        raise Unsupported(f"numpy.{name} of a symbolic value")
    return fn(v)


def _mk(npfn, fill):
    def f(shape, *a, **k):
        if core.EX is None:
            return npfn(shape, *a, **k)
        out = _np.empty(shape, dtype=object)
        out.fill(a[0] if fill == "full" else fill)
        return out
    return f


def _array(npfn):
    def f(x, *a, **k):
        r = npfn(x, *a, **k)
        if core.EX is not None and isinstance(r, _np.ndarray) and r.dtype.kind == "f":
            r = r.astype(object)
        return r
    return f


def _norm(x, *a, **k):
    if core.EX is None or not _has_sym(x):
        return _np.linalg.norm(_np.asarray(x, dtype=float) if isinstance(x, _np.ndarray)
                               else x, *a, **k)
    flat = _np.asarray(x, dtype=object).ravel().tolist()
    if not any(core._is_sym(v) for v in flat):
        return float(_np.linalg.norm(_np.array([float(v) for v in flat])))
    from . import funcs
    return funcs.sqrt(sum(v * v for v in flat), nonneg=True)


def _gauss(m, rhs):
    """Exact elimination on object matrices (list of rows)."""
    n = len(m)
    a = [list(m[i]) + list(rhs[i]) for i in range(n)]
    for c in range(n):
        p = None
        for r in range(c, n):
            v = a[r][c]
            if v != 0:
                p = r
                break
        if p is None:
            raise _np.linalg.LinAlgError("Singular matrix")
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [v / d for v in a[c]]
        for r in range(n):
            if r != c:
                f = a[r][c]
                if not core._is_sym(f) and f == 0:
                    continue
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [row[n:] for row in a]


def _inv(m, *a, **k):
    if core.EX is None or not _has_sym(m):
        return _np.linalg.inv(m, *a, **k)
    rows = _np.asarray(m, dtype=object).tolist()
    n = len(rows)
    eye = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    return _np.array(_gauss(rows, eye), dtype=object)


def _solve(m, b, *a, **k):
    if core.EX is None or not (_has_sym(m) or _has_sym(b)):
        return _np.linalg.solve(m, b, *a, **k)
    rows = _np.asarray(m, dtype=object).tolist()
    rhs = _np.asarray(b, dtype=object)
    if rhs.ndim == 1:
        return _np.array([r[0] for r in _gauss(rows, [[v] for v in rhs.tolist()])],
                         dtype=object)
    return _np.array(_gauss(rows, rhs.tolist()), dtype=object)


_UN = ("sqrt", "abs", "absolute", "fabs", "cos", "sin", "arctan", "exp", "log10", "log",
       "ceil", "floor", "rint", "square", "isnan", "isinf", "isfinite")


def _mean(x, *a, **k):
    if core.EX is None or not _has_sym(x) or a or k:
        return _np.mean(x, *a, **k)
    flat = _np.asarray(x, dtype=object).ravel().tolist()
    return sum(flat) / len(flat)


def _pick(name, real):
    """min / max that stay symbolic instead of splitting the path."""
    def f(*a, **k):
        if core.EX is None or k or not a:
            return real(*a, **k)
        xs = list(a) if len(a) > 1 else a[0]
        if len(a) == 1:
            xs = list(xs)
        if not xs or not any(core._is_sym(x) for x in xs):
            return real(xs) if len(a) == 1 else real(*a)
        from . import values
        if any(isinstance(x, values.SymFP) for x in xs) or \
                any(values._num(x) is None for x in xs):
            return real(xs)
        best = xs[0]
        for x in xs[1:]:
            if core.EX.recip:           # terms stay polynomials: one path per answer
                best = x if (x > best if name == "max" else x < best) else best
                continue
            best = values.ite(x > best if name == "max" else x < best, x, best)
        return best
    return f


def _pick2(name, real):
    one = _pick(name, max if name == "max" else min)

    def f(a, b, *r, **k):
        if core._is_sym(a) or core._is_sym(b):
            if not isinstance(a, _np.ndarray) and not isinstance(b, _np.ndarray):
                return one(a, b)
        return real(a, b, *r, **k)
    return f


def _np_proxy():
    linalg = ProxyModule(_np.linalg, {"norm": _norm, "inv": _inv, "solve": _solve})
    over = {u: _unary(u, getattr(_np, u)) for u in _UN}
    over.update(linalg=linalg, zeros=_mk(_np.zeros, 0.0), ones=_mk(_np.ones, 1.0),
                empty=_mk(_np.empty, 0.0), full=_mk(_np.full, "full"),
                array=_array(_np.array), asarray=_array(_np.asarray),
                float64=float_shim, power=lambda a, b: a ** b)
    over["mean"] = _mean
    over["maximum"], over["minimum"] = _pick2("max", _np.maximum), _pick2("min", _np.minimum)
    over["fmax"], over["fmin"] = _pick2("max", _np.fmax), _pick2("min", _np.fmin)
    over["average"] = lambda x, *a, **k: (_mean(x) if not a and not k and core.EX is not None
                                          and _has_sym(x) else _np.average(x, *a, **k))
    return ProxyModule(_np, over), linalg


def _math_proxy():
    def un(name, target=None):
        real = getattr(math, name)

        def f(x, *a):
            if core._is_sym(x):
                if name == "log" and a:
                    return _apply1("log", x) / math.log(a[0])
                v = _apply1(target or name, x)
                if name in ("floor", "ceil", "trunc"):
                    return v if not hasattr(v, "__trunc__") else v.__trunc__()
                return v
            return real(x, *a)
        return f
    over = {n: un(n) for n in ("sqrt", "cos", "sin", "exp", "log10", "log", "floor", "ceil",
                               "fabs", "isnan", "isinf", "isfinite")}
    over["atan"] = un("atan", "arctan")
    over["erf"], over["erfc"] = un("erf"), un("erfc")
    over["trunc"] = lambda x: x.__trunc__()

    def _pow(a, b):
        return a ** b if core._is_sym(a) or core._is_sym(b) else math.pow(a, b)

    def _fsum(xs):
        xs = list(xs)
        return sum(xs) if _has_sym(xs) else math.fsum(xs)

    def _prod(xs, start=1):
        for x in xs:
            start = start * x
        return start

    def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if not (core._is_sym(a) or core._is_sym(b)):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        return abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol)

    def _hypot(*xs):
        from . import funcs
        return funcs.sqrt(sum(x * x for x in xs), nonneg=True) if _has_sym(list(xs)) else math.hypot(*xs)
    def _log2(x):
        if core._is_sym(x):
            raise Unsupported("log2 of a symbolic value")
        return math.log2(x)
    over.update(pow=_pow, fsum=_fsum, prod=_prod, isclose=_isclose, hypot=_hypot, log2=_log2)
    return ProxyModule(math, over)


def _stat_proxy():
    def mean(data, *a, **k):
        data = list(data)
        if not _has_sym(data):
            return _statistics.mean(data)
        return sum(data) / len(data)
    return ProxyModule(_statistics, {"mean": mean, "fmean": mean})


def _scipy(sub):
    try:
        import scipy
        import scipy.special as special
    except ImportError:
        return
    from . import funcs

    def one(name, fn):
        real = getattr(special, name)

        def f(x, *a, **k):
            return fn(x) if core._is_sym(x) else real(x, *a, **k)
        sub(real, f)
        return f
    over = {"erf": one("erf", funcs.erf), "erfc": one("erfc", funcs.erfc)}
    sp = ProxyModule(special, over)
    sub(special, sp)
    sub(scipy, ProxyModule(scipy, {"special": sp}))


class _float_meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float)

    def __subclasscheck__(cls, o):
        return issubclass(o, float)


class float_shim(metaclass=_float_meta):
    def __new__(cls, x=0.0):
        from . import values
        import z3
        if isinstance(x, values.SymBool):
            x = x.as_int()
        if isinstance(x, values.SymInt):
            return values.SymReal(z3.ToReal(x.e))
        if core._is_sym(x):
            return x
        return float(x)
    fromhex = float.fromhex


class _complex_meta(type):
    def __instancecheck__(cls, o):
        from .cplx import SymComplex
        return isinstance(o, (complex, SymComplex))

    def __subclasscheck__(cls, o):
        return issubclass(o, complex)


class complex_shim(metaclass=_complex_meta):
    def __new__(cls, real=0, imag=0):
        from .cplx import SymComplex
        if not (core._is_sym(real) or core._is_sym(imag)):
            return complex(real, imag)
        if isinstance(real, (SymComplex, complex)) or isinstance(imag, (SymComplex, complex)):
            return real + 1j * imag
        return SymComplex(real, imag)


def _cmath_proxy():
    from . import cplx, funcs
    over = {}

    def one(name, fn):
        real = getattr(_cmath, name)

        def f(z):
            if not core._is_sym(z):
                return real(z)
            return fn(z if isinstance(z, cplx.SymComplex) else cplx.SymComplex(z, 0.0))
        over[name] = f
    one("exp", cplx.exp)
    one("sqrt", lambda z: z.sqrt())

    def rect(r, phi):
        if not (core._is_sym(r) or core._is_sym(phi)):
            return _cmath.rect(r, phi)
        return cplx.SymComplex(r * funcs.cos(phi), r * funcs.sin(phi))
    over["rect"] = rect
    return ProxyModule(_cmath, over)


def _pydantic():
    """Models with symbolic fields take them as they are: the validator is compiled code.
    Replays of counterexamples validate for real."""
    try:
        from pydantic import BaseModel
    except ImportError:
        return
    real = BaseModel.__init__

    def __init__(self, /, **data):
        if core.EX is None or not _has_sym(list(data.values())):
            return real(self, **data)
        fields = type(self).model_fields
        missing = [k for k, f in fields.items() if f.is_required() and k not in data]
        if missing:
            raise ValueError(f"field required: {missing}")
        m = type(self).model_construct(**data)
        for a in ("__dict__", "__pydantic_fields_set__", "__pydantic_extra__",
                  "__pydantic_private__"):
            object.__setattr__(self, a, getattr(m, a))
    __init__.__pydantic_base_init__ = True
    BaseModel.__init__ = __init__


# ---------------------------------------------------------------- installation
def pysim_modules():
    return [m for n, m in list(sys.modules.items())
            if (n == "pysim" or n.startswith("pysim.")) and isinstance(m, types.ModuleType)
            and getattr(m, "__file__", None)]


_INSTALLED = None


def install(symbolic):
    """Patch the process for good (worker and replay processes call this once)."""
    global _INSTALLED
    if _INSTALLED is not None:
        raise RuntimeError("environment installed twice")
    _INSTALLED = "symbolic" if symbolic else "concrete"
    table = {}                      # id(original) -> replacement

    def sub(orig, new):
        table[id(orig)] = (orig, new)

    for name, fn in PY_RANDOM.items():
        sub(getattr(_random, name), fn)
    sub(_random.Random, _Gen)
    py_random = ProxyModule(_random, dict(PY_RANDOM, Random=_Gen, SystemRandom=_Gen,
                                          seed=lambda *a, **k: None))
    for name, fn in NP_RANDOM.items():
        sub(getattr(_np.random, name), fn)
    sub(_np.random.default_rng, _Gen)
    np_random = ProxyModule(_np.random, dict(NP_RANDOM, default_rng=_Gen, RandomState=_Gen,
                                             seed=lambda *a, **k: None))
    sub(_random, py_random)
    sub(_np.random, np_random)
    # module attributes, for code that reaches them by another route
    for name, fn in PY_RANDOM.items():
        setattr(_random, name, fn)
    for name, fn in NP_RANDOM.items():
        setattr(_np.random, name, fn)
    for name, fn in TIME.items():
        sub(getattr(_time, name), fn)
    sub(_time, ProxyModule(_time, TIME))
    inject = {}
    if symbolic:
        np_proxy, linalg = _np_proxy()
        np_proxy.__dict__["random"] = np_random
        sub(_np, np_proxy)
        sub(_np.linalg, linalg)
        for mod, proxy in ((_np, np_proxy), (_np.linalg, linalg)):
            for k, v in proxy.__dict__.items():
                real = getattr(mod, k, None)
                if callable(v) and callable(real) and not isinstance(real, types.ModuleType):
                    sub(real, v)
        mp = _math_proxy()
        sub(math, mp)
        for k, v in mp.__dict__.items():
            if not k.startswith("_") and callable(v):
                sub(getattr(math, k), v)
        cp = _cmath_proxy()
        sub(_cmath, cp)
        for k in ("exp", "sqrt", "rect"):
            sub(getattr(_cmath, k), cp.__dict__[k])
        _scipy(sub)
        sp = _stat_proxy()
        sub(_statistics, sp)
        sub(_statistics.mean, sp.mean)
        sub(_statistics.fmean, sp.fmean)
        from .strings import bin_shim, hex_shim, int_shim
        inject = {"int": int_shim, "float": float_shim, "complex": complex_shim, "bin": bin_shim, "hex": hex_shim,
                  "max": _pick("max", max), "min": _pick("min", min)}
    if symbolic:
        _pydantic()
    for m in pysim_modules():
        d = m.__dict__
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            hit = table.get(id(v))
            if hit is not None and hit[0] is v:
                d[k] = hit[1]
        for k, v in inject.items():
            if k not in d:
                d[k] = v
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(20000)
    global SNAP
    SNAP = Snapshot()


SNAP = None


# ---------------------------------------------------------------- module state
class Snapshot:
    """Module-level state of the code under test, put back before every run."""

    def __init__(self):
        self.spaces = []          # (dict-like owner kind, object, saved dict)
        self.boxes = []           # (container, saved shallow copy)
        self.caches = []
        self.counters = []
        seen = set()
        for m in pysim_modules():
            self._space(m.__dict__, seen)
        for d, _ in list(self.spaces):
            pass

    def _space(self, d, seen):
        if id(d) in seen:
            return
        seen.add(id(d))
        self.spaces.append((d, dict(d)))
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            self._value(v, seen)

    def _value(self, v, seen):
        if id(v) in seen:
            return
        if isinstance(v, type):
            if getattr(v, "__module__", "").startswith("pysim"):
                seen.add(id(v))
                self.spaces.append((v, {k: x for k, x in v.__dict__.items()
                                        if k not in ("__dict__", "__weakref__", "__doc__")}))
                import enum
                if issubclass(v, enum.Enum):
                    for x in v:                 # what a member carries, not the member table
                        self._value(x, seen)
                    for x in list(v.__dict__.values()):
                        if isinstance(x, (types.FunctionType, staticmethod, classmethod,
                                          property)):
                            self._value(x, seen)
                    return
                for x in list(v.__dict__.values()):
                    self._value(x, seen)
            return
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                if f is not None:
                    self._value(f, seen)
            return
        if hasattr(v, "cache_clear") and hasattr(v, "__wrapped__"):
            seen.add(id(v))
            self.caches.append(v)
            return
        if isinstance(v, types.FunctionType):
            if not (v.__module__ or "").startswith("pysim"):
                return
            seen.add(id(v))
            for x in (v.__defaults__ or ()):
                self._value(x, seen)
            for x in (v.__kwdefaults__ or {}).values():
                self._value(x, seen)
            for c in (v.__closure__ or ()):
                try:
                    self._value(c.cell_contents, seen)
                except ValueError:
                    pass
            if v.__dict__:
                self.spaces.append((v.__dict__, dict(v.__dict__)))
            return
        if isinstance(v, (list, dict, set, bytearray)):
            seen.add(id(v))
            self.boxes.append((v, v.copy()))
            for x in (v.values() if isinstance(v, dict) else v):
                self._value(x, seen)
            return
        if isinstance(v, _np.ndarray):
            seen.add(id(v))
            self.boxes.append((v, v.copy()))
            return
        if isinstance(v, (tuple, frozenset)):
            seen.add(id(v))
            for x in v:
                self._value(x, seen)
            return
        if isinstance(v, itertools.count):
            seen.add(id(v))
            self.counters.append(v)
            return
        mod = getattr(type(v), "__module__", "") or ""
        if mod.startswith("pysim") and hasattr(v, "__dict__"):
            seen.add(id(v))
            self.spaces.append((v.__dict__, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self._value(x, seen)

    def restore(self):
        for owner, saved in self.spaces:
            if isinstance(owner, type):
                cur = owner.__dict__
                for k in [k for k in cur if k not in saved
                          and k not in ("__dict__", "__weakref__", "__doc__")]:
                    with contextlib.suppress(AttributeError, TypeError):
                        delattr(owner, k)
                for k, v in saved.items():
                    if cur.get(k, None) is not v:
                        with contextlib.suppress(AttributeError, TypeError):
                            setattr(owner, k, v)
            else:
                if len(owner) != len(saved) or any(owner.get(k) is not v
                                                   for k, v in saved.items()):
                    owner.clear()
                    owner.update(saved)
        for box, saved in self.boxes:
            if isinstance(box, _np.ndarray):
                box[...] = saved
            elif isinstance(box, (list, bytearray)):
                box[:] = saved
            else:
                box.clear()
                box.update(saved)
        for c in self.caches:
            c.cache_clear()


def _note(variant, what):
    if os.environ.get("SYMX_WARM"):
        import traceback
        with open(os.environ["SYMX_WARM"], "a") as f:
            f.write(f"{variant} {what if isinstance(what, str) else repr(what)[:200]}\n")
            if not isinstance(what, str):
                f.write("".join(traceback.format_tb(what.__traceback__)[-3:]) + "\n")


def warm_up(ctx, fn, variant):
    """Run fn on fixed values; whatever it does, the run under test follows."""
    global RT
    w = core.WarmCtx(ctx, variant)
    prev, RT = RT, Runtime(w)
    w.rt = RT
    ex = getattr(ctx, "ex", None)
    kept = None
    if ex is not None:
        ex.warm = True
        kept = {k: getattr(ex, k) for k in WARM_KEPT if hasattr(ex, k)}
    try:
        fn(w)
        _note(variant, "complete")
    except core.PathLimit:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:          # noqa
        if not isinstance(e, (core.Control, Exception)):
            raise
        _note(variant, e)
    finally:
        RT = prev
        w.end()
        if ex is not None:
            ex.warm = False
            for k, v in kept.items():
                setattr(ex, k, v)


WARM_KEPT = ("recip", "complex_div", "hash_mode", "round_mode")


@contextlib.contextmanager
def run_env(ctx):
    """One run of a harness: fresh module state and a fresh runtime."""
    global RT
    if SNAP is not None:
        SNAP.restore()
    prev, RT = RT, Runtime(ctx)
    ctx.rt = RT
    try:
        yield RT
    finally:
        RT = prev
