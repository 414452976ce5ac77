"""Path exploration: decisions, solver, contexts (symbolic and concrete)."""
import math
import time as _time
from fractions import Fraction

import z3

_now = _time.perf_counter


class Control(BaseException):
    """Base of the engine's own control-flow exceptions."""


class Pruned(Control):
    """The current path is infeasible under an assumption."""


class Unsupported(Control):
    """The code did something the encoding cannot represent."""


class SolverUnknown(Control):
    """z3 gave no answer on a feasibility question."""


class PathLimit(Control):
    """A path exceeded its step or time budget."""


class Stats:
    FIELDS = ("paths", "pruned", "decisions", "forks", "queries", "sat", "unsat",
              "unknown", "checks", "obligations", "validated", "diverged")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        d["labels"] = dict(self.labels)
        return d

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])
        self.solver_s += d["solver_s"]
        for k, v in d["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v


EX = None          # the running Explorer (symbolic mode) or None (concrete mode)


def current():
    if EX is None:
        raise RuntimeError("symbolic value used outside an exploration")
    return EX


def to_fraction(x):
    """The rational a Python number stands for.  Floats are read as the decimal
    they print as: 12.5e-6 is 1/80000 and not its nearest double."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise OverflowError(x)
    short = Fraction(x).limit_denominator(1000)
    if short.numerator and float(short) == x:       # 64.0/3 stands for 64/3
        return short
    return Fraction(repr(x))


def rv(fr):
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}") if fr.denominator != 1 \
        else z3.RealVal(fr.numerator)


def num_of(v):
    """Python value of a z3 numeral (Fraction / int / bool)."""
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_fp(v):
        return fp_value(v)
    raise Unsupported(f"no value for {v}")


def fp_value(v):
    s = z3.simplify(z3.fpToIEEEBV(v))
    import struct
    return struct.unpack("<d", struct.pack("<Q", s.as_long()))[0]


class Var:
    __slots__ = ("name", "kind", "expr", "grid", "domain")

    def __init__(self, name, kind, expr, grid=None, domain=None):
        self.name, self.kind, self.expr, self.grid, self.domain = \
            name, kind, expr, grid, domain


class Violation:
    def __init__(self, label, detail, values, source="solver"):
        self.label, self.detail, self.values, self.source = label, detail, values, source


import random as _random_module
_Random = _random_module.Random     # the real one: the code under test gets a stand-in
SEEDS = [Fraction(x).limit_denominator(10 ** 6) for x in
         (0.9, 0.5, 0.99, 0.25, 0.1, 1.5, 2, 10, -0.5, -2, 0)]


class Explorer:
    """Depth-first exploration of one harness by re-execution."""

    def __init__(self, opts, stats=None):
        self.opts = opts
        self.stats = stats or Stats()
        self.solver = None
        self.query_ms = int(opts.get("query_ms", 20000))
        self.max_steps = opts.get("max_steps", 20000)
        self.path_s = opts.get("path_s", 120.0)

    # ------------------------------------------------------------ one path
    def run_path(self, harness, prefix):
        """Run harness along prefix; returns (outcome, alternatives)."""
        global EX
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.has_fp = False
        self.model = None           # a model of the current path condition
        self.decided = {}           # expr id -> (expr, bool)
        self.vars = []
        self.names = {}
        self.keep = []
        self.checks = []
        self.observed = []
        self.violations = []
        self.inconclusive = []
        self.t0 = _now()
        self.ufs = {}
        self.uf_axioms_done = set()
        self.warm = False           # in a run before the run under test
        self.recip = False          # quotients as products with a reciprocal variable
        self.recips = {}
        self._polys = None
        self.complex_div = "branch"     # or "assume": complex divisors are not zero
        self.uf_apps = []           # (argument, term, the real function)
        ctx = SymCtx(self)
        self.ctx = ctx
        prev, EX = EX, self
        outcome = "done"
        self.crash = None
        try:
            try:
                with self.opts["env"](ctx):
                    harness(ctx)
            except Pruned:
                outcome = "pruned"
            except (Unsupported, SolverUnknown, PathLimit) as e:
                outcome = "inconclusive"
                self.inconclusive.append(f"{type(e).__name__}: {e}")
            except Control:
                raise
            except (KeyboardInterrupt, SystemExit, MemoryError):
                raise
            except BaseException as e:            # noqa: code under test crashed
                outcome = "crash"
                self.crash = e
            try:
                if outcome == "crash":
                    m = self.get_model()
                    if m is None:
                        outcome = "pruned"
                    else:
                        import traceback
                        tb = traceback.extract_tb(self.crash.__traceback__)
                        where = ""
                        for f in reversed(tb):
                            if "/pysim/" in f.filename:
                                where = f" at {f.filename}:{f.lineno} in {f.name}"
                                break
                        msg = f"{type(self.crash).__name__}: {str(self.crash)[:200]}{where}"
                        if self.opts.get("debug"):
                            msg += "\n" + "".join(
                                traceback.format_exception(self.crash))
                        self.flush_checks()
                        self.violations.append(
                            Violation("no-unexpected-exception", msg,
                                      self.values_of(self.nice_model([]) or m)))
                elif outcome != "pruned":
                    self.flush_checks()
            except Pruned:
                outcome = "pruned"
            except (Unsupported, SolverUnknown) as e:
                self.inconclusive.append(f"{type(e).__name__}: {e}")
        finally:
            EX = prev
        if outcome == "pruned":
            self.stats.pruned += 1
        else:
            self.stats.paths += 1
        return outcome, self.alts

    # ------------------------------------------------------------ solver
    def check_sat(self, extra=None):
        t = _now()
        self.stats.queries += 1
        s = self.solver
        if self.has_fp:
            # bit-blasting does far better on a fresh, non-incremental solver
            r = z3.unknown
            for mk in (lambda: z3.Then("simplify", "solve-eqs", "fpa2bv", "simplify",
                                       "bit-blast", "sat").solver(), z3.Solver):
                try:
                    s = mk()
                    s.set("timeout", self.query_ms)
                    s.add(self.pc + ([extra] if extra is not None else []))
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r != z3.unknown:
                    break
        elif extra is None:
            r = s.check()
        else:
            s.push()
            s.add(extra)
            r = s.check()
        if r == z3.sat:
            m = s.model()
        else:
            m = None
        if extra is not None and not self.has_fp:
            s.pop()
        if r == z3.unknown and not self.has_fp and not self.recip:
            r, m = self.fallback(extra)
        self.stats.solver_s += _now() - t
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, m

    def fallback(self, extra):
        """Other strategies for a query the incremental solver could not answer."""
        goal = list(self.pc) + ([extra] if extra is not None else [])
        for mk in (lambda: z3.Then("simplify", "solve-eqs", "purify-arith", "smt").solver(),
                   lambda: z3.Tactic("qfnra-nlsat").solver(),
                   lambda: z3.Tactic("default").solver()):
            try:
                s = mk()
                s.set("timeout", self.query_ms)
                s.add(goal)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                return r, s.model()
            if r == z3.unsat:
                return r, None
        return z3.unknown, None

    def get_model(self):
        if self.model is None:
            r, m = self.check_sat()
            if r == z3.unsat:
                return None
            if r == z3.unknown:
                raise SolverUnknown("path condition")
            self.model = m
        return self.model

    def add(self, e):
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None and not self.holds_in_model(e):
            self.model = None

    def holds_in_model(self, e):
        if self.model is None:
            return False
        v = self.model.eval(e, model_completion=True)
        return z3.is_true(v)

    # ------------------------------------------------------------ decisions
    def _step(self):
        if len(self.trace) > self.max_steps:
            raise PathLimit(f"more than {self.max_steps} decisions on one path")
        if _now() - self.t0 > self.path_s:
            raise PathLimit(f"one path took more than {self.path_s:.0f} s")

    def branch(self, e):
        """Decide the truth of a symbolic condition on this path, forking."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.warm:
            raise WarmStop()
        k = e.get_id()
        self._step()
        i = len(self.trace)
        known = self.decided.get(k)
        if known is None and z3.is_not(e):
            other = self.decided.get(e.arg(0).get_id())
            if other is not None:
                known = (e, not other[1])
        if i < len(self.prefix):
            tag, val = self.prefix[i]
            if tag != "b":
                raise Unsupported("replay of the decision prefix diverged")
        elif known is not None:
            val = known[1]
        else:
            self.stats.decisions += 1
            t_ok = f_ok = False
            mt = None
            if self.model is not None:
                v = self.model.eval(e, model_completion=True)
                t_ok, f_ok = z3.is_true(v), z3.is_false(v)
                mt = self.model if t_ok else None
            if not t_ok:
                r, mt = self.check_sat(e)
                if r == z3.unknown and not self.recip:
                    raise SolverUnknown(f"branch {str(e)[:200]}")
                t_ok = r != z3.unsat        # not excluded: explored
            val = t_ok
            if t_ok:
                if not f_ok:
                    r, m = self.check_sat(z3.Not(e))
                    if r == z3.unknown and not self.recip:
                        raise SolverUnknown(f"branch {str(e)[:200]}")
                    f_ok = r != z3.unsat
                if f_ok:
                    self.stats.forks += 1
                    self.alts.append(self.trace + [("b", False)])
                self.model = mt
        if known is not None and known[1] == val:
            self.trace.append(("b", val))
            return val
        self.trace.append(("b", val))
        c = e if val else z3.Not(e)
        self.decided[k] = (e, val)
        self.keep.append(e)
        self.add(c)
        return val

    def choose(self, n):
        """An n-way free decision; returns the index taken."""
        if n <= 0:
            raise Pruned()
        self._step()
        i = len(self.trace)
        if i < len(self.prefix):
            tag, val = self.prefix[i]
            if tag != "c" or val >= n:
                raise Unsupported("replay of the decision prefix diverged")
        else:
            self.stats.decisions += 1
            val = 0
            self.stats.forks += n - 1
            for j in range(n - 1, 0, -1):
                self.alts.append(list(self.trace) + [("c", j)])
        self.trace.append(("c", val))
        return val

    def concretize(self, e, what="value"):
        """Fork over all values the integer expression can take."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.warm:
            raise WarmStop()
        n = 0
        while True:
            self._step()
            i = len(self.trace)
            if i < len(self.prefix):
                tag, val = self.prefix[i]
                if tag != "v":
                    raise Unsupported("replay of the decision prefix diverged")
                v, taken = val
            else:
                m = self.get_model()
                if m is None:
                    raise Pruned()
                v = num_of(m.eval(e, model_completion=True))
                taken = True
                self.stats.decisions += 1
                r, _ = self.check_sat(e != v)
                if r == z3.unknown:
                    raise SolverUnknown("concretize")
                if r == z3.sat:
                    self.stats.forks += 1
                    self.alts.append(list(self.trace) + [("v", (v, False))])
            self.trace.append(("v", (v, taken)))
            if taken:
                self.add(e == v)
                return v
            self.add(e != v)
            n += 1
            if n > self.opts.get("max_values", 300):
                raise PathLimit(f"{what}: too many values to enumerate")

    # ------------------------------------------------------------ variables
    def fresh_name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return f"{name}#{n}"

    def new_var(self, name, kind, grid=None, domain=None):
        full = self.fresh_name(name)
        if kind == "int" or kind == "choice":
            e = z3.Int(full)
        elif kind == "real":
            e = z3.Real(full)
        elif kind == "bool":
            e = z3.Bool(full)
        elif kind == "fp":
            self.has_fp = True
            e = z3.FP(full, z3.Float64())
        else:
            raise ValueError(kind)
        self.vars.append(Var(full, kind, e, grid, domain))
        return full, e

    def aux_real(self, name="aux"):
        return z3.Real(self.fresh_name("$" + name))

    def values_of(self, m):
        """Concrete values for all variables; values the model got by exact algebra are
        rationals here and floats in the replay."""
        out = {}
        for v in self.vars:
            x = m.eval(v.expr, model_completion=True)
            x = num_of(x)
            if isinstance(x, Fraction):
                x = [x.numerator, x.denominator]
            out[v.name] = x
        return out

    def nice_model(self, extra):
        """A model of pc and extra whose reals lie on a coarse grid if possible."""
        t = _now()
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(self.pc)
        s.add(extra)
        softs = []
        for v in self.vars:
            if v.kind == "real" and v.grid:
                softs.append((v, v.expr == z3.ToReal(z3.Int("$g_" + v.name)) * rv(v.grid)))
        m = None
        try:
            if softs:
                s.push()
                s.add([c for _, c in softs])
                if s.check() == z3.sat:
                    m = s.model()
                s.pop()
            if m is None:
                if s.check() == z3.sat:
                    m = s.model()
        except z3.Z3Exception:
            m = None
        self.stats.solver_s += _now() - t
        return m

    # ------------------------------------------------------------ checks
    def flush_checks(self):
        """Discharge the obligations collected on this path: pc => all of them."""
        todo, self.checks = self.checks, []
        if not todo:
            return
        if all(c.expr is True for c in todo) and self.recip:
            self.stats.obligations += len(todo)
            return
        if self.recip:
            with_model = self.check_sat()
            if with_model[0] == z3.unsat:
                raise Pruned()
            self.model = with_model[1]
        elif self.get_model() is None:
            raise Pruned()
        self.stats.obligations += len(todo)
        symbolic = []
        for c in todo:
            if c.expr is True:
                continue
            symbolic.append(c)
        if not symbolic:
            return
        size = 1 if self.has_fp else 40
        for i in range(0, len(symbolic), size):
            group = symbolic[i:i + size]
            negs = [z3.Not(c.expr) if c.expr is not False else z3.BoolVal(True)
                    for c in group]
            if len(group) > 1:
                r, _ = self.check_sat(z3.Or(negs))
                if r == z3.unsat:
                    continue
            for c, n in zip(group, negs):
                self.decide(c, n)

    @property
    def polys(self):
        if self._polys is None:
            from .poly import Polys
            self._polys = Polys()
        return self._polys

    def decide(self, c, neg):
        r, m = self.check_sat(neg)
        if r == z3.unsat:
            return
        if c.loose is not None:
            # equality of reals: what counts is a difference beyond rounding
            strong = c.loose(Fraction(1, 1000))
            r2, m2 = self.check_sat(strong)
            if r2 == z3.sat:
                r, m, neg = r2, m2, strong
            else:
                weak = c.loose(None)
                r, m = self.check_sat(weak)
                neg = weak
        if r == z3.unsat:
            return
        if r == z3.unknown:
            base = (self.nice_model([]) or self.discrete_model()) if self.recip else None
            if base is None:
                self.inconclusive.append(f"solver gave no answer for check '{c.label}'")
                return
            base = self.values_of(base)
            v = Violation(c.label, "not decided", base)
            v.alts = self.points(base)
            self.violations.append(v)
            return
        nm = self.nice_model([neg])
        vals = self.values_of(nm or m)
        detail = c.detail() if callable(c.detail) else c.detail
        v = Violation(c.label, detail or "", vals)
        v.alts = [self.values_of(m)] if nm is not None else []
        if self.uf_apps:
            v.alts = self.refined(neg) + v.alts
        if self.recip:
            v.alts += self.points(vals)
        self.violations.append(v)

    def discrete_model(self):
        """A model of the part of the path condition over the discrete inputs alone."""
        names = {v.name for v in self.vars if v.kind == "real"}

        def discrete(e, seen):
            if e.get_id() in seen:
                return True
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return e.decl().name() not in names and "!" not in e.decl().name() \
                    and not e.decl().name().startswith("$")
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return False
            return all(discrete(a, seen) for a in e.children())
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add([e for e in self.pc if discrete(e, set())])
        return s.model() if s.check() == z3.sat else None

    def points(self, base, n=12):
        """Spread-out inputs for a violation the solver found no true model of: the replay
        on the real code decides whether one of them shows it."""
        rnd = _Random(len(self.checks) + len(self.vars))
        out = []
        for _ in range(n):
            vals = dict(base)
            for v in self.vars:
                if v.kind == "real" and v.domain:
                    lo, hi = v.domain
                    x = lo + (hi - lo) * Fraction(rnd.randint(0, 4096), 4096)
                    vals[v.name] = [x.numerator, x.denominator]
            out.append(vals)
        return out

    def refined(self, neg, tries=12, limit=12.0):
        """Counterexamples in which the uninterpreted functions take their true values at
        the points where they are applied: each application's argument is pinned to a
        value (the model's, or one of a few fixed ones for the first application) and its
        term to the real function there, as long as the violation stays satisfiable."""
        out = []
        t0 = _now()
        for k in range(tries):
            if _now() - t0 > limit or len(out) >= 4:
                break
            s = z3.Solver()
            s.set("timeout", 2500)
            s.add(self.pc)
            s.add(neg)
            ok = True
            try:
                for j, (a, t, f) in enumerate(self.uf_apps):
                    if s.check() != z3.sat:
                        ok = False
                        break
                    now = num_of(s.model().eval(a, model_completion=True))
                    now = Fraction(now).limit_denominator(10 ** 9)
                    pts = [now] if j or not k else [SEEDS[k - 1], now]
                    for x in pts:
                        try:
                            y = Fraction(f(float(x)))
                        except (ArithmeticError, ValueError):
                            continue
                        tol = abs(y) * Fraction(1, 10 ** 9) + Fraction(1, 10 ** 15)
                        s.push()
                        s.add(a == rv(x), t >= rv(y - tol), t <= rv(y + tol))
                        if s.check() == z3.sat:
                            break
                        s.pop()
                    else:
                        ok = False
                        break
                if ok and s.check() == z3.sat:
                    out.append(self.values_of(s.model()))
            except (z3.Z3Exception, TypeError, OverflowError):
                continue
        self.stats.solver_s += _now() - t0
        return out


class Check:
    __slots__ = ("label", "expr", "detail", "loose")

    def __init__(self, label, expr, detail=None, loose=None):
        self.label, self.expr, self.detail, self.loose = label, expr, detail, loose


# ---------------------------------------------------------------- contexts
REL = Fraction(1, 10 ** 9)
ABS = Fraction(1, 10 ** 13)


def _is_sym(x):
    from .values import Sym
    return isinstance(x, Sym)


class BaseCtx:
    symbolic = False

    def choose(self, name, options):
        raise NotImplementedError

    def foretold(self, name, options):
        """The choice an earlier run in this process made under this name, to be made again."""
        q = getattr(self, "told", None)
        q = q.get(name) if q else None
        if not q:
            return None
        was, i = q.pop(0)
        return i if was == len(options) else None

    def reach(self, label):
        self.check(True, label)

    def all(self, conds):
        out = True
        for c in conds:
            out = c if out is True else out & c
        return out


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, ex):
        self.ex = ex
        self.stats = ex.stats

    # -- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, grid=None):
        from .values import SymReal
        if grid is None:
            if lo is None or hi is None or to_fraction(hi) - to_fraction(lo) >= 1:
                grid = Fraction(1, 64)
        full, e = self.ex.new_var(
            name, "real", grid and to_fraction(grid),
            (to_fraction(lo), to_fraction(hi)) if lo is not None and hi is not None else None)
        v = SymReal(e)
        if lo is not None:
            l = rv(to_fraction(lo))
            self.ex.add(e > l if lo_open else e >= l)
        if hi is not None:
            h = rv(to_fraction(hi))
            self.ex.add(e < h if hi_open else e <= h)
        return v

    def int(self, name, lo=None, hi=None):
        from .values import SymInt
        full, e = self.ex.new_var(name, "int")
        if lo is not None:
            self.ex.add(e >= lo if not _is_sym(lo) else e >= lo.e)
        if hi is not None:
            self.ex.add(e <= hi if not _is_sym(hi) else e <= hi.e)
        return SymInt(e, lo if isinstance(lo, int) else None,
                      hi if isinstance(hi, int) else None)

    def bool(self, name):
        from .values import SymBool
        full, e = self.ex.new_var(name, "bool")
        return SymBool(e)

    def fp(self, name, lo=None, hi=None):
        from .values import SymFP
        full, e = self.ex.new_var(name, "fp")
        self.ex.add(z3.Not(z3.fpIsNaN(e)))
        self.ex.add(z3.Not(z3.fpIsInf(e)))
        v = SymFP(e)
        if lo is not None:
            self.ex.add(z3.fpGEQ(e, z3.FPVal(lo, z3.Float64())))
        if hi is not None:
            self.ex.add(z3.fpLEQ(e, z3.FPVal(hi, z3.Float64())))
        return v

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.foretold(name, options)
        if i is not None:
            return options[i]
        full, e = self.ex.new_var(name, "choice")
        i = self.ex.choose(len(options))
        self.ex.add(e == i)
        return options[i]

    # -- logic
    def assume(self, cond):
        from .values import truth_expr
        e = truth_expr(cond)
        if e is True:
            return
        if self.ex.checks:
            self.ex.flush_checks()
        if e is False:
            raise Pruned()
        self.ex.add(e)
        if len(self.ex.trace) >= len(self.ex.prefix):
            if self.ex.get_model() is None:
                raise Pruned()

    def check(self, cond, label, detail=None):
        from .values import truth_expr
        self.stats.checks += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        self.ex.checks.append(Check(label, truth_expr(cond), detail))

    def eq(self, a, b, label, detail=None):
        """a equals b, up to float rounding when they are reals."""
        from .values import numeric_pair
        self.stats.checks += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        pair = numeric_pair(a, b)
        if pair is None:
            same = a == b
            from .values import truth_expr
            self.ex.checks.append(Check(label, truth_expr(same),
                                        detail or f"{a!r} != {b!r}"))
            return
        x, y, concrete = pair
        if concrete:
            ok = close(a, b)
            self.ex.checks.append(Check(label, bool(ok), detail or f"{a!r} != {b!r}"))
            return
        if x.sort() == z3.IntSort() and y.sort() == z3.IntSort():
            self.ex.checks.append(Check(label, x == y, detail))
            return
        if x.sort() == z3.IntSort():
            x = z3.ToReal(x)
        if y.sort() == z3.IntSort():
            y = z3.ToReal(y)
        if self.ex.recip:
            if self.ex.polys.same(x, y):
                self.ex.checks.append(Check(label, True, detail))
                return

        def loose(rel):
            d = x - y
            ad = z3.If(d >= 0, d, -d)
            sx = z3.If(x >= 0, x, -x)
            sy = z3.If(y >= 0, y, -y)
            r = rv(rel if rel is not None else REL)
            return ad > r * (sx + sy) + rv(ABS)
        self.ex.checks.append(Check(label, x == y, detail, loose))

    def le(self, a, b, label, detail=None):
        """a <= b up to rounding."""
        from .values import numeric_pair
        pair = numeric_pair(a, b)
        if pair is None or pair[2]:
            return self.check(a <= b or close(a, b), label, detail)
        x, y, _ = pair
        x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
        y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
        self.stats.checks += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1

        def loose(rel):
            d = x - y
            sx = z3.If(x >= 0, x, -x)
            sy = z3.If(y >= 0, y, -y)
            r = rv(rel if rel is not None else REL)
            return d > r * (sx + sy) + rv(ABS)
        self.ex.checks.append(Check(label, x <= y, detail, loose))

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def observe(self, *values):
        self.ex.observed.extend(values)

    # -- if-then-else without forking
    def ite(self, c, a, b):
        from .values import ite
        return ite(c, a, b)

    def and_(self, *cs):
        from .values import truth_expr, SymBool
        es = [truth_expr(c) for c in cs]
        if any(e is False for e in es):
            return False
        es = [e for e in es if e is not True]
        return SymBool(z3.And(es)) if es else True

    def or_(self, *cs):
        from .values import truth_expr, SymBool
        es = [truth_expr(c) for c in cs]
        if any(e is True for e in es):
            return True
        es = [e for e in es if e is not False]
        return SymBool(z3.Or(es)) if es else False

    def not_(self, c):
        from .values import truth_expr, SymBool
        e = truth_expr(c)
        return (not e) if isinstance(e, bool) else SymBool(z3.Not(e))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))


def close(a, b, rel=1e-9, abs_=1e-12):
    try:
        if a == b:
            return True
        return math.isclose(float(a), float(b), rel_tol=rel, abs_tol=abs_)
    except (TypeError, ValueError):
        return False


class AssumptionFailed(Control):
    pass


class CheckFailed(Control):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


class ConcCtx(BaseCtx):
    """Runs a harness on plain Python values (counterexample replay, witnesses)."""
    symbolic = False

    def __init__(self, values, stop_at_failure=True):
        self.values = values
        self.names = {}
        self.observed = []
        self.labels = {}
        self.failures = []
        self.missing = 0
        self.stop = stop_at_failure

    def _val(self, name, default):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        full = f"{name}#{n}"
        if full not in self.values:
            self.missing += 1
            return default
        return self.values[full]

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, grid=None):
        d = 0.0
        if lo is not None and hi is not None:
            d = (float(lo) + float(hi)) / 2
        elif lo is not None:
            d = float(lo) + 1.0
        elif hi is not None:
            d = float(hi) - 1.0
        v = self._val(name, d)
        if isinstance(v, (list, tuple)):
            v = v[0] / v[1]
        v = float(v)
        if lo is not None and v < float(lo):
            v = float(lo)
        if hi is not None and v > float(hi):
            v = float(hi)
        if hi is not None and hi_open and v >= float(hi):
            v = math.nextafter(float(hi), -math.inf)
        if lo is not None and lo_open and v <= float(lo):
            v = math.nextafter(float(lo), math.inf)
        return v

    def fp(self, name, lo=None, hi=None):
        return float(self._val(name, float(lo) if lo is not None else 0.0))

    def int(self, name, lo=None, hi=None):
        v = self._val(name, lo if lo is not None else 0)
        return int(v)

    def bool(self, name):
        return bool(self._val(name, False))

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        if not options:
            raise AssumptionFailed()
        i = self.foretold(name, options)
        if i is not None:
            return options[i]
        i = int(self._val(name, 0))
        return options[min(max(i, 0), len(options) - 1)]

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def _fail(self, label, detail):
        detail = detail() if callable(detail) else detail
        self.failures.append((label, detail or ""))
        if self.stop:
            raise CheckFailed(label, detail or "")

    def check(self, cond, label, detail=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            self._fail(label, detail)

    def eq(self, a, b, label, detail=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not _conc_equal(a, b):
            self._fail(label, detail or f"{a!r} != {b!r}")

    def le(self, a, b, label, detail=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not (a <= b or close(a, b)):
            self._fail(label, detail or f"{a!r} > {b!r}")

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def observe(self, *values):
        self.observed.extend(values)

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)


class WarmStop(Control):
    """Ends a run before the run under test early; never reported."""


class WarmCtx(BaseCtx):
    """A run of the harness on fixed values before the run under test, in the same process:
    what the code keeps from it (caches, shared objects) must not change the run under test.
    Nothing is asserted in it."""

    LIMIT = 400
    SHARED = 10

    def __init__(self, main, variant):
        self.main, self.variant, self.symbolic = main, variant, main.symbolic
        self.n = self.reals = 0
        self.told = []
        if main.symbolic:
            self.ex, self.stats = main.ex, Stats()

    def _tick(self):
        self.n += 1
        if self.n > self.LIMIT:
            raise WarmStop()

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, grid=None):
        self._tick()
        # rising values in one run and falling values in the next, so that an assumption that
        # orders two of them holds in one of the two
        k = self.reals = self.reals + 1
        f = Fraction(2 + k, 7 + k) if self.variant % 2 == 0 else Fraction(5, 7 + k)
        if _is_sym(lo) or _is_sym(hi):
            raise WarmStop()
        a = to_fraction(lo) if lo is not None and lo not in (math.inf, -math.inf) else None
        b = to_fraction(hi) if hi is not None and hi not in (math.inf, -math.inf) else None
        if a is not None and b is not None:
            v = a + (b - a) * f
        elif a is not None:
            v = a + f
        elif b is not None:
            v = b - f
        else:
            v = f
        if not self.symbolic:
            return float(v)
        from .values import SymReal
        return SymReal(rv(v))

    def fp(self, name, lo=None, hi=None):
        self._tick()
        return float(lo) + 0.375 if lo is not None else 0.375

    def int(self, name, lo=None, hi=None):
        self._tick()
        if _is_sym(lo) or _is_sym(hi):
            raise WarmStop()
        if lo is None:
            return hi if hi is not None else 1
        if hi is None:
            return lo + 1
        return lo + (hi - lo) * (1 + self.variant % 2) // 3

    def bool(self, name):
        self._tick()
        return bool((self.n + self.variant) % 2)

    def choose(self, name, options):
        options = list(options)
        if not options:
            raise WarmStop()
        self._tick()
        k = len(options)
        if self.variant == 0 and k > 1 and len(self.told) < self.SHARED:
            # the run under test makes the same choice: the two runs then differ in their
            # numbers only
            i = self.main.choose(name, range(k))
            self.told.append((name, k, i))
            return options[i]
        return options[(0, k - 1, self.n % k)[self.variant % 3]]

    def end(self):
        told = {}
        for name, k, i in self.told:
            told.setdefault(name, []).append((k, i))
        if told:
            self.main.told = told

    def assume(self, cond):
        if not cond:
            raise WarmStop()

    def _skip(self, *a, **k):
        return None

    check = eq = le = fail = observe = reach = _skip

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)


def _conc_equal(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_conc_equal(x, y) for x, y in zip(a, b))
    num = (int, float)
    try:
        import numpy as np
        num = num + (np.number,)
    except ImportError:
        pass
    if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool):
        return close(a, b)
    return bool(a == b)
