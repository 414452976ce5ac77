"""G03: analytic mean times against the first-step equations."""
from fractions import Fraction

from pysim.models.tag_time import analitical_model as am
from harness.pp import near
from symx.runner import Scenario

BOUNDS = [
    "four transition probabilities each symbolic in (0, 1], four stay times each symbolic in "
    "[0, 10], 1 to 12 chunks (thorough: 40), 1 to 3 points in one call",
    "second and third formula also with 1 to 6 phases",
    "rounding: 40 vectors of concrete probabilities down to 1e-9 per scenario, with every stay "
    "time in [0.001, 10] symbolic",
]
OUTSIDE = ["probability zero (no mean exists)", "number of chunks beyond the bound"]
ASSUME = ["arithmetic with symbolic values is exact in the encoding, arithmetic on the concrete "
          "probabilities of the rounding scenario is that of the machine",
          "numpy.linalg.inv and solve, where used, are exact Gaussian elimination"]


def chain_equations(ctx, scenario, p, t, res, label, detail):
    """res = E_0 of the chain: eliminate E_1.. from E_i = t_i + (1-p_i)E_back + p_i E_(i+1)."""
    n = len(p)
    if scenario == 1:
        # E_(i+1) = (E_i - t_i - (1-p_i) E_0) / p_i, and E_n = 0
        # multiplied out: with D_i = E_i * p_0..p_(i-1) no division is needed
        d, prod = res, 1
        for i in range(n):
            d = d - t[i] * prod - (1 - p[i]) * res * prod
            prod = prod * p[i]
        # size of the terms, for the rounding of a replay
        size = prod * res
        for i in range(n):
            q = 1
            for j in range(i):
                q = q * p[j]
            size = size + q * t[i]
        if ctx.symbolic:
            ctx.check(ctx.and_(d <= size * 1e-9, -d <= size * 1e-9), label, detail)
        else:
            want = 0.0
            for a, b in zip(p, t):
                want = (want + b) / a
            ctx.check(abs(res - want) <= 1e-6 * abs(want), label, detail + f" not {want}")
        return
    # E_i = t_i + (1-p_i) E_i + p_i E_(i+1): sum of the D_i with p_i D_i = t_i
    if ctx.symbolic:
        parts = []
        for i in range(n):
            x = ctx.real("stay", 0, None)
            ctx.assume(x * p[i] == t[i])
            parts.append(x)
        want = sum(parts)
        ctx.check(ctx.and_(res - want <= 1e-9 * want, want - res <= 1e-9 * want), label, detail)
    else:
        for i in range(n):
            ctx.real("stay", 0, None)
        want = sum(b / a for a, b in zip(p, t))
        ctx.check(abs(res - want) <= 1e-6 * abs(want), label, detail + f" not {want}")


def data(ctx, n):
    p = [ctx.real("p", 0, 1, lo_open=True) for _ in range(n)]
    t = [ctx.real("t", 0, 10) for _ in range(n)]
    return p, t


def first(ctx):
    p, t = data(ctx, 4)
    res, = am.run_analitica(1, am.convert_data_for_analitica([p], [t]), 1)
    chain_equations(ctx, 1, p, t, res / 1000, "first scenario solves its equations",
                    f"{res / 1000}")
    ctx.observe(res)


def second(ctx):
    p, t = data(ctx, 4)
    res, = am.run_analitica(2, am.convert_data_for_analitica([p], [t]), 1)
    chain_equations(ctx, 2, p, t, res / 1000, "second scenario solves its equations",
                    f"{res / 1000}")
    ctx.observe(res)


def third(chunks):
    def scenario(ctx):
        p, t = data(ctx, 4)
        n = ctx.choose("chunks", chunks)
        pp = p[:3] + [p[3]] * n
        tt = t[:3] + [t[3]] * n
        how = ctx.choose("input", ["one entry for all chunks", "one entry per chunk"])
        if how == "one entry per chunk":
            phases = am.convert_data_for_analitica([pp], [tt])
        else:
            phases = am.convert_data_for_analitica([p], [t])
        res, = am.run_analitica(3, phases, n)
        # each chunk contributes the mean of the chunk state
        if ctx.symbolic:
            parts = [ctx.real("stay", 0, None) for _ in range(4)]
            for x, a, b in zip(parts, p, t):
                ctx.assume(x * a == b)
            want = sum(parts[:3]) + n * parts[3]
            got = res / 1000
            ctx.check(ctx.and_(got - want <= 1e-9 * want, want - got <= 1e-9 * want),
                      "each chunk contributes its mean once", f"{got}")
        else:
            for _ in range(4):
                ctx.real("stay", 0, None)
            want = sum(b / a for a, b in zip(pp, tt))
            ctx.check(abs(res / 1000 - want) <= 1e-6 * want,
                      "each chunk contributes its mean once", f"{res / 1000} not {want}")
        ctx.observe(res)
    return scenario


def points(ctx):
    """Several points of a curve: each from its own numbers, in order."""
    which = ctx.choose("scenario", [1, 2, 3])
    m = ctx.choose("points", [0, 2, 3])
    ps, ts = [], []
    for _ in range(m):
        p, t = data(ctx, 4)
        ps.append(p)
        ts.append(t)
    n = ctx.choose("chunks", [1, 3])
    many = am.run_analitica(which, am.convert_data_for_analitica(ps, ts) if m else [], n)
    ctx.check(len(many) == m, "one value per point", f"{len(many)}")
    for k in range(m):
        one, = am.run_analitica(which, am.convert_data_for_analitica([ps[k]], [ts[k]]), n)
        ctx.check(near(ctx, many[k], one), "a point depends on its own numbers", f"point {k}")


def small(ctx):
    """Small probabilities, in the arithmetic of the real code: probabilities from a table of
    doubles (so matrices are inverted in floating point), every stay time."""
    which = ctx.choose("scenario", [1, 2, 3])
    s = ctx.choose("scale", [1.0, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-9])
    shape = ctx.choose("shape", ["all", "first", "last", "falling", "rising"])
    p = {"all": [s * .7, s, s * .9, s * .8], "first": [s, .9, .8, .7],
         "last": [.7, .8, .9, s], "falling": [.9, .5, s ** .5, s], "rising": [s, s ** .5, .5, .9],
         }[shape]
    t = [ctx.real("t", Fraction(1, 1000), 10) for _ in range(4)]
    res, = am.run_analitica(which, am.convert_data_for_analitica([p], [t]), 1)
    want = 0
    for a, b in zip(p, t):
        want = (want + b) * Fraction(1 / Fraction(a)) if which == 1 \
            else want + b * Fraction(1 / Fraction(a))
    want = want * 1000 if ctx.symbolic else float(want) * 1000
    ctx.check(ctx.and_(res - want <= want * 1e-6, want - res <= want * 1e-6),
              "accurate for small probabilities", f"{res} instead of {want}")


def direct(sizes):
    def scenario(ctx):
        n = ctx.choose("phases", sizes)
        p, t = data(ctx, n)
        chain_equations(ctx, 2, p, t, am.calculate_second_case(list(zip(p, t))),
                        "sum of the mean stays", "")
    return scenario


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Scenario("first", first, path_s=300, query_ms=120000,
                 reach=["first scenario solves its equations"]),
        Scenario("second", second, reach=["second scenario solves its equations"]),
        Scenario("third", third([1, 2, 3, 5, 12] + ([20, 40] if deep else [])),
                 reach=["each chunk contributes its mean once"]),
        Scenario("points", points, reach=["a point depends on its own numbers"]),
        Scenario("small", small, reach=["accurate for small probabilities"]),
        Scenario("phases", direct([1, 2, 3, 6]), reach=["sum of the mean stays"]),
    ]
