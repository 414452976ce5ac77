"""G02: Monte-Carlo transition tables and trials."""
from pysim.models.tag_time import mc
from harness.pp import near
from symx.runner import Scenario

BOUNDS = [
    "tables: 1 to 8 probabilities each symbolic in [0, 1], all scenarios, exact arithmetic for "
    "the increments, IEEE double arithmetic for the end of each row",
    "trials: 2 to 5 transient states (scenarios 1 and 2: 4), all probabilities, stay times in "
    "[0, 10] and draws symbolic, 1 to 2 trials, up to 3 failures (quick: 2) in a run, further "
    "draws succeed; several points at once",
    "1100 (thorough: 4000) trials with no failures, every 5th or every 700th attempt failing",
]
OUTSIDE = ["more states, failures or trials than stated"]
ASSUME = ["numpy.random.random gives values of [0, 1)", "numpy.cumsum adds left to right"]


def rows(scenario, n):
    """scenario's transition probabilities as {(from, to): 'p' or 'q'}"""
    out = {}
    for i in range(n):
        out[i, i + 1] = "p"
        out[i, 0 if scenario == 1 else i] = "q"
    return out


def tables(top):
    def scenario(ctx):
        which = ctx.choose("scenario", [1, 2, 3])
        n = ctx.choose("states", list(range(1, top + 1)))
        p = [ctx.real("p", 0, 1) for _ in range(n)]
        m, = mc.create_input_probs(which, [p])
        ctx.check(len(m) == n + 1, "one row per state", f"{len(m)}")
        want = rows(which, n)
        for i in range(n + 1):
            row = list(m[i])
            ctx.check(len(row) == n + 1, "one column per state", f"{len(row)}")
            acc = 0
            for j in range(n + 1):
                kind = want.get((i, j))
                step = 0 if kind is None else p[i] if kind == "p" else 1 - p[i]
                if i == n:
                    step = 1 if j == n else 0
                ctx.check(near(ctx, row[j] - acc, step), "exactly the scenario's transitions",
                          f"row {i} column {j}")
                ctx.check(row[j] >= acc - (0 if ctx.symbolic else 1e-12),
                          "rows do not decrease", f"row {i} column {j}")
                acc = row[j]
            ctx.check(near(ctx, acc, 1), "rows end at 1", f"row {i}")
    return scenario


def doubles(top):
    def scenario(ctx):
        which = ctx.choose("scenario", [1, 2, 3])
        n = ctx.choose("states", list(range(1, top + 1)))
        p = [ctx.fp("p") for _ in range(n)]
        for x in p:
            ctx.assume(ctx.and_(x >= 0.0, x <= 1.0))
        m, = mc.create_input_probs(which, [p])
        for i in range(n + 1):
            ctx.check(m[i][n] == 1.0, "rows end at exactly 1 in doubles", f"row {i}")
            for j in range(n):
                ctx.check(m[i][j] <= m[i][j + 1], "rows do not decrease in doubles",
                          f"row {i} column {j}")
                ctx.check(m[i][j] >= 0.0, "no negative entries")
    return scenario


class Walk:
    def __init__(self, ctx, scenario, probs, times, failures):
        self.ctx, self.scenario, self.p, self.t = ctx, scenario, probs, times
        self.failures = failures
        self.trials = []                 # completed times
        self.at, self.total = 0, 0
        self.point = 0

    def draw(self):
        ctx = self.ctx
        p, t = self.p[self.point], self.t[self.point]
        u = ctx.real("draw", 0, 1, hi_open=True)
        self.total = self.total + t[self.at]
        # the last successor takes the rest of the row: failure is the lower part
        fail = u < 1 - p[self.at]
        if self.failures == 0:
            ctx.assume(ctx.not_(fail))
            bad = False
        else:
            bad = bool(fail)
        if bad:
            self.failures -= 1
            if self.scenario == 1:
                self.at = 0
        else:
            self.at += 1
            if self.at == len(p):
                self.trials.append(self.total)
                self.at, self.total = 0, 0
                if len(self.trials) == self.per * (self.point + 1):
                    self.point = min(self.point + 1, len(self.p) - 1)
        return u


def trials(which, sizes, counts, points, failures):
    def scenario(ctx):
        n = ctx.choose("states", sizes)
        k = ctx.choose("trials", counts)
        m = ctx.choose("points", points)
        p = [[ctx.real("p", 0, 1) for _ in range(n)] for _ in range(m)]
        t = [[ctx.real("t", 0, 10) for _ in range(n)] for _ in range(m)]
        w = Walk(ctx, which, p, t, failures)
        w.per = k
        ctx.rt.on_unit = w.draw
        res = mc.run_multiple_models(which, p, t, k)
        ctx.check(len(res) == m, "one result per point", f"{len(res)}")
        ctx.check(len(w.trials) == k * m, "each trial runs to absorption", f"{len(w.trials)}")
        ctx.check(ctx.and_(w.at == 0, near(ctx, w.total, 0)), "no draw after absorption")
        for i in range(m):
            mean = sum(w.trials[i * k:(i + 1) * k]) / k
            ctx.check(near(ctx, res[i], mean * 1000), "mean time in milliseconds",
                      f"point {i}: {res[i]}")
        ctx.observe(*res)
    return scenario


def many(count):
    """Very many trials; which attempts fail follows a pattern."""
    def scenario(ctx):
        which = ctx.choose("scenario", [1, 2, 3])
        n = ctx.choose("states", [4, 6]) if which == 3 else 4
        bad = ctx.choose("fails", [0, 5, 700])
        p = [ctx.real("p", 0.25, 0.75) for _ in range(n)]
        t = [ctx.real("t", 0, 10) for _ in range(n)]
        visits, st = [0] * n, {"at": 0, "done": 0, "draws": 0}

        def draw():
            st["draws"] += 1
            visits[st["at"]] += 1
            if bad and st["draws"] % bad == 0:
                if which == 1:
                    st["at"] = 0
                return 0.125
            st["at"] += 1
            if st["at"] == n:
                st["at"], st["done"] = 0, st["done"] + 1
            return 0.875
        ctx.rt.on_unit = draw
        res, = mc.run_multiple_models(which, [p], [t], count)
        ctx.check(st["done"] == count and st["at"] == 0, "each trial runs to absorption",
                  f"{st['done']}")
        ctx.check(near(ctx, res * count, 1000 * sum(a * b for a, b in zip(visits, t))),
                  "mean time in milliseconds", f"{res}")
    return scenario


def scenarios(tier):
    deep = tier == "thorough"
    f = 3 if deep else 2
    r = ["mean time in milliseconds"]
    return [
        Scenario("tables", tables(12 if deep else 8), reach=[
            "exactly the scenario's transitions", "rows end at 1"]),
        Scenario("tables in doubles", doubles(6 if deep else 4), path_s=300, query_ms=60000, reach=[
            "rows end at exactly 1 in doubles"]),
        Scenario("many trials", many(4000 if deep else 1100), reach=r, warm=0, path_s=300,
                 max_steps=200000),
        Scenario("trials 1", trials(1, [4], [1, 2], [1, 2] if deep else [1], f), reach=r),
        Scenario("trials 2", trials(2, [4], [1, 2], [1, 2], f), reach=r),
        Scenario("trials 3", trials(3, [4, 5] if not deep else [4, 5, 7], [1, 2],
                                    [1, 2] if deep else [1], f), reach=r),
    ]
