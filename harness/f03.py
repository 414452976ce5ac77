"""F03: what is reported belongs together."""
import contextlib
import io
import json
import os

import pysim.models.pingpong.processing as pp
import pysim.models.rfid.processing as rf
import pysim.models.tag_time.processing as tt
from harness.pp import near
from harness.f02 import PPN, RF
from harness.runs import quiet, replaced
from symx.runner import Scenario

BOUNDS = [
    "every varied parameter, 2 to 3 given values (thorough: 4) symbolic in any order and with "
    "any equalities, every result a symbolic real",
    "saved files: concrete values; plots: the data handed to the plotting library",
    "tag-time: 1 to 3 runs, total times symbolic, 1 to 1000 transmissions",
]
OUTSIDE = ["how tables and plots look", "directories missing on disk"]
ASSUME = ["tabulate and matplotlib show what they are given"]


class Axes:
    def __init__(self):
        self.lines = []

    def plot(self, x, y, *a, **k):
        self.lines.append((list(x), list(y), k.get("label")))

    def __getattr__(self, name):
        return lambda *a, **k: None


class Fig:
    def __init__(self):
        self.saved = []

    def savefig(self, name, *a, **k):
        self.saved.append(name)

    def __getattr__(self, name):
        return lambda *a, **k: None


class Out:
    """Records the tables and plots a module makes."""

    def __init__(self, ctx, mod):
        self.ctx, self.mod = ctx, mod
        self.tables, self.ax, self.fig = [], Axes(), Fig()

    def table(self, rows, headers=(), **k):
        self.tables.append(([list(r) for r in rows], list(headers)))
        return ""

    def run(self, fn, *a, **k):
        subs = []
        if hasattr(self.mod, "tabulate"):
            subs.append((self.mod, "tabulate", self.table))
        if hasattr(self.mod, "plt"):
            subs.append((self.mod.plt, "subplots", lambda *a, **k: (self.fig, self.ax)))
        with quiet(self.mod), replaced(*subs):
            fn(*a, **k)


def wipe():
    for root, dirs, files in os.walk(".", topdown=False):
        for f in files:
            os.unlink(os.path.join(root, f))
    for d in ("results/text", "results/plots"):
        os.makedirs(d, exist_ok=True)


def given(ctx, names, top, concrete):
    """Values of the varied parameter, and the distinct ones in increasing order."""
    name = ctx.choose("varied", names)
    if concrete:
        vals = ctx.choose("values", [(3.0, 1.0), (2.0, 10.0, 2.0), (5.0, 5.0)])
    else:
        k = ctx.choose("count", list(range(2, top + 1)))
        vals = tuple(ctx.real(name, 0, 1000) for _ in range(k))
    order = []
    for v in vals:                      # insertion sort, forking on the comparisons
        i = 0
        while i < len(order) and order[i] < v:
            i += 1
        if i < len(order) and order[i] == v:
            continue
        order.insert(i, v)
    return name, vals, order


def rfid(top, save=False):
    def scenario(ctx):
        if ctx.symbolic:
            ctx.ex.hash_mode = "constant"
        wipe()
        name, vals, order = given(ctx, RF, top, save)
        data = {n: ctx.real(n, 0, 100) if not save else 7.5 for n in RF}
        data.update(encoding="2", tari="12.5", num_tags=10, useadjust=False, delta=0.5)
        data[name] = vals
        keys = ("rounds_per_tag", "inventory_prob", "read_tid_prob")
        num = (lambda k: ctx.real(k, 0, 1)) if not save else (lambda k: 0.25 + len(k) / 100)
        res = [({k: num(k) + (0.001 * i if save else 0) for k in keys}, 1.0 + i)
               for i in range(len(order))]
        out = Out(ctx, rf)
        out.run(rf.result_processing, data, [(dict(r), t) for r, t in res], name, save)
        tables = [t for t in out.tables if t[1]]
        ctx.check(len(tables) == 1, "one table of results", f"{len(tables)}")
        rows, heads = tables[0]
        ctx.check(sorted(map(str, heads)) == sorted([name, *keys]), "columns", f"{heads}")
        ctx.check(len(rows) == len(order), "one row per value", f"{len(rows)}")
        for i, row in enumerate(rows):
            got = dict(zip(heads, row))
            ctx.check(near(ctx, got[name], order[i]), "row of its value",
                      f"row {i}: {got[name]}")
            for k in keys:
                ctx.check(near(ctx, got[k], res[i][0][k]), "result of its simulation",
                          f"row {i} {k}")
        static = dict(r for t in out.tables if not t[1] for r in t[0])
        for k, v in static.items():
            ctx.check(k != name, "the varied parameter is not listed as fixed")
            if k in data and not isinstance(v, str):
                ctx.check(near(ctx, v, data[k]), "fixed parameters", f"{k}: {v}")
        ctx.check(len(out.ax.lines) == 1, "one line is plotted", f"{len(out.ax.lines)}")
        x, y, _ = out.ax.lines[0]
        ctx.check(len(x) == len(y) == len(order), "one point per value", f"{len(x)}")
        for i in range(len(order)):
            ctx.check(ctx.and_(near(ctx, x[i], order[i]),
                               near(ctx, y[i], res[i][0]["read_tid_prob"])),
                      "points of the plot", f"point {i}")
        if save:
            text = saved()
            for k in keys:
                want = json.dumps([r[k] for r, _ in res])
                ctx.check(f'"{k}": {want}' in text, "saved results", text)
            ctx.check(f'"{name}": {json.dumps(order)}' in text, "saved values", text)
        ctx.observe(len(order))
    return scenario


def saved():
    out = ""
    for root, _, files in os.walk("results"):
        for f in files:
            with open(os.path.join(root, f)) as fh:
                out += fh.read()
    return out


class Res:
    def __init__(self, a, b, c):
        self.avg_interval, self.avg_delay, self.miss_rate = a, b, c


def pingpong(top, save=False):
    def scenario(ctx):
        if ctx.symbolic:
            ctx.ex.hash_mode = "constant"
        wipe()
        name, vals, order = given(ctx, PPN, top, save)
        data = {n: ctx.real(n, 0, 100) if not save else 7.5 for n in PPN}
        data[name] = vals
        res = []
        for i in range(len(order)):
            res.append(Res(*(ctx.real("result", 0, 100) if not save else 0.5 * i + j
                             for j in range(3))))
        out = Out(ctx, pp)
        out.run(pp.result_processing, data, list(res), name, save)
        shown = {}
        for rows, _ in out.tables:
            for r in rows:
                shown[r[0]] = r[1]
        xs = list(shown[name])
        ctx.check(len(xs) == len(order), "one value per simulation", f"{len(xs)}")
        for a, b in zip(xs, order):
            ctx.check(near(ctx, a, b), "values in the order of the results", f"{xs}")
        for k in ("avg_interval", "avg_delay", "miss_rate"):
            ctx.check(len(shown[k]) == len(order), "one result per simulation", k)
            for i, v in enumerate(shown[k]):
                ctx.check(near(ctx, v, getattr(res[i], k)), "result of its simulation",
                          f"{k} {i}")
        for k in PPN:
            if k != name:
                ctx.check(near(ctx, shown[k], data[k]), "fixed parameters", k)
        if save:
            text = saved()
            for k in ("avg_interval", "avg_delay", "miss_rate"):
                want = json.dumps([getattr(r, k) for r in res])
                ctx.check(f'"{k}": {want}' in text, "saved results", text)
            ctx.check(f'"{name}": {json.dumps(order)}' in text, "saved values", text)
        ctx.observe(len(order))
    return scenario


class Stat:
    def __init__(self, t):
        self.sim_time = t


def tagsaved(ctx):
    """A saved report holds the inputs and each run's own average."""
    wipe()
    m = ctx.choose("runs", [2, 3])
    n = ctx.choose("transmissions", [1, 8, 1000])
    ts = ctx.choose("times", [(8.0, 4.0, 2.0), (0.5, 0.5, 100.0)])[:m]
    kw = {"probability": tuple((0.5, 0.25, 0.75, 0.1 * i) for i in range(m)),
          "processing_time": tuple((1, 2, 3, i) for i in range(m)), "max_transmisions": n,
          "chunks_number": 3, "scenario": ctx.choose("scenario", [1, 3])}
    save = ctx.choose("save", [True, False, None])
    out = Out(ctx, tt)
    with contextlib.redirect_stdout(io.StringIO()):
        out.run(tt.result_processing, dict(kw), [Stat(t) for t in ts],
                *(() if save is None else (save,)))
    text = saved()
    if save is False:
        ctx.check(text == "", "nothing is saved unless asked for", text)
        return
    ctx.check(json.dumps([t / n for t in ts]) in text, "saved averages", text)
    for k, v in kw.items():
        ctx.check(f'"{k}": {json.dumps(v)}' in text, "saved inputs", f"{k} in {text}")


def tagtime(ctx):
    wipe()
    m = ctx.choose("runs", [1, 2, 3])
    n = ctx.choose("transmissions", [1, 7, 1000])
    ts = [ctx.real("time", 0, 10000) for _ in range(m)]
    seen = []
    probs = tuple((0.1 * (i + 1), 0.2, 0.3, 0.4) for i in range(m))
    kw = {"probability": probs if m > 1 else ctx.choose("vector", [probs, probs[0]]),
          "processing_time": ((1, 2, 3, 4),) * m, "max_transmisions": n, "chunks_number": 1,
          "scenario": 1}
    out = Out(ctx, tt)
    shown = []
    tt.print = lambda *a, **k: shown.append(a)
    plot = ctx.choose("plot", [False, True]) if m > 1 else False
    try:
        out.run(tt.result_processing, kw, [Stat(t) for t in ts] if m > 1 else Stat(ts[0]),
                False, plot)
    finally:
        del tt.print
    flat = [x for a in shown for x in a if not isinstance(x, str)]
    if m > 1:
        vals = flat[-1]
        ctx.check(len(vals) == m, "one average per run", f"{vals}")
        for v, t in zip(vals, ts):
            ctx.eq(v * n, t, "average time of a transmission")
        if plot:
            x, y, _ = out.ax.lines[0]
            ctx.check(len(x) == len(y) == m, "one point per run")
            for v, t in zip(y, ts):
                ctx.eq(v * n, t, "plotted average")
    else:
        ctx.eq(flat[0], ts[0], "total time")
        ctx.eq(flat[1] * n, ts[0], "average time of a transmission")


def scenarios(tier):
    top = 4 if tier == "thorough" else 3
    return [
        Scenario("RFID", rfid(top), reach=["row of its value", "result of its simulation",
                                           "points of the plot"]),
        Scenario("RFID saved", rfid(0, True), reach=["saved results", "saved values"]),
        Scenario("Ping-Pong", pingpong(top), reach=["values in the order of the results",
                                                    "result of its simulation"]),
        Scenario("Ping-Pong saved", pingpong(0, True), reach=["saved results", "saved values"]),
        Scenario("tag-time saved", tagsaved, reach=["saved averages", "saved inputs",
                                                    "nothing is saved unless asked for"]),
        Scenario("tag-time", tagtime, reach=["average time of a transmission"]),
    ]
