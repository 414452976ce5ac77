"""K07: simulations of one process do not influence each other."""
from pysim.sim import build_simulation, run_simulation
from symx.runner import Scenario

BOUNDS = [
    "two simulations with the same or different model names, each of 2 (quick) / 3 (thorough) "
    "initial events with symbolic delays in [0, 4] plus one scheduled and one cancelled by a "
    "handler, optional stop request or limit; run one after the other in either order, both "
    "built first, or one run from inside a handler or the initializer of the other",
    "default contexts of up to three simulations",
]
OUTSIDE = ["simulations on different threads", "sharing of the model's logger"]
ASSUME = ["'as if run alone' is the trace of the same program run alone in the same process "
          "before or after, and checked against the independent order of due times"]


def program(ctx, tag, n):
    """A simulation program as data: everything chosen up front."""
    p = {"tag": tag, "d": [ctx.real(f"d{tag}", 0, 4) for _ in range(n)],
         "child": ctx.real(f"c{tag}", 0, 4),
         "end": ctx.choose(f"end{tag}", ["empty", "stop", "limit"])}
    p["cancel"] = n - 1
    return p


def make(p, log, hook=None, name="model"):
    n = len(p["d"])

    def handler(sim, i):
        log.append(("ran", i, sim.time))
        sim.context[i] = sim.time
        if i == 0:
            ids = sim.context["ids"]
            log.append(("cancelled", sim.cancel(ids[p["cancel"]])))
            sim.schedule(p["child"], handler, (n,))
            if hook:
                hook()
        if i == 1 and p["end"] == "stop":
            sim.stop(p["tag"])

    def init(sim):
        log.append(("context", dict(sim.context)))
        sim.context["ids"] = [sim.schedule(d, handler, (i,)) for i, d in enumerate(p["d"])]

    def fin(sim):
        return sorted(k for k in sim.context if k != "ids")
    kw = {"max_sim_time": 1.5} if p["end"] == "limit" else {}
    return build_simulation(name, init, fin=fin, **kw)


def finish(sim, log):
    stats, context, ret = run_simulation(sim)
    log.append(("stats", stats.num_events_processed, stats.sim_time, stats.exit_reason.name,
                stats.stop_message, ret))
    return context


def same(ctx, a, b, what):
    ctx.check(len(a) == len(b), what, f"{a} against {b}")
    for x, y in zip(a, b):
        ctx.eq(x[0], y[0], what)
        ctx.check(len(x) == len(y), what)
        for u, v in zip(x[1:], y[1:]):
            ctx.eq(u, v, what, f"{x} against {y}")


def pair(n):
    def fn(ctx):
        a = program(ctx, "a", n)
        b = program(ctx, "b", n)
        names = ctx.choose("names", [("model", "model"), ("one", "two")])
        mode = ctx.choose("mode", ["sequence", "both built first", "built first, swapped",
                                   "inside a handler", "built before, run inside"])
        la, lb, sa, sb = [], [], [], []
        alone_first = ctx.choose("alone", ["before", "after"])

        def alone():
            finish(make(a, sa, name=names[0]), sa)
            finish(make(b, sb, name=names[1]), sb)
        if alone_first == "before":
            alone()
        if mode == "sequence":
            ca = finish(make(a, la, name=names[0]), la)
            cb = finish(make(b, lb, name=names[1]), lb)
        elif mode == "both built first":
            x, y = make(a, la, name=names[0]), make(b, lb, name=names[1])
            ca, cb = finish(x, la), finish(y, lb)
        elif mode == "built first, swapped":
            x, y = make(a, la, name=names[0]), make(b, lb, name=names[1])
            cb, ca = finish(y, lb), finish(x, la)
        else:
            box = []
            if mode == "inside a handler":
                def hook():
                    box.append(finish(make(b, lb, name=names[1]), lb))
            else:
                y = make(b, lb, name=names[1])

                def hook():
                    box.append(finish(y, lb))
            ca = finish(make(a, la, hook, name=names[0]), la)
            if not box:                # the first handler did not run
                hook()
            cb = box[0]
        if alone_first == "after":
            alone()
        same(ctx, la, sa, "first simulation as alone")
        same(ctx, lb, sb, "second simulation as alone")
        ctx.check(ca is not cb, "own contexts")
        for log, p in ((la, a), (lb, b)):
            ran = [e for e in log if e[0] == "ran"]
            for x, y in zip(ran, ran[1:]):
                ctx.check(x[2] <= y[2], "own clock")
            ctx.check(log[0] == ("context", {}), "fresh empty dictionary", f"{log[0]}")
            for e in ran:
                if e[1] < len(p["d"]):
                    ctx.eq(e[2], p["d"][e[1]], "own due times")
        ctx.observe([e[1] for e in la if e[0] == "ran"], [e[1] for e in lb if e[0] == "ran"])
    return fn


def contexts(ctx):
    seen = []

    def init(sim):
        seen.append((sim.context, dict(sim.context)))
        sim.context["mark"] = len(seen)
    outs = []
    for _ in range(ctx.choose("n", [2, 3])):
        outs.append(run_simulation(build_simulation("model", init))[1])
    for c, first in seen:
        ctx.check(type(c) is dict and first == {}, "fresh empty dictionary", f"{first}")
    for i in range(len(seen)):
        for j in range(i):
            ctx.check(seen[i][0] is not seen[j][0] and outs[i] is not outs[j], "own contexts")
        ctx.check(outs[i] == {"mark": i + 1}, "own contexts")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("pairs", pair(2 if q else 3),
                 reach=["first simulation as alone", "second simulation as alone",
                        "own contexts", "fresh empty dictionary"]),
        Scenario("contexts", contexts, reach=["fresh empty dictionary", "own contexts"]),
    ]
