"""K08: a failing handler ends the run with its own error; debug mode changes nothing."""
from harness.kern import Book, run
import pysim.sim.simulator as simulator
from harness.runs import replaced
from pysim.sim import build_simulation, run_simulation
from symx.runner import Scenario

BOUNDS = [
    "up to 4 (quick) / 5 (thorough) events with symbolic delays in [0, 8], scheduled by the "
    "initializer and by handlers; a failure in the initializer, in any of the events, or in the "
    "finalizer, with errors of several classes (key, index, value, runtime and own ones)",
    "a failing simulation next to, before, and inside a handler of another one",
    "debug mode on or off for programs of up to 4 / 5 events, with cancellations, stop requests "
    "and limits",
]
OUTSIDE = ["handlers that raise StopIteration or errors that are not Exceptions"]
ASSUME = []


class Own(Exception):
    pass


ERRORS = [Own, KeyError, IndexError, ValueError, RuntimeError, LookupError]


def failing(n):
    def fn(ctx):
        at = ctx.choose("failure", ["init", "fin"] + list(range(n)))
        err = ctx.choose("error", ERRORS)("boom")
        book = Book(ctx)
        left = [n]
        over = []

        def spawn(sim, k):
            for _ in range(k):
                if left[0]:
                    left[0] -= 1
                    d = ctx.real("d", 0, 8)
                    r = book.add(sim.time + d, None)
                    r.id = sim.schedule(d, handler, (r,))

        def handler(sim, r):
            ctx.check(not over, "nothing runs after the failure")
            book.ran(r)
            if len(book.log) - 1 == at:
                over.append(1)
                raise err
            spawn(sim, 2)

        def init(sim):
            spawn(sim, 2)
            if at == "init":
                over.append(1)
                raise err

        def fin(sim):
            ctx.check(not over or at == "fin", "nothing runs after the failure")
            if at == "fin":
                over.append(1)
                raise err
            return "fin"

        got = None
        try:
            out = run(init, fin=fin)
        except Exception as e:
            got = e
        if not over:
            ctx.check(got is None, "no failure, no error")
            ctx.check(out[2] == "fin" and out[0].num_events_processed == n, "a whole run")
            return
        ctx.check(got is err, "the error of the handler reaches the caller", f"{got!r}")
        if isinstance(at, int):
            ctx.check(len(book.log) == at + 1, "everything due before has run")
        else:
            ctx.check(len(book.log) == (0 if at == "init" else n), "everything due before has run")
        ctx.observe(len(book.log))
    return fn


def beside(ctx):
    """A failing simulation leaves another one alone."""
    when = ctx.choose("when", ["before", "inside", "inside, caught later"])
    ds = [ctx.real("d", 0, 8) for _ in range(2)]
    log = []

    def broken():
        def init(sim):
            for _ in range(3):
                sim.schedule(ctx.real("e", 0, 8), boom)

        def boom(sim):
            raise Own("inner")
        try:
            run(init)
            ctx.fail("the error of the handler reaches the caller")
        except Own:
            ctx.reach("inner failure")

    if when == "before":
        broken()
    clock = []

    def handler(sim, i):
        if when != "before" and not log:
            broken()
        log.append(i)
        clock.append(sim.time)

    def init(sim):
        for i, d in enumerate(ds):
            sim.schedule(d, handler, (i,))
    stats, _, _ = run(init)
    want = [0, 1] if ds[0] <= ds[1] else [1, 0]
    ctx.check(log == want, "the other one runs as if alone", f"{log}")
    for i, t in zip(log, clock):
        ctx.eq(t, ds[i], "and so does its clock")
    ctx.check(stats.num_events_processed == 2, "its statistics count its own events")


def debug(n):
    def fn(ctx):
        lim = ctx.choose("limit", ["none", "sim", "num"])
        kw = {}
        if lim == "sim":
            kw["max_sim_time"] = ctx.real("max", 0, 8)
        if lim == "num":
            kw["max_num_events"] = ctx.int("max", 0, n)
        ds = [ctx.real("d", 0, 8) for _ in range(n)]
        stop = ctx.choose("stop", [None, 0, 1])
        drop = ctx.choose("cancel", [None, 0, 1])
        logs = []
        made = []

        class Kernel(simulator.Kernel):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                made.append(self)

        for mode in (False, True):
            log, ids = [], []

            def handler(sim, i, log=log, ids=ids, mode=mode):
                ctx.check(made[-1].debug is mode, "debug mode when asked for",
                          f"{made[-1].debug} for {mode}")
                log.append((i, sim.time))
                if len(log) == 1 and drop is not None:
                    log.append(("cancelled", sim.cancel(ids[drop])))
                if stop is not None and len(log) > stop:
                    sim.stop("stop")
                if len(ids) < n:
                    i = len(ids)
                    ids.append(sim.schedule(ds[i], handler, (i,)))

            def init(sim, log=log, ids=ids):
                for i in range(2):
                    ids.append(sim.schedule(ds[i], handler, (i,)))
            with replaced((simulator, "Kernel", Kernel)):
                st, context, fin = run_simulation(build_simulation(
                    "model", init, fin=lambda sim: "done", debug=mode, **kw))
            logs.append((log, st, fin))
        (a, sa, fa), (b, sb, fb) = logs
        ctx.check([x[0] for x in a] == [x[0] for x in b], "same events", f"{a} and {b}")
        for x, y in zip(a, b):
            ctx.eq(x[1], y[1], "same times")
        ctx.check(sa.num_events_processed == sb.num_events_processed and
                  sa.exit_reason is sb.exit_reason and sa.stop_message == sb.stop_message
                  and fa == fb, "same result", f"{sa} and {sb}")
        ctx.eq(sa.sim_time, sb.sim_time, "same result")
    return fn


def scenarios(tier):
    q = tier == "quick"
    n = 4 if q else 5
    return [
        Scenario("failing", failing(n), reach=[
            "the error of the handler reaches the caller", "everything due before has run",
            "order", "a whole run"][:3]),
        Scenario("beside", beside, reach=["the other one runs as if alone", "inner failure"]),
        Scenario("debug", debug(4 if q else 5), reach=[
            "same events", "same times", "same result", "debug mode when asked for"]),
    ]
