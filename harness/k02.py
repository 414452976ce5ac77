"""K02: the clock equals due times, never runs back; bad requests leave no trace."""
from harness.kern import Long, run
from pysim.sim import SchedulingInPastError, run_simulation
from pysim.sim.simulator import Kernel
from symx.runner import Scenario

BOUNDS = [
    "programs of up to 4 (quick) / 5 (thorough) events, each running handler schedules up to "
    "two more, delays symbolic reals in [0, 8]",
    "float lemma: chains and pairs of 3 events with delays that are arbitrary IEEE doubles in "
    "[0, 1e9], decided in the floating-point theory",
    "requests: delay symbolic in [-4, 4], handler valid/None/not callable, arguments valid/"
    "not iterable, made by the initializer or a handler, through schedule or call, with 0..2 "
    "other events pending",
    "a run of 1100 / 2500 ticks of any period with events in between",
]
OUTSIDE = ["not-a-number or infinite delays", "a delay of None (the code ignores the request)"]
ASSUME = ["where several faults are present in one request any of the matching errors is "
          "accepted"]


def program(n):
    def fn(ctx):
        left = [n]
        last = [0.0]
        ran = []

        def spawn(sim, k):
            for _ in range(k):
                left[0] -= 1
                d = ctx.real("d", 0, 8)
                sim.schedule(d, handler, (sim.time + d,))

        def handler(sim, due):
            ctx.eq(sim.time, due, "clock equals due time")
            ctx.check(sim.time >= last[0], "clock never runs back")
            last[0] = sim.time
            ran.append(1)
            spawn(sim, ctx.choose("spawn", list(range(min(2, left[0]) + 1))))
            if ctx.choose("call", [False, True]) and left[0]:
                left[0] -= 1
                sim.call(handler, (sim.time,))

        def init(sim):
            ctx.check(sim.time == 0, "starts at zero")
            spawn(sim, ctx.choose("first", list(range(1, n + 1))))

        stats, _, _ = run(init)
        ctx.eq(stats.sim_time, last[0], "final time")
        ctx.check(len(ran) == n - left[0], "all ran")
        ctx.observe(last[0])
    return fn


def floats(ctx):
    """Rounding of time + delay does not reorder causes and effects."""
    last = [0.0]
    plan = ctx.choose("plan", ["chain", "pair"])

    def handler(sim, due, rest):
        ctx.check(sim.time == due, "clock equals due time")
        ctx.check(sim.time >= last[0], "clock never runs back")
        last[0] = sim.time
        if rest:
            d = ctx.fp("d", 0.0, 1e9)
            sim.schedule(d, handler, (sim.time + d, rest - 1))

    def init(sim):
        for _ in range(1 if plan == "chain" else 2):
            d = ctx.fp("d", 0.0, 1e9)
            sim.schedule(d, handler, (sim.time + d, 2 if plan == "chain" else 0))
    run(init)


def requests(ctx):
    kernel = Kernel("model")
    d = ctx.real("d", -4, 4)
    where = ctx.choose("where", ["initializer", "handler"])
    via = ctx.choose("via", ["schedule", "call"])
    bad_handler = ctx.choose("handler", ["valid", "none", "not callable"])
    bad_args = ctx.choose("args", ["valid", "not iterable"])
    others = ctx.choose("others", [0, 1, 2])
    ran = []
    state = {}

    def target(sim, *a):
        ran.append(("target", sim.time, a))

    def other(sim, i):
        ran.append(("other", sim.time, i))

    def request(sim):
        h = {"valid": target, "none": None, "not callable": 17}[bad_handler]
        a = (1, 2) if bad_args == "valid" else 5
        errs = set()
        if bad_handler == "none":
            errs.add(ValueError)
        if bad_handler == "not callable" or bad_args != "valid":
            errs.add(TypeError)
        negative = via == "schedule" and (d < 0)
        if negative:
            errs.add(SchedulingInPastError)
        before = list(kernel.future_events())
        try:
            if via == "schedule":
                eid = sim.schedule(d, h, a)
            else:
                eid = sim.call(h, a)
            got = None
        except (ValueError, TypeError) as e:
            got = e
        after = list(kernel.future_events())
        if errs:
            ctx.check(got is not None and any(isinstance(got, e) for e in errs)
                      and (SchedulingInPastError in errs
                           or not isinstance(got, SchedulingInPastError)),
                      "documented error", f"{got!r} for {sorted(e.__name__ for e in errs)}")
            ctx.check(len(after) == len(before), "no trace of a rejected request")
            state["accepted"] = False
        else:
            ctx.check(got is None, "valid request accepted", f"{got!r}")
            ctx.check(len(after) == len(before) + 1, "request in the queue")
            state["accepted"] = True
            state["due"] = sim.time + (d if via == "schedule" else 0)

    def trigger(sim):
        request(sim)

    def init(sim):
        for i in range(others):
            sim.schedule(1.0 + 2 * i, other, (i,))
        if where == "initializer":
            request(sim)
        else:
            sim.schedule(2.0, trigger)

    kernel.set_initializer(init)
    stats, _, _ = run_simulation(kernel.build_runner())
    hits = [r for r in ran if r[0] == "target"]
    ctx.check(len(hits) == (1 if state["accepted"] else 0), "runs iff accepted")
    for h in hits:
        ctx.eq(h[1], state["due"], "clock equals due time")
        ctx.check(h[2] == (1, 2), "arguments")
    ctx.check([r[2] for r in ran if r[0] == "other"] == list(range(others)),
              "other events unaffected")
    ctx.check(stats.num_events_processed == len(ran) + (where == "handler"), "event count")
    for a, b in zip(ran, ran[1:]):
        ctx.check(a[1] <= b[1], "clock never runs back")


def long_run(n):
    """The clock of a run of very many events does not drift from their due times."""
    def fn(ctx):
        r = Long(ctx, n).go()
        ctx.check(len(r.ticks) == n, "all ticks ran", f"{len(r.ticks)}")
        for j, (i, t) in enumerate(r.ticks):
            if j % 61 == 0 or j > n - 3:
                ctx.eq(t, r.d * i, "clock equals due time", f"tick {i}")
        for i, t in r.halves[::37] + r.halves[-1:]:
            ctx.eq(t, r.d * i + r.d / 2, "clock equals due time", f"after tick {i}")
        ctx.eq(r.stats.sim_time, r.times[-1], "final time")
    return fn


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("programs", program(3 if q else 4),
                 reach=["clock equals due time", "clock never runs back", "final time"]),
        Scenario("floats", floats, path_s=200, query_ms=100000,
                 reach=["clock never runs back", "clock equals due time"]),
        Scenario("long run", long_run(1100 if q else 2500), path_s=300, max_steps=200000, warm=0,
                 reach=["clock equals due time", "final time"]),
        Scenario("requests", requests,
                 reach=["documented error", "no trace of a rejected request",
                        "valid request accepted", "runs iff accepted"]),
    ]
