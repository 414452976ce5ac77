"""K06: the result of a run reports what happened."""
from harness.kern import Functor, Long, run, total
from pysim.sim import ExitReason
from symx.runner import Scenario

BOUNDS = [
    "up to 3 (quick) / 4 (thorough) events of three different handlers with symbolic delays "
    "in [0, 8]; symbolic model-time, real-time and event limits or none; a stop request with a "
    "message from any handler or none; clock advanced symbolically in handlers",
    "a run of 1100 / 2500 ticks of any period, ended by itself, by a request or a limit",
    "context absent, a dictionary (also empty), an object, an object that is false; replaced "
    "by the initializer or a handler or not; finalizer absent or present with any return value",
]
OUTSIDE = ["several stop requests in one run", "results of a debugged run"]
ASSUME = ["if several stop conditions hold when the run ends any of them may be reported"]


class Falsy:
    def __bool__(self):
        return False


class Plain:
    pass


def program(n):
    def fn(ctx):
        clock = [50.0]
        ctx.rt.clock = lambda: clock[0]
        lim = ctx.choose("limit", ["none", "sim", "real", "num"])
        kw = {}
        if lim == "sim":
            kw["max_sim_time"] = ctx.real("max_sim", 0, 8)
        elif lim == "real":
            kw["max_real_time"] = ctx.real("max_real", 0, 2)
        elif lim == "num":
            kw["max_num_events"] = ctx.choose("max_num", list(range(n + 1)))
        stop_at = ctx.choose("stop at", [None] + list(range(1, n + 1)))
        msg = ctx.choose("message", ["why", ""]) if stop_at else ""
        total = ctx.choose("total", list(range(0, n + 1)))
        log = []
        fin = []

        def body(sim, h):
            log.append((h, sim.time))
            ctx.check(not fin, "finalizer runs after the last event")
            if lim == "real":
                clock[0] = clock[0] + ctx.real("work", 0, 2)
            if len(log) == stop_at:
                if msg:
                    sim.stop(msg)
                else:
                    sim.stop()

        def h1(sim):
            body(sim, h1)

        def h2(sim):
            body(sim, h2)
        h3 = Functor(lambda sim: body(sim, h3))

        def init(sim):
            for i in range(total):
                sim.schedule(ctx.real("d", 0, 8), (h1, h2, h3)[i % 3])

        def finalizer(sim):
            fin.append(sim.time)
            return "verdict"
        kw["fin"] = finalizer
        stats, _, ret = run(init, **kw)
        ctx.check(stats.num_events_processed == len(log), "number of events",
                  f"{stats.num_events_processed} reported, {len(log)} ran")
        ctx.check(stats.sim_time == (log[-1][1] if log else 0), "final time")
        ctx.check(stats.last_handler is (log[-1][0] if log else None), "last handler",
                  f"{stats.last_handler}")
        holds = []
        if stop_at is not None and len(log) >= stop_at:
            holds.append(ExitReason.STOPPED)
            ctx.check(stats.stop_message == msg, "stop message", f"{stats.stop_message!r}")
        else:
            ctx.check(stats.stop_message == "", "stop message", f"{stats.stop_message!r}")
        if lim == "sim" and log and log[-1][1] > kw["max_sim_time"]:
            holds.append(ExitReason.REACHED_SIM_TIME_LIMIT)
        if lim == "real" and clock[0] - 50.0 > kw["max_real_time"]:
            holds.append(ExitReason.REACHED_REAL_TIME_LIMIT)
        if lim == "num" and len(log) >= kw["max_num_events"]:
            holds.append(ExitReason.REACHED_NUM_EVENTS_LIMIT)
        if len(log) == total:
            holds.append(ExitReason.NO_MORE_EVENTS)
        ctx.check(stats.exit_reason in holds, "exit reason",
                  f"{stats.exit_reason}, true ones: {holds}")
        ctx.check(len(fin) == 1 and ret == "verdict", "finalizer once, value returned")
        ctx.eq(stats.time_elapsed, clock[0] - 50.0, "elapsed real time")
        ctx.observe(len(log), str(stats.exit_reason))
    return fn


def contexts(ctx):
    kind = ctx.choose("context", ["absent", "empty dict", "dict", "object", "falsy object"])
    given = {"absent": None, "empty dict": {}, "dict": {"a": 1}, "object": Plain(),
             "falsy object": Falsy()}[kind]
    swap = ctx.choose("replaced", ["never", "in the initializer", "in a handler"])
    new = ctx.choose("new", ["dict", "object", "falsy"]) if swap != "never" else None
    fresh = {"dict": {}, "object": Plain(), "falsy": Falsy(), None: None}[new]
    fin = ctx.choose("finalizer", ["absent", "value", "false value", "no value"])
    d = ctx.real("d", 0, 4)
    seen = []
    calls = []

    def handler(sim):
        seen.append(sim.context)
        if swap == "in a handler":
            sim.context = fresh

    def init(sim):
        seen.append(sim.context)
        if swap == "in the initializer":
            sim.context = fresh
        sim.schedule(d, handler)
        sim.schedule(d + 1, last)

    def last(sim):
        seen.append(sim.context)

    value = {"value": Plain(), "false value": 0, "no value": None, "absent": None}[fin]

    def finalizer(sim):
        calls.append((sim.context, sim.time))
        return value

    stats, out, ret = run(init, context=given, **({} if fin == "absent" else
                                                  {"fin": finalizer}))
    if given is None:
        ctx.check(type(seen[0]) is dict and seen[0] == {}, "fresh empty dictionary")
    else:
        ctx.check(seen[0] is given, "the given context is used")
    want = {"never": [seen[0]] * 3, "in the initializer": [seen[0], fresh, fresh],
            "in a handler": [seen[0], seen[0], fresh]}[swap]
    ctx.check(len(seen) == 3 and all(a is b for a, b in zip(seen, want)), "context seen")
    ctx.check(out is want[-1], "context returned")
    ctx.check(ret is value, "finalizer value returned")
    ctx.check(len(calls) == (0 if fin == "absent" else 1), "finalizer once")
    if calls:
        ctx.check(calls[0][0] is want[-1], "finalizer sees the context")
        ctx.eq(calls[0][1], d + 1, "finalizer runs after the last event")


def long_run(n):
    def fn(ctx):
        how = ctx.choose("ends", ["by itself", "stopped", "limit"])
        r = Long(ctx, n)
        fin = []
        r.kw = {"fin": lambda sim: fin.append(sim.time) or "verdict"}
        at = ctx.choose("at", [total(n) // 2, total(n) - 3])
        if how == "stopped":
            r.stop_at = at
        elif how == "limit":
            r.kw["max_num_events"] = at
        r.go()
        st = r.stats
        ctx.check(st.num_events_processed == len(r.ran), "number of events",
                  f"{st.num_events_processed} reported, {len(r.ran)} ran")
        ctx.check(st.sim_time == r.times[-1], "final time")
        ctx.check(st.last_handler == r.ran[-1], "last handler", f"{st.last_handler}")
        ctx.check(st.stop_message == ("far enough" if how == "stopped" else ""), "stop message")
        ctx.check(st.exit_reason is {"by itself": ExitReason.NO_MORE_EVENTS,
                                     "stopped": ExitReason.STOPPED,
                                     "limit": ExitReason.REACHED_NUM_EVENTS_LIMIT}[how],
                  "exit reason", f"{st.exit_reason}")
        ctx.check(len(fin) == 1 and r.value == "verdict", "finalizer once, value returned")
    return fn


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("programs", program(3 if q else 4),
                 reach=["number of events", "final time", "last handler", "exit reason",
                        "stop message", "finalizer once, value returned"]),
        Scenario("long run", long_run(1100 if q else 2500), path_s=300, max_steps=200000,
                 warm=0, reach=["number of events", "last handler", "exit reason"]),
        Scenario("contexts", contexts,
                 reach=["context returned", "finalizer value returned", "finalizer once"]),
    ]
