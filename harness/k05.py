"""K05: a run stops exactly when the first stop condition is met."""
from harness.kern import Long, run, total
from symx.runner import Scenario

BOUNDS = [
    "up to 4 (quick) / 5 (thorough) events with symbolic delays in [0, 8], scheduled by the "
    "initializer and by handlers; every subset of the three limits; model-time limit symbolic "
    "in [0, 10], real-time limit symbolic in [0, 4] with the clock advanced by a symbolic "
    "amount in [0, 2] in every handler, event limit symbolic in [0, 6] (zero: no event runs); a stop request from "
    "any handler (or none), with further events scheduled after it",
    "a run of 1100 / 2500 ticks of any period, ended after a third or close to its end by an event "
    "limit, a stop request, a real-time limit or a model-time limit, or not at all",
]
OUTSIDE = ["the limit values None through set_* calls", "real time spent in the initializer"]
ASSUME = ["the wall clock is the harness's: it advances only inside handlers"]


def program(n, limits):
    def fn(ctx):
        clock = [100.0]
        ctx.rt.clock = lambda: clock[0]
        kw = {}
        if "sim" in limits:
            kw["max_sim_time"] = ctx.real("max_sim", 0, 10)
        if "real" in limits:
            kw["max_real_time"] = ctx.real("max_real", 0, 4)
        if "num" in limits:
            kw["max_num_events"] = ctx.int("max_num", 0, n + 1)
        stop_at = ctx.choose("stop at", [None] + list(range(1, n + 1))) \
            if "stop" in limits else None
        left = [n]
        st = {"count": 0, "over": False}

        def spawn(sim, k):
            for _ in range(k):
                if left[0]:
                    left[0] -= 1
                    sim.schedule(ctx.real("d", 0, 8), handler)

        def handler(sim):
            ctx.check(not st["over"], "no event after the end",
                      f"event {st['count'] + 1} ran although a stop condition held")
            st["count"] += 1
            if "real" in limits:
                clock[0] = clock[0] + ctx.real("work", 0, 2)
            if st["count"] == stop_at:
                sim.stop("enough")
                st["stopped"] = True
            spawn(sim, 1 if n - left[0] < 3 else 2)
            over = st.get("stopped", False)
            if "sim" in limits:
                over = over or sim.time > kw["max_sim_time"]
            if "real" in limits:
                over = over or clock[0] - 100.0 > kw["max_real_time"]
            if "num" in limits:
                over = over or st["count"] >= kw["max_num_events"]
            st["over"] = bool(over)

        def init(sim):
            spawn(sim, 2)
            if "num" in limits:
                st["over"] = bool(0 >= kw["max_num_events"])

        stats, _, _ = run(init, **kw)
        ctx.check(stats.num_events_processed == st["count"], "count")
        if not st["over"]:
            ctx.check(st["count"] == n, "continues until no events are pending",
                      f"ended after {st['count']} of {n} events")
        ctx.observe(st["count"], st["over"])
    return fn


def early(ctx):
    """A stop request of the initializer and a run without events."""
    what = ctx.choose("what", ["nothing scheduled", "stop in the initializer"])
    seen = []

    def init(sim):
        if what != "nothing scheduled":
            sim.schedule(ctx.real("d", 0, 4), seen.append)
            sim.stop("at once")

    stats, _, _ = run(init)
    ctx.check(not seen and stats.num_events_processed == 0, "no event runs")


def long_run(n):
    """Limits beyond the small programs: one symbolic limit, many events."""
    def fn(ctx):
        kind = ctx.choose("limit", ["sim", "num", "stop", "none"])
        st = {"count": 0}
        lim = ctx.int("lim", 0, n + 5)
        kw = {}
        if kind == "sim":
            kw["max_sim_time"] = lim * 0.5
        if kind == "num":
            kw["max_num_events"] = lim

        def handler(sim):
            st["count"] += 1
            if kind == "stop" and st["count"] == lim:
                sim.stop()
            if st["count"] + 1 <= n:
                sim.schedule(0.5, handler)

        def init(sim):
            sim.schedule(0.5, handler)
        run(init, **kw)
        c = st["count"]
        if kind == "none":
            ctx.check(c == n, "all events")
        elif kind == "sim":
            # event i is due at i/2; the first one past the limit still runs
            ctx.check(ctx.or_(c == n, lim < c), "stops at the limit")
            ctx.check(lim + 1 >= c, "not later")
        else:
            if kind == "stop" and lim == 0:
                ctx.check(c == n, "never asked to stop")
                return
            ctx.check(ctx.or_(c == n, lim == c), "stops at the limit")
            ctx.check(lim >= c, "not later")
    return fn


def far(n):
    """Very many events: each limit still ends the run at the same event."""
    def fn(ctx):
        kind = ctx.choose("limit", ["none", "num", "sim", "stop", "real", "far away"])
        every = total(n)
        kw, want = {}, every
        at = ctx.choose("at", [every // 3, every - 7])
        clock = [7.0]
        ctx.rt.clock = lambda: clock[0]
        r = Long(ctx, n)
        if kind == "num":
            kw["max_num_events"] = want = at
        elif kind == "sim":
            # just after that tick, or up to just before its successor
            ticks = at * 3 // 4
            kw["max_sim_time"] = r.d * ticks + r.d * ctx.real("over", 0.125, 0.375)
            want = ticks + (ticks - 1) // 3 + 1
        elif kind == "stop":
            r.stop_at = want = at
        elif kind == "real":
            kw["max_real_time"] = at * 0.5 - 0.25
            want = at
        elif kind == "far away":
            kw.update(max_num_events=every + 1, max_sim_time=r.d * (n + 2),
                      max_real_time=1e9)
        if kind == "real":
            step = r.step

            def work(sim, handler):
                clock[0] += 0.5
                step(sim, handler)
            r.step = work
        r.kw = kw
        r.go()
        ctx.check(len(r.ran) == want, "stops at the limit" if want < every else "all events",
                  f"{len(r.ran)} events, not {want}")
        ctx.check(r.stats.num_events_processed == want, "count")
    return fn


def scenarios(tier):
    q = tier == "quick"
    n = 4 if q else 5
    both = ["no event after the end", "continues until no events are pending"]
    out = []
    for lims in (["sim"], ["real"], ["num"], ["stop"], [], ["sim", "num"], ["sim", "stop"],
                 ["real", "num"], ["num", "stop"], ["sim", "real"],
                 ["sim", "real", "num", "stop"]):
        k = n if len(lims) < 3 else 3 if q else 4
        out.append(Scenario("limits " + "+".join(lims or ["none"]), program(k, lims),
                            reach=both))
    out.append(Scenario("early", early, reach=["no event runs"]))
    out.append(Scenario("far limits", far(1100 if q else 2500), path_s=300, max_steps=200000,
                        reach=["all events", "stops at the limit"], warm=0))
    out.append(Scenario("long run", long_run(25 if q else 60), path_s=120,
                        reach=["all events", "stops at the limit"]))
    return out
