"""R03: adaptive Q."""
import pysim.models.rfid.epcstd as std
from harness.system import World, name_of
from symx.runner import Scenario

BOUNDS = [
    "any starting fractional Q within half a unit of the starting Q (0..15), any step in (0, 1): "
    "every sequence of 4 (quick) / 6 (thorough) slot outcomes out of empty, collision, one "
    "reply that breaks off",
    "longer runs of collisions or empty slots only (12 / 24 slots) from every Q, steps 0.1, "
    "0.3, 0.5, 0.9 and any step in (0.3, 0.6) - up to both ends of the range",
    "adaptation off, and the access phases, over the same outcomes",
]
OUTSIDE = ["steps of 1 and more (the rounded value could jump)",
           "the direction of rounding when the fractional Q is exactly half-way"]
ASSUME = ["adaptation follows slots started by Query or QueryRep; the slot an adjust command "
          "opens does not adapt again"]


def drive(ctx, w, outcomes, judge):
    """Let the model run; `outcomes(name, k)` says what answers each command."""
    w.tag_blf = 1e5
    if ctx.symbolic:
        ctx.ex.round_mode = "fork"
    state = {"before": None}

    def script(frame, k):
        name = name_of(frame)
        r = w.reader
        prev = state["before"]
        if prev is not None:
            judge(prev, name, frame, r.q, r.q_fp)
        got = outcomes(name, k)
        state["before"] = (name, got, r.q, r.q_fp)
        rep = {"ACK": lambda: std.AckReply("AABB"), "REQRN": lambda: std.ReqRNReply(8),
               "READ": lambda: std.ReadReply("0011", 8)}.get(name, lambda: std.QueryReply(7))
        return [w.reply(rep()) if got in ("one", "many") else None,
                w.reply(rep()) if got == "many" else None]
    w.script = script


def judge_with(ctx, delta, on=True):
    def judge(prev, name, frame, q, fp):
        pname, got, q0, fp0 = prev
        adapt = on and pname in ("QUERY", "QREP") and got in ("none", "many")
        if not adapt:
            ctx.check(q == q0, "Q unchanged otherwise", f"{pname} {got}: {q0} -> {q}")
            ctx.check(fp == fp0, "fractional Q unchanged otherwise", f"{pname} {got}")
            ctx.check(name != "QADJ", "no adjust command otherwise", f"after {pname} {got}")
            return
        up = got == "many"
        if up:
            want = ctx.ite(q0 == 15, fp0, ctx.ite(fp0 + delta > 15, 15, fp0 + delta))
        else:
            want = ctx.ite(q0 == 0, fp0, ctx.ite(fp0 - delta < 0, 0, fp0 - delta))
        ctx.eq(fp, want, "fractional Q moves by the step", f"{got} at Q={q0!r}")
        ctx.check(ctx.and_(q >= 0, q <= 15), "Q in range")
        ctx.check(ctx.and_(2 * (q - fp) <= 1, 2 * (fp - q) <= 1), "Q is the rounded value",
                  f"{q!r} for {fp!r}")
        if name == "QADJ":
            ctx.check(q == q0 + (1 if up else -1), "adjust exactly on a change of one",
                      f"{q0!r} -> {q!r}")
            updn = getattr(frame.command.updn, "value", frame.command.updn)
            ctx.check(updn == (1 if up else -1), "direction of the adjust", f"{updn} after {got}")
            ctx.check(frame.command.session is std.Session.S2, "session of the adjust")
        else:
            ctx.check(q == q0, "adjust exactly on a change of one",
                      f"Q {q0!r} -> {q!r} without adjust command")
    return judge


def start(ctx, qs, delta, **kw):
    q = ctx.choose("q", qs)
    fp = ctx.real("fractional", max(0, q - 0.5), min(15, q + 0.5), lo_open=q > 0,
                  hi_open=q < 15)
    return World(ctx, puppets=2, q=q, q_fp=fp, adjust_delta=delta, use_query_adjust=True,
                 session=std.Session.S2, **kw)


def mixed(n, qs):
    def fn(ctx):
        delta = ctx.real("step", 0, 1, lo_open=True, hi_open=True)
        w = start(ctx, qs, delta)

        def outcomes(name, k):
            if name == "ACK":
                return "none"
            if name == "QADJ":
                return ctx.choose("slot of the adjust", ["none", "many"])
            return ctx.choose("slot", ["none", "many", "one"])
        drive(ctx, w, outcomes, judge_with(ctx, delta))
        w.run(events=n)
        ctx.reach("mixed")
    return fn


def march(n):
    def fn(ctx):
        kind = ctx.choose("step", [0.1, 0.3, 0.5, 0.9, "any"])
        delta = ctx.real("any step", 0.3, 0.6) if kind == "any" else kind
        way = ctx.choose("way", ["none", "many", "both"])
        w = start(ctx, [0, 1, 5, 10, 14, 15], delta)
        drive(ctx, w, lambda name, k: way if way != "both" else ("many" if k < n // 3
                                                                  else "none"),
              judge_with(ctx, delta))
        w.run(events=n)
        ctx.reach("march")
    return fn


def off(ctx):
    w = World(ctx, puppets=2, q=ctx.choose("q", [0, 2, 15]), q_fp=2.0,
              adjust_delta=0.9, use_query_adjust=ctx.choose("given", [False, None]),
              session=std.Session.S2)
    drive(ctx, w, lambda name, k: ctx.choose("slot", ["none", "many", "one"]),
          judge_with(ctx, 0.9, on=False))
    w.run(events=5)
    ctx.reach("off")


def access(ctx):
    """Timeouts and collisions in the access phases adapt nothing."""
    delta = ctx.real("step", 0, 1, lo_open=True, hi_open=True)
    w = start(ctx, [0, 3, 15], delta, read_tid_bank=True)
    stage = ctx.choose("stage", ["ACK", "REQRN", "READ"])
    what = ctx.choose("what", ["none", "many"])

    def outcomes(name, k):
        return what if name == stage else "one"
    drive(ctx, w, outcomes, judge_with(ctx, delta))
    w.run(events=5)
    ctx.reach("access")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("mixed", mixed(4 if q else 6, [0, 1, 2, 7, 14, 15] if q else list(range(16))),
                 reach=["mixed", "fractional Q moves by the step", "Q is the rounded value",
                        "adjust exactly on a change of one", "direction of the adjust",
                        "Q unchanged otherwise"]),
        Scenario("march", march(12 if q else 24), reach=["march", "Q in range"]),
        Scenario("off", off, reach=["off", "no adjust command otherwise"]),
        Scenario("access", access, reach=["access"]),
    ]
