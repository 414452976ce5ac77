"""T04: a tag is on exactly while its received power is above its sensitivity."""
import pysim.models.rfid.epcstd as std
from harness.tags import STATES, Bench, reach
from symx.runner import Scenario

BOUNDS = [
    "every sequence of 5 (quick) / 7 (thorough) power settings from power-off, each none or any "
    "real, any sensitivity, any modulation loss, any non-negative intervals",
    "every sequence of 3 / 4 settings with the sensitivity changed to any real in between and "
    "the same power given again or not",
    "from every inventory state: every sequence of 2 / 3 power settings followed by one command",
]
OUTSIDE = ["powers that are not numbers"]
ASSUME = ["a power equal to the sensitivity changes nothing"]
ASPECTS = ("state", "power", "silence")


def any_power(ctx, b, dt=True):
    p = None if ctx.choose("none", [False, True]) else ctx.real("p")
    b.power(p, ctx.real("dt", 0, 10) if dt else 0.0)
    return p


def sequences(n):
    def fn(ctx):
        sens, loss = ctx.real("sensitivity"), ctx.real("loss")
        b = Bench(ctx, ASPECTS, sensitivity=sens, loss=loss)
        ctx.check(b.tag.state.name == "OFF" and b.tag.power is None, "off at first")
        on = False
        for _ in range(n):
            p = any_power(ctx, b)
            if p is None:
                on = False
            elif on:
                on = not (p < sens)
            else:
                on = p > sens
            ctx.check((b.tag.state.name != "OFF") == on, "on above, off below",
                      f"power {p!r}, sensitivity {sens!r}: {b.tag.state.name}")
            if on:
                ctx.eq(b.tag.power, p, "records the power")
        ctx.reach("sequence")
    return fn


def moved(n):
    """The sensitivity changes between the settings, and the same power may come again."""
    def fn(ctx):
        b = Bench(ctx, ASPECTS, sensitivity=ctx.real("sensitivity"))
        on, p = False, None
        for _ in range(n):
            if ctx.choose("sensitivity changes", [False, True]):
                b.tag.sensitivity = b.sensitivity = ctx.real("sensitivity")
            if p is None or not ctx.choose("the same power", [False, True]):
                p = None if ctx.choose("none", [False, True]) else ctx.real("p")
            b.power(p, ctx.real("dt", 0, 10))
            sens = b.tag.sensitivity
            if p is None:
                on = False
            elif on:
                on = not (p < sens)
            else:
                on = p > sens
            ctx.check((b.tag.state.name != "OFF") == on, "compared with the present sensitivity",
                      f"power {p!r}, sensitivity {sens!r}: {b.tag.state.name}")
    return fn


def in_round(n):
    def fn(ctx):
        state = ctx.choose("state", STATES)
        b = Bench(ctx, ASPECTS + ("reply", "flags"))
        reach(b, state)
        was_off = state == "OFF"
        for _ in range(n):
            p = any_power(ctx, b, dt=False)
            now_off = b.tag.state.name == "OFF"
            if was_off and not now_off:
                ctx.check(b.tag.state.name == "READY", "turning on leads to ready",
                          b.tag.state.name)
            was_off = was_off or now_off
        if not was_off:
            ctx.check(b.tag.state.name == state, "power does not change the state of a tag "
                      "that stays on", f"{state} -> {b.tag.state.name}")
        cmd = ctx.choose("command", ["rep", "adjust", "ack", "req", "read", "query"])
        rn = ctx.int("rn", 0, 65535)
        got = {"rep": lambda: b.rep("S1"), "adjust": lambda: b.adjust("S1", 1),
               "ack": lambda: b.ack(rn), "req": lambda: b.req(rn), "read": lambda: b.read(rn),
               "query": lambda: b.query("S1", q=0)}[cmd]()
        if was_off and cmd != "query":
            ctx.check(got is None, "the round is forgotten",
                      f"answered to {cmd} after a power cycle")
        if b.tag.state.name == "OFF":
            ctx.check(got is None, "silent while off", cmd)
    return fn


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("sequences", sequences(5 if q else 7),
                 reach=["on above, off below", "records the power", "power", "transmit power",
                        "off at first", "sequence"]),
        Scenario("sensitivity changes", moved(3 if q else 4),
                 reach=["compared with the present sensitivity"]),
        Scenario("in a round", in_round(2 if q else 3),
                 reach=["turning on leads to ready", "the round is forgotten",
                        "power does not change the state of a tag that stays on",
                        "silent while off", "silence while off"]),
    ]
