"""S08: tags move uniformly and their power is re-evaluated where they are."""
import numpy as np

import pysim.models.rfid.epcstd as std
from harness.s02 import answers
from harness.s04 import generator, quiet_world
from harness.system import LONG, World, place
from pysim.models.rfid.objects import Reader
from symx.runner import Scenario

MS = 1e-3
BOUNDS = [
    "generated tags: any creation interval, any velocity in (0, 100] m/s, any start coordinates, "
    "four directions (normalised or not), any update interval in [0.5, 2] s, looked at any "
    "moment of the first 4 s (quick) / 6 s (thorough)",
    "1100 / 4000 updates and 150 / 550 power cycles of two lengths, any velocity and start",
    "with exchanges going on: any update interval in [0.1, 3] ms, any velocity (also zero or "
    "negative), answers and power cycles, the first 12 (quick) / 16 (thorough) events",
]
OUTSIDE = ["the moment looked at being itself that of an update (within 1 ns)"]
ASSUME = ["real arithmetic instead of doubles, equality up to relative 1e-9"]

DIRS = [(0.0, 1.0, 0.0), (3.0, -4.0, 0.0), (0.0, 0.0, -2.0), (0, 1, 0)]


def norm(d):
    n = sum(x * x for x in d) ** 0.5
    return [x / n for x in d]


def on_track(ctx, pos, start, v, d, dt, label):
    for p, s, c in zip(pos, start, norm(d)):
        ctx.eq(p, s + v * c * dt, label)


def generated(horizon):
    def fn(ctx):
        first = ctx.real("created", 1e-6, 3)
        u = ctx.real("update interval", 0.5, 2)
        v = ctx.real("velocity", 0, 100, lo_open=True)
        d = ctx.choose("direction", DIRS)
        kind = ctx.choose("start", ["any", "whole"])
        start = [ctx.real(f"pos{k}", -100, 100) for k in range(3)] if kind == "any" else \
            [1, -2, 3]
        at = ctx.real("moment", 0, horizon)
        g = generator([first, LONG], 1.0)
        g.velocity = v
        g.travel_distance = v * 100.0
        g.direction = np.array(d)
        g.pos0 = np.array(start, dtype=object) if ctx.symbolic and kind == "any" else \
            np.array(start)
        w = quiet_world(ctx, [g])
        w.model.update_interval = u
        seen = []
        w.forward = lambda tag, time: seen.append(time) or 0.0
        # the model's updates: every update interval
        ups = [k * u for k in range(1, int(horizon / 0.5) + 1)]
        ctx.assume(ctx.and_(*[ctx.or_(at < x - 1e-9, at > x + 1e-9) for x in ups + [first]],
                            *[ctx.or_(first < x - 1e-9, first > x + 1e-9) for x in ups]))

        def look(k):
            k.stop()
            if not first < at:
                ctx.check(len(w.model.tags) == 0, "not created yet")
                return
            t = w.model.tags[0]
            last = first
            for x in ups:
                if x < at and x > first:
                    last = x
            on_track(ctx, t.pos, start, v, d, last - first, "position of the last update")
            ctx.check(t.pos is t.antenna.pos, "the antenna moves with the tag")
            ctx.reach("looked")
        w.run(before=lambda k: k.schedule(at, look))
    return fn


def long_way(n):
    """Very many updates, at power off and on: no drift."""
    def fn(ctx):
        u = ctx.choose("update interval", [0.5, 0.013])
        v = ctx.real("velocity", -50, 50)
        start = [ctx.real(f"pos{k}", -100, 100) for k in range(3)]
        d = ctx.choose("direction", DIRS)
        w = World(ctx, puppets=1, power_control_mode=Reader.PowerControlMode.PERIODIC,
                  power_on_duration=1e-9, power_off_duration=u * 7.3)
        w.model.update_interval = u
        place(w.puppets[0], tuple(start), v, d)
        w.script = lambda f, k: [None]
        p = w.puppets[0]
        spots = []
        looks = [u * (n * f + 0.25) for f in (0.1, 0.5, 0.9, 1)]

        def look(k):
            spots.append(list(p.pos))
            if len(spots) == len(looks):
                k.stop()
        w.run(before=lambda k: [k.schedule(t, look) for t in looks])
        for pos, t in zip(spots, looks):
            # the last update: of the interval, or with power
            last = [j * u for j in range(n + 1) if j * u <= t][-1]
            cycle = u * 7.3 + 1e-9
            c = int(t / cycle) * cycle
            last = max(last, c + 1e-9 if c + 1e-9 <= t else c)
            for x, s, e in zip(pos, start, norm(d)):
                ctx.check(ctx.and_(x - (s + v * e * last) <= 1e-6, (s + v * e * last) - x <= 1e-6),
                          "position of the last update", f"at {t}")
    return fn


def evaluated(n):
    def fn(ctx):
        u = ctx.real("update interval", 0.1 * MS, 3 * MS)
        v = ctx.real("velocity", -50, 50)
        d = ctx.choose("direction", DIRS[:2])
        mode = ctx.choose("mode", ["always", "cycles"])
        kw = {}
        if mode == "cycles":
            kw = dict(power_control_mode=Reader.PowerControlMode.PERIODIC,
                      power_on_duration=1.1 * MS, power_off_duration=0.4 * MS)
        w = World(ctx, q=1, read_tid_bank=True, **kw)
        w.model.update_interval = u
        w.tag_blf = 2e5
        who = ctx.choose("answers", ["none", "first", "both"])
        w.script = lambda f, k: answers(ctx, w, f, who)
        start = [1.5, -2.0, 0.25]
        for p in w.puppets:
            place(p, tuple(start), v, d)
            p.back = []
        spots = []
        w.forward = lambda tag, time: spots.append((tag, time, list(tag.pos))) or -7.0
        back = []
        w.backward = lambda tag, time: back.append(
            (tag, time, list(tag.pos), tag.powers[-1][0] if tag.powers else None)) or -50.0
        ups = []
        w.run(events=n, before=lambda k: ups.append(k))
        for tag, time, pos in spots:
            on_track(ctx, pos, start, v, d, time, "power of the place of the moment")
        for tag, time, pos, moved in back:
            if moved is None or not moved == time:
                continue            # a first guess, made when the exchange is set up
            on_track(ctx, pos, start, v, d, time, "power of the place of the moment")
        end = w.kernel.time
        for p in w.puppets:
            got = [t for t, _ in p.powers]
            on_track(ctx, p.pos, start, v, d, got[-1], "position of the last update")
            # every multiple of the interval is among the moments, in order
            k = 1
            while k * u < end - 1e-9:
                ctx.check(ctx.or_(*[ctx.and_(t - k * u < 1e-12, k * u - t < 1e-12)
                                    for t in got]), "updates recur", f"{k}-th update missing")
                k += 1
            for what, t in w.log:
                ctx.check(any(x == t for x in got), "updates at power switches")
            for t, x in p.powers:
                ctx.check(x is None or x == -7.0, "power as evaluated")
        ctx.reach("evaluated")
    return fn


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("generated", generated(4 if q else 6),
                 reach=["looked", "position of the last update"]),
        Scenario("long way", long_way(1100 if q else 4000), warm=0, path_s=300, max_steps=200000,
                 reach=["position of the last update"]),
        Scenario("evaluated", evaluated(12 if q else 16),
                 reach=["evaluated", "power of the place of the moment", "updates recur",
                        "updates at power switches"]),
    ]
