"""R05: power cycling of the reader and antenna switching."""
import pysim.models.rfid.epcstd as std
from harness.system import World, name_of
from pysim.models.rfid.objects import Reader
from symx.runner import Scenario

MS = 1e-3
BOUNDS = [
    "periodic: any on-duration in (0, 2.5 ms] and off-duration in (0, 4 ms], the first 9 "
    "(quick) / 13 (thorough) events, tags answering or silent; the power seen at any moment of "
    "the first 6 ms",
    "durations from zero (either or both)",
    "always on: 30 events",
    "antennas: 1, 2 and 3; any switching interval in [0.25 ms, 3 ms], any on-duration in "
    "[0.4 ms, 1.6 ms], off-duration 0.3 ms or 2 ms, from any first antenna, with and without "
    "starting at the first one, 10 (quick) / 16 (thorough) events; always on 14 / 22 events",
]
OUTSIDE = ["longer runs", "the instant of a switch itself, where two events coincide"]
ASSUME = ["real arithmetic instead of doubles, equality up to relative 1e-9"]


def periodic(events):
    def fn(ctx):
        on = ctx.real("on", 0, 2.5 * MS, lo_open=True)
        off = ctx.real("off", 0, 4 * MS, lo_open=True)
        w = World(ctx, power_control_mode=Reader.PowerControlMode.PERIODIC,
                  power_on_duration=on, power_off_duration=off, max_power=27.5)
        w.tag_blf = 1e5
        talk = ctx.choose("tags", ["silent", "colliding"])
        sent = []

        def script(frame, k):
            sent.append((w.kernel.time, w.reader.power, w.reader.tx_power, len(w.log)))
            return [w.reply(std.QueryReply(k)) if talk == "colliding" else None] * 2
        w.script = script
        cycle = on + off
        probes = []

        def look(kernel):
            t = ctx.real("probe", 0, 6 * MS)
            kernel.schedule(t, lambda k: probes.append((t, w.reader.power, w.reader.tx_power,
                                                        w.reader.state, len(w.log))))
        w.run(events=events, before=look)
        for k, (what, t) in enumerate(w.log):
            ctx.check(what == ("on" if k % 2 == 0 else "off"), "switches alternate",
                      f"{[x for x, _ in w.log]}")
            want = (k // 2) * cycle + (0 if k % 2 == 0 else on)
            ctx.eq(t, want, "moment of the switch", f"{what} number {k // 2}")
        for t, p, tx, n in sent:
            ctx.check(n % 2 == 1, "no command while off")
            ctx.check(p == 27.5 and tx == 27.5, "configured power while on", f"{p} {tx}")
        for t, p, tx, st, n in probes:
            if n % 2 == 1:
                ctx.check(p == 27.5 and tx == 27.5, "configured power while on", f"{p} {tx}")
                ctx.check(st is not Reader.State.OFF, "state while on")
            else:
                ctx.check(p is None and tx is None, "no power while off", f"{p} {tx}")
                ctx.check(st is Reader.State.OFF, "state while off")
        ctx.reach("periodic")
    return fn


def degenerate(ctx):
    """Zero durations follow one another at the same moments."""
    on = ctx.choose("on", [0.0, 0.0003])
    off = ctx.choose("off", [0.0, 0.0002])
    w = World(ctx, power_control_mode=Reader.PowerControlMode.PERIODIC,
              power_on_duration=on, power_off_duration=off)
    w.run(events=9)
    ctx.check(len(w.log) >= 4, "degenerate durations", f"{w.log}")
    for k, (what, t) in enumerate(w.log):
        ctx.check(what == ("on" if k % 2 == 0 else "off"), "degenerate durations")
        ctx.eq(t, (k // 2) * (on + off) + (0 if k % 2 == 0 else on), "degenerate durations")


def always(ctx):
    talk = ctx.choose("tags", ["silent", "colliding"])
    w = World(ctx, max_power=ctx.choose("power", [0.0, 30.0, -3.0]),
              power_on_duration=1e-4, power_off_duration=1e-4)
    w.tag_blf = 1e5
    powers = []

    def script(frame, k):
        powers.append(w.reader.power)
        return [w.reply(std.QueryReply(k)) if talk == "colliding" else None] * 2
    w.script = script
    w.run(events=30)
    ctx.check(w.log == [("on", 0)], "never switched off", f"{w.log}")
    ctx.check(all(p == w.reader.max_power for p in powers), "power always on")
    ctx.check(len(powers) > 10, "keeps commanding")


def antennas(events, periodic_mode):
    def fn(ctx):
        n = ctx.choose("antennas", [1, 2, 3])
        interval = ctx.real("interval", 0.25 * MS, 3 * MS)
        on = ctx.real("on", 0.4 * MS, 1.6 * MS) if periodic_mode else None
        off = ctx.choose("off", [0.3 * MS, 2 * MS]) if periodic_mode else None
        first = ctx.choose("first", [True, False]) if periodic_mode else \
            ctx.choose("first", [False, True])
        mode = Reader.PowerControlMode.PERIODIC if periodic_mode else \
            Reader.PowerControlMode.ALWAYS_ON
        w = World(ctx, antennas=n, power_control_mode=mode, power_on_duration=on,
                  power_off_duration=off, antenna_switch_interval=interval,
                  always_start_with_first_antenna=first)
        begin = ctx.choose("begin", list(range(n))) if not periodic_mode else n - 1
        for _ in range(begin):
            w.reader.select_next_antenna()
        seen = []

        def script(frame, k):
            seen.append((w.kernel.time, w.reader.antenna_index, len(w.log)))
            ctx.check(w.reader.antenna is w.reader.get_antenna(w.reader.antenna_index),
                      "the antenna of the index")
            ctx.check(w.reader.antenna.pos[0] == float(w.reader.antenna_index),
                      "the antenna of the index")
            return [None, None]
        w.script = script
        looks = []
        w.reader.power_off_listeners.add(
            lambda: looks.append((w.kernel.time, w.reader.antenna_index, len(w.log))))
        w.run(events=events)
        # where every period of power starts
        index = {}
        last = begin

        def switches(since, until):
            """(certain, possible): switches strictly before / not after the moment"""
            if n == 1:
                return 0, 0
            a = 0
            while since + (a + 1) * interval < until:
                a += 1
            return a, a + (1 if since + (a + 1) * interval == until else 0)
        since = 0
        for k, (what, t) in enumerate(w.log):
            if what == "on":
                since = t
                opts = {0} if first else (last if isinstance(last, set) else {last})
                index[k] = (since, opts)
            else:
                a, b = switches(since, t)
                opts = index[k - 1][1]
                last = {(i + a) % n for i in opts} | {(i + b) % n for i in opts}
        for t, i, at in seen + looks:
            k = at - 1 if (at - 1) in index else at - 2
            s, opts = index[k]
            a, b = switches(s, t)
            ok = {(x + a) % n for x in opts} | {(x + b) % n for x in opts}
            ctx.check(i in ok, "antenna of the moment", f"{i} not in {ok}, {n} antennas")
        ctx.check(len(seen) > 3, "commands seen")
        ctx.reach("antennas")
    return fn


def Once(*a, **k):
    """One preceding run is enough for these long ones."""
    return Scenario(*a, warm=1, **k)


def scenarios(tier):
    q = tier == "quick"
    return [
        Once("periodic", periodic(9 if q else 13),
                 reach=["periodic", "moment of the switch", "no power while off",
                        "configured power while on"]),
        Once("degenerate", degenerate, reach=["degenerate durations"]),
        Once("always on", always, reach=["never switched off"]),
        Once("antennas", antennas(10 if q else 16, True),
                 reach=["antennas", "antenna of the moment"]),
        Once("antennas always on", antennas(14 if q else 22, False),
                 reach=["antennas", "antenna of the moment"]),
    ]
