"""S10: power records describe their moment and disturb nothing."""
import numpy as np

import pysim.models.rfid.epcstd as std
from harness.s02 import answers
from harness.s04 import generator
from harness.s08 import DIRS, on_track
from harness.system import LONG, World, place
from pysim.models.rfid.objects import Medium, Reader, Tag
from symx.runner import Scenario

MS = 1e-3
FLOOR = -120
BOUNDS = [
    "records: two tags, any velocity in [-50, 50] m/s, any update interval in [0.3, 3] ms, power "
    "at the tags anywhere in [-60, 20] dBm and changing once at any moment, any modulation "
    "loss, back power, signal-to-noise ratio and path losses, one or two antennas, always on or "
    "power cycles with any period in [0.7, 3] ms, the first 9 (quick) / 13 (thorough) events",
    "same run: the same with and without records, 10 (quick) / 16 (thorough) events",
    "coming and going: one generated tag with any creation time and lifetime",
    "text: 16 situations (power cycles, levels, one or two tags, losses), the whole history",
]
OUTSIDE = ["the moment of the change being that of an event (within 1 ns)"]
ASSUME = ["real arithmetic instead of doubles, equality up to relative 1e-9"]


class Air(Medium):
    """A channel whose figures are those of the harness."""

    def __init__(self, world, v):
        super().__init__()
        self.w, self.seen = world, []
        self.pl = (v["forward loss"], v["backward loss"])
        self.rx, self.snr = v["back power"], v["snr"]
        self.level = [v["level"]]
        self.change = None

    def get_forward_path_loss(self, reader, tag, time):
        return FLOOR if reader.power is None else self.pl[0]

    def get_backward_path_loss(self, reader, tag, time):
        return FLOOR if tag.power is None else self.pl[1]

    def estimate_tag_rx_power(self, reader, tag, time):
        self.seen.append((tag, time, len(self.w.log), reader.antenna_index))
        if reader.power is None:
            return None
        if self.change is not None and time > self.change:
            return self.level[1]
        return self.level[0]

    def estimate_reader_rx_power(self, reader, tag, time):
        return None if tag.power is None else self.rx

    def estimate_reader_rx_snr(self, reader, tag, tags, time):
        return 0.0 if tag.power is None else self.snr

    def estimate_reader_rx_ber(self, reader, tag, tags, snr):
        return 0.5 if snr == 0 else 0.125


def figures(ctx):
    r = ctx.real
    return {"forward loss": r("forward loss", -200, 0), "backward loss": r("backward loss", -200, 0),
            "back power": r("back power", -150, 0), "snr": r("snr", 0.001, 1e6),
            "level": r("level", -60, 20), "modulation loss": r("modulation loss", -30, 0)}


def world(ctx, antennas=1, mode="always", collect=True, tags=2, v=None, **kw):
    v = v or figures(ctx)
    if mode == "cycles":
        kw.update(power_control_mode=Reader.PowerControlMode.PERIODIC,
                  power_on_duration=ctx.real("on", 0.7 * MS, 3 * MS),
                  power_off_duration=0.45 * MS)
    w = World(ctx, puppets=0, antennas=antennas, antenna_switch_interval=0.9 * MS, **kw)
    w.model.medium = w.air = Air(w, v)
    w.model.statistics.use_power_statistics = collect
    w.tags = []
    for i in range(tags):
        t = Tag(i, None)
        t.epc, t.tid = "AB" * 12, "CD" * 12
        t.modulation_loss = v["modulation loss"]
        t.sensitivity = -18.0
        w.add(t)
        w.tags.append(t)
    ctx.rt.on_int = lambda lo, hi: lo
    return w


def expected(ctx, w, events):
    """Power state of one tag after each of its evaluations."""
    on, out = False, []
    a = w.air
    for tag, time, switches, antenna in events:
        up = switches > 0 and w.log[switches - 1][0] == "on"
        p = a.level[1] if a.change is not None and time > a.change else a.level[0]
        if not up:
            on = False
        elif p > tag.sensitivity:
            on = True
        elif p < tag.sensitivity:
            on = False
        out.append((on, up, p, time, w.log[switches - 1][1] if up else None, antenna))
    return out


def verify(ctx, w, tag, records, start, v, d, born=0.0):
    """The records of a tag are those of its evaluations."""
    asked = [e for e in w.air.seen if e[0] is tag]
    want = expected(ctx, w, asked)
    k = 0
    for e in want:
        # as many as there were, at least one, in order
        got = records[k:k + 1]
        ctx.check(bool(got), "a record of each moment", f"{k} of {len(want)}")
        if not got:
            return
        r = got[0]
        on, up, p, time, since, antenna = e
        k += 1
        ctx.eq(r.time, time, "moment of the record")
        on_track(ctx, r.tag_pos, start, v, d, time - born, "place of the tag")
        ctx.check(r.reader_antenna_index == antenna, "antenna of the record")
        ctx.check(list(r.reader_antenna_pos) == [float(antenna), 0.0, 5.0],
                  "place of the antenna")
        if up:
            ctx.eq(r.field_lifetime, time - since, "age of the field")
            ctx.eq(r.reader_tx_power, w.reader.max_power, "power of the reader")
            ctx.eq(r.reader_tag_pl, w.air.pl[0], "path loss to the tag")
        else:
            ctx.check(r.field_lifetime == np.inf, "no field")
            ctx.check(r.reader_tx_power == FLOOR, "no power of the reader")
            ctx.check(r.reader_tag_pl == FLOOR, "no path to the tag")
        if on:
            ctx.eq(r.tag_rx_power, p, "power at the tag")
            ctx.eq(r.tag_tx_power, p + tag.modulation_loss, "power from the tag")
            ctx.eq(r.reader_rx_power, w.air.rx, "power at the reader")
            ctx.eq(r.snr, w.air.snr, "ratio at the reader")
            ctx.check(r.ber == 0.125, "error rate at the reader")
            ctx.eq(r.tag_reader_pl, w.air.pl[1], "path loss from the tag")
            ctx.reach("heard")
        else:
            for x in (r.tag_rx_power, r.tag_tx_power, r.reader_rx_power, r.tag_reader_pl):
                ctx.check(x == FLOOR, "no power")
            ctx.check(r.snr == 0.0 and r.ber == 0.5, "nothing to hear")
            ctx.reach("silent")
    ctx.check(len(records) == len(want), "one record of each moment",
              f"{len(records)} for {len(want)}")


def records(n, kind):
    def fn(ctx):
        if kind == "field":
            w = world(ctx, mode="cycles")
            u, v, d = 0.62 * MS, 2.0, DIRS[0]
        elif kind == "antennas":
            w = world(ctx, antennas=2)
            u, v, d = ctx.real("update interval", 0.3 * MS, 3 * MS), 2.0, DIRS[0]
        else:
            w = world(ctx)
            u, v = ctx.real("update interval", 0.3 * MS, 3 * MS), ctx.real("velocity", -50, 50)
            d = ctx.choose("direction", DIRS[:2])
        if kind == "change":
            w.air.level.append(ctx.real("later level", -60, 20))
            w.air.change = ctx.real("change", 0.1 * MS, 3 * MS)
        w.model.update_interval = u
        start = [1.5, -2.0, 0.25]
        for t in w.tags:
            place(t, tuple(start), v, d)
        w.run(events=n)
        st = w.model.statistics
        for t in w.tags:
            verify(ctx, w, t, st.get_tag_record(t).power_mapping, start, v, d)
    return fn


def going(ctx):
    """The records of a generated tag begin when it comes and stay as they are when it left."""
    first, life = ctx.real("created", 0.1, 2), ctx.real("lifetime", 0.1, 2)
    w = world(ctx, tags=0, power_control_mode=Reader.PowerControlMode.PERIODIC,
              power_on_duration=1e-9, power_off_duration=LONG)
    g = generator([first, LONG], 1.0)
    g.velocity, g.travel_distance = 2.0, life * 2.0
    w.model.generators = [g]
    w.model.update_interval = 0.5
    kept = []

    def look(k):
        ctx.check(len(w.model.statistics.tags_history) == 1, "retired")
        kept.append(list(w.model.statistics.tags_history[0].power_mapping))
        k.stop()
    w.run(before=lambda k: k.schedule(4.6, look))
    r = w.model.statistics.tags_history[0]
    asked = [e[1] for e in w.air.seen if e[0] is r.tag]
    ctx.check(len(asked) == len(kept[0]), "one record of each moment",
              f"{len(kept[0])} for {len(asked)}")
    for x, t in zip(kept[0], asked):
        ctx.eq(x.time, t, "moment of the record")
        on_track(ctx, x.tag_pos, [0.0, 0.0, 0.0], 2.0, r.tag.direction, t - first,
                 "place of the tag")
    ctx.eq(kept[0][0].time, first, "recorded from the beginning")
    ctx.reach("kept")


def twice(n):
    """The same run with and without records."""
    def fn(ctx):
        mode = ctx.choose("mode", ["always", "cycles"])
        u = ctx.real("update interval", 0.3 * MS, 3 * MS)
        v = figures(ctx)
        draws, runs = [], []
        for collect in (True, False):
            w = world(ctx, mode="always", collect=collect, v=v, read_tid_bank=True)
            if mode == "cycles":
                w.reader.power_control_mode = Reader.PowerControlMode.PERIODIC
                w.reader.power_on_duration = 3.3 * MS
                w.reader.power_off_duration = 0.4 * MS
            count = [0]

            def pick(lo, hi):
                k, count[0] = count[0], count[0] + 1
                if k == len(draws):
                    draws.append(ctx.choose(f"slot {k}", [0, 1]) if k < 4 else 0)
                return lo + draws[k] if hi - lo <= 1 else lo + 3 * k
            ctx.rt.on_int = pick
            ctx.rt.on_unit = lambda: 0.01
            w.model.update_interval = u
            for t in w.tags:
                place(t, (1.5, -2.0, 0.25), 3.0)
            heard = []
            inner = w.tags[0].receive
            w.tags[0].receive = lambda f, inner=inner: heard.append(
                (w.kernel.time, str(type(f.command)), inner(f))) or heard[-1][2]
            res = w.run(events=n)
            runs.append((w, heard, res))
        (a, x, ra), (b, y, rb) = runs
        ctx.check(len(x) == len(y), "as many commands", f"{len(x)}, {len(y)}")
        for (t, c, f), (s, e, g) in zip(x, y):
            ctx.eq(t, s, "commands at the same moments")
            ctx.check(c == e, "the same commands", f"{c}, {e}")
            ctx.check((f is None) == (g is None) and type(getattr(f, "reply", None))
                      is type(getattr(g, "reply", None)), "the same replies")
        ctx.eq(a.kernel.time, b.kernel.time, "the same end")
        for s, t in zip(a.tags, b.tags):
            ctx.check(s.state is t.state, "the same state of the tags")
            r, q = a.model.statistics.get_tag_record(s), b.model.statistics.get_tag_record(t)
            ctx.check(len(r.inventory_history) == len(q.inventory_history)
                      and r.num_rounds_attained == q.num_rounds_attained,
                      "the same statistics")
            ctx.check(len(r.power_mapping) > 0, "records when asked for")
            ctx.check(len(q.power_mapping) == 0, "no records unless asked for")
        ctx.reach("compared")
    return fn


def text(ctx):
    """Listing everything never fails and leaves nothing out."""
    mode = ctx.choose("mode", ["always", "cycles"])
    v = {"forward loss": ctx.choose("loss", [-40.0, -np.inf]), "backward loss": -60.0,
         "back power": -50.0, "snr": ctx.choose("snr", [0.0, 1e6]),
         "level": ctx.choose("level", [-40.0, -10.0]), "modulation loss": -7.0}
    w = world(ctx, v=v, tags=ctx.choose("tags", [1, 2]), read_tid_bank=True, q=0)
    if mode == "cycles":
        w.reader.power_control_mode = Reader.PowerControlMode.PERIODIC
        w.reader.power_on_duration, w.reader.power_off_duration = 2.2 * MS, 0.3 * MS
    w.model.update_interval = 0.7 * MS
    ctx.rt.on_unit = lambda: 0.0
    for t in w.tags:
        place(t, (1.5, -2.0, 0.25), 3.0)
    w.run(events=16)
    st = w.model.statistics
    recs = [st.get_tag_record(t) for t in w.tags]
    for t in w.tags:
        st.close_tag_record(t)
    lines = [str(r) for rec in recs for r in rec.power_mapping]
    out = st.to_long_string()
    for x in lines:
        ctx.check(x in out, "every record is listed")
    ctx.check(out.count("t_on=") == len(lines) > 0, "every record is listed once")
    reads = sum(len(rec.inventory_history) for rec in recs)
    ctx.check(out.count("(round=") == reads, "every identification is listed once")
    if reads:
        ctx.reach("identified")
    ctx.reach("listed")


def scenarios(tier):
    q = tier == "quick"
    n = 9 if q else 13
    return [Scenario("place", records(n, "place"), reach=("heard", "silent")),
            Scenario("change", records(n, "change"), reach=("heard", "silent")),
            Scenario("field", records(n, "field"), reach=("heard", "silent")),
            Scenario("antennas", records(n, "antennas"), reach=("heard", "silent")),
            Scenario("going", going, reach=("kept",)),
            Scenario("text", text, reach=("listed", "identified")),
            Scenario("twice", twice(10 if q else 16), reach=("compared",))]
