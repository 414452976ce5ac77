"""C02: received powers are the sums of the link budget."""
import math

import numpy as np

import pysim.models.rfid.channel as chan
from harness.radio import Link, norm, vec
from symx.runner import Scenario

BOUNDS = [
    "link budget: every transmit power in [-100, 60] dBm, path loss in [-200, 20] dB, gains, "
    "cable and polarisation losses in [-50, 50] dB, sensitivity and modulation loss",
    "path loss asked for: every position and velocity, directions of any length, time since "
    "the field came up in [0, 10] s, with and without Doppler, both wall models, frequency in "
    "[1e8, 1e10] Hz, permittivity in [1, 100], conductivity in [0, 10]",
    "1 to 3 antennas, any of them active",
    "conversion: every value in [1e-15, 1e9] and every level in [-149, 90] dB, dB and dBm",
]
OUTSIDE = ["the path loss itself (C03)"]
ASSUME = ["10^x and log10: inverse of each other, monotonic",
          "real arithmetic instead of doubles, equality up to relative 1e-9"]


def budget(ctx):
    w = Link(ctx, loss=ctx.real("path loss", -200, 20))
    w.reader.max_power = ctx.real("power", -100, 60)
    w.tag.modulation_loss = ctx.real("modulation loss", -50, 0)
    w.medium.polarization_loss = ctx.real("polarization loss", -50, 50)
    a, b = w.reader.antenna, w.tag.antenna
    a.gain, b.gain = ctx.real("reader gain", -50, 50), ctx.real("tag gain", -50, 50)
    a.cable_loss = ctx.real("reader cable", -50, 50)
    b.cable_loss = ctx.real("tag cable", -50, 50)
    w.turn_on()
    extra = (w.loss + w.medium.polarization_loss + a.gain + b.gain + a.cable_loss
             + b.cable_loss)
    with w.stub():
        got = w.medium.estimate_tag_rx_power(w.reader, w.tag, 0.5)
        ctx.eq(got, w.reader.max_power + extra, "power at the tag")
        ctx.eq(w.medium.get_forward_path_loss(w.reader, w.tag, 0.5),
               w.loss + w.medium.polarization_loss, "forward loss")
        ctx.check(w.medium.estimate_reader_rx_power(w.reader, w.tag, 0.5) is None,
                  "nothing from a tag without power")
        level = ctx.real("received", -30, 60)
        w.tag.sensitivity = -30.5
        w.tag.set_power(0.5, level)
        back = w.medium.estimate_reader_rx_power(w.reader, w.tag, 0.5)
        ctx.eq(back, level + w.tag.modulation_loss + extra, "power at the reader")
        ctx.eq(w.medium.get_backward_path_loss(w.reader, w.tag, 0.5),
               w.loss + w.medium.polarization_loss, "backward loss")
        w.tag.set_power(0.6, None)
        ctx.check(w.medium.estimate_reader_rx_power(w.reader, w.tag, 0.6) is None,
                  "nothing from a tag that lost its power")
        w.reader.turn_off()
        ctx.check(w.medium.estimate_tag_rx_power(w.reader, w.tag, 0.7) is None,
                  "nothing from a reader that is off")
    ctx.observe(got, back)


def is_unit(ctx, got, want, label):
    """got is the unit vector along want."""
    n = norm(ctx, want)
    for g, x in zip(got, want):
        ctx.eq(g * n, x, label)


def asked(which):
    def scenario(ctx):
        w = Link(ctx)
        doppler = ctx.choose("doppler", [True, False]) if which == "time" else True
        w.medium.use_doppler = doppler
        up, age = (ctx.real("up", 0, 100), ctx.real("age", 0, 10)) \
            if which == "time" else (1.0, 0.25)
        if which == "medium":
            w.medium.frequency = ctx.real("frequency", 1e8, 1e10)
            w.medium.permittivity = ctx.real("permittivity", 1, 100)
            w.medium.conductivity = ctx.real("conductivity", 0, 10)
        kind = ctx.choose("wall", ["reflection", "const"]) if which == "medium" else "reflection"
        w.medium.ground_reflection_type = kind
        wall = chan.reflection if kind == "reflection" else chan.reflection_constant
        ra, ta = w.reader.antenna, w.tag.antenna
        rd, td = [0.0, 0.0, -1.0], [0.0, 0.0, 1.0]
        if which == "place":
            ra.pos = vec([ctx.real("reader " + c, -100, 100) for c in "xyz"])
            w.tag.pos = vec([ctx.real("tag " + c, -100, 100) for c in "xyz"])
        md, v = [0.0, 1.0, 0.0], 3.0
        if which == "reader direction":
            rd = [ctx.real("dir " + c, -1, 1) for c in "xyz"]
            ctx.assume(rd[0] ** 2 + rd[1] ** 2 + rd[2] ** 2 >= 1e-4)
            ra.direction_theta = vec(rd)
        if which == "tag direction":
            td = [ctx.real("dir " + c, -1, 1) for c in "xyz"]
            ctx.assume(td[0] ** 2 + td[1] ** 2 + td[2] ** 2 >= 1e-4)
            ta.direction_theta = vec(td)
        if which == "motion":
            md = [ctx.real("dir " + c, -1, 1) for c in "xyz"]
            ctx.assume(md[0] ** 2 + md[1] ** 2 + md[2] ** 2 >= 1e-4)
            v = ctx.real("speed", 0, 100)
            w.tag.direction, w.tag.velocity = vec(md), v
        w.turn_on(up)
        w.tag.set_power(up, 0.0)
        with w.stub():
            w.medium.estimate_tag_rx_power(w.reader, w.tag, up + age)
            w.medium.estimate_reader_rx_power(w.reader, w.tag, up + age)
        ctx.check(len(w.calls) == 2, "one path loss each way", str(len(w.calls)))
        fwd, back = w.calls
        ctx.check(fwd.get("log") is True and back.get("log") is True, "asked for decibels")
        for c, pol in ((fwd, 0.5), (back, 1.0)):
            ctx.eq(c["polarization"], pol, "polarization of the wave")
            ctx.eq(c["time"], age if doppler else 0.0, "time since the field came up")
            ctx.eq(c["wavelen"] * w.medium.frequency, 2.99792458e8, "wave length")
            ctx.eq(c["permittivity"], w.medium.permittivity, "permittivity")
            ctx.eq(c["conductivity"], w.medium.conductivity, "conductivity")
            kw = dict(cosine=0.25, polarization=0.5, permittivity=15.0, conductivity=0.03,
                      wavelen=0.35)
            ctx.check(abs(c["ground_reflection"](**kw) - wall(**kw)) < 1e-12, "wall model")
            for rp in (c["tx_rp"], c["rx_rp"]):
                ctx.check(abs(rp(azimuth=0.25) - chan.rp_dipole(azimuth=0.25)) < 1e-12,
                          "radiation pattern")
        for call, tx, rx in ((fwd, "tx", "rx"), (back, "rx", "tx")):
            for g, x in zip(call[tx + "_pos"], ra.pos):
                ctx.eq(g, x, "position of the reader")
            for g, x in zip(call[rx + "_pos"], w.tag.pos):
                ctx.eq(g, x, "position of the tag")
            is_unit(ctx, call[tx + "_dir_theta"], rd, "direction of the reader's antenna")
            is_unit(ctx, call[rx + "_dir_theta"], td, "direction of the tag's antenna")
            for x in call[tx + "_velocity"]:
                ctx.eq(x, 0.0, "the reader stands still")
            n = norm(ctx, md)
            for g, x in zip(call[rx + "_velocity"], md):
                ctx.eq(g * n, x * v, "velocity of the tag")
        ctx.reach("asked")
    return scenario


def antennas(ctx):
    """The antenna in use is the one that counts."""
    w = Link(ctx)
    n = ctx.choose("antennas", [2, 3])
    for i in range(1, n):
        a = type(w.reader.antenna)()
        a.pos = vec([5.0, 10.0 * i, 5.0])
        a.direction_theta = vec([0.0, 0.0, -1.0])
        w.reader.attach_antenna(a)
    ants = []
    for i in range(n):
        a = w.reader.get_antenna(i)
        a.gain = ctx.real(f"gain{i}", -50, 50)
        a.cable_loss = ctx.real(f"cable{i}", -50, 50)
        ants.append(a)
    w.reader.antenna_switch_interval = 1000.0
    w.turn_on()
    w.tag.set_power(0.0, 0.0)
    for k in range(ctx.choose("switches", [0, 1, 2, 3])):
        w.reader.select_next_antenna()
    act = w.reader.antenna
    with w.stub():
        got = w.medium.estimate_tag_rx_power(w.reader, w.tag, 0.5)
        back = w.medium.estimate_reader_rx_power(w.reader, w.tag, 0.5)
    rest = w.loss + w.medium.polarization_loss + w.tag.antenna.gain + w.tag.antenna.cable_loss
    ctx.eq(got, w.reader.max_power + rest + act.gain + act.cable_loss, "power at the tag")
    ctx.eq(back, w.tag.modulation_loss + rest + act.gain + act.cable_loss,
           "power at the reader")
    ctx.check(w.calls[0]["tx_pos"][1] == 10.0 * ants.index(act), "antenna of the forward link")
    ctx.check(w.calls[1]["rx_pos"][1] == 10.0 * ants.index(act), "antenna of the backward link")


def level(ctx, x, dbm):
    if ctx.symbolic:
        from symx import funcs
        return 10 * funcs.log10(x) + (30 if dbm else 0)
    return 10 * math.log10(x) + (30 if dbm else 0)


def conversions(ctx):
    dbm = ctx.choose("dbm", [False, True])
    x = ctx.real("value", 1e-15, 1e9)
    up = chan.to_log(x, dbm=dbm)
    ctx.eq(up, level(ctx, x, dbm), "decibels of a value")
    ctx.eq(chan.from_log(up, dbm=dbm), x, "there and back")
    y = ctx.real("other", 1e-15, 1e9)
    ctx.assume(y > x)
    ctx.check(chan.to_log(y, dbm=dbm) > up, "increasing")
    ctx.eq(chan.to_log(x, dbm=True) - chan.to_log(x), 30.0, "dBm are 30 above dBW")
    ctx.check(chan.to_log(0.0, dbm=dbm) == -np.inf, "no power at all")


def levels(ctx):
    dbm = ctx.choose("dbm", [False, True])
    p = ctx.real("level", -149, 90)
    v = chan.from_log(p, dbm=dbm)
    ctx.check(v > 0, "a level is a positive value")
    if v >= 1e-15:
        ctx.eq(chan.to_log(v, dbm=dbm), p, "back and there")
        ctx.reach("above the floor")


def powers(ctx):
    """Squared magnitudes of wave amplitudes, in both scales."""
    dbm = ctx.choose("dbm", [False, True])
    a = ctx.real("amplitude", -1e3, 1e3)
    ctx.eq(chan.to_power(a, log=False), a * a, "power of an amplitude")
    if a * a >= 1e-14:
        ctx.eq(chan.to_power(a, log=True, dbm=dbm), level(ctx, a * a, dbm),
               "power in decibels")
        ctx.reach("audible")


def noise(ctx):
    p, n = ctx.real("power", -200, 100), ctx.real("noise", -150, 0)
    r = chan.snr(p, n)
    ctx.check(r > 0, "positive")
    if p == n:
        ctx.eq(r, 1.0, "one at the noise level")
    ctx.check(ctx.iff(r > 1, p > n), "above one above the noise")
    if r >= 1e-15:
        ctx.eq(chan.to_log(r), p - n, "the difference in decibels")


def scenarios(tier):
    out = [Scenario("budget", budget)]
    for w in ("time", "medium", "place", "reader direction", "tag direction", "motion"):
        out.append(Scenario(f"asked-{w.replace(' ', '-')}", asked(w), reach=("asked",),
                            query_ms=60000))
    out += [Scenario("antennas", antennas), Scenario("conversions", conversions),
            Scenario("levels", levels, reach=("above the floor",)),
            Scenario("powers", powers, reach=("audible",)), Scenario("noise", noise)]
    return out
