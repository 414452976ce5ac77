"""E05: link timings and the frequency tolerance follow the tables of the air protocol."""
import math

import pysim.models.rfid.epcstd as std
from symx.runner import Scenario

BOUNDS = [
    "RTcal and TRcal: any positive reals (minimum <= maximum: within 20 ms / 1 ms of period)",
    "both divide ratios and temperature ranges, all seven timings, every accessor",
    "every subset of the arguments left at its system-wide default, itself any real",
]
OUTSIDE = ["TRcal within 1e-12 s of a boundary of the tolerance table",
           "which interval of the table a TRcal exactly on a boundary belongs to"]
ASSUME = ["the reference copy of the tolerance table is the one this implementation documents "
          "(interval ends 1 % around the nominal TRcal values)",
          "real arithmetic instead of doubles, equality up to relative 1e-9"]

DR = {"DR_8": 8.0, "DR_643": 64.0 / 3}
# upper ends of the intervals in microseconds, tolerance for (nominal, extended) range
TABLE = {
    "DR_643": {"NOMINAL": [(33.633, .15), (66.033, .22), (67.367, .10), (82.467, .12),
                           (131.967, .10), (198.0, .07), (None, .05)],
               "EXTENDED": [(33.633, .15), (66.033, .22), (82.467, .15), (84.133, .10),
                            (131.967, .12), (198.0, .07), (None, .05)]},
    "DR_8": {"NOMINAL": [(24.75, .19), (25.25, .10), (30.9375, .12), (49.5, .10), (75.0, .07),
                         (None, .04)],
             "EXTENDED": [(24.75, .19), (30.9375, .15), (49.5, .10), (75.0, .07), (None, .04)]},
}


def frt_of(ctx, dr, temp, trcal):
    rows = TABLE[dr][temp]
    out = rows[-1][1]
    for end, v in reversed(rows[:-1]):
        out = ctx.ite(trcal < end * 1e-6, v, out)
    return out


def away(ctx, dr, temp, trcal, *more):
    ctx.assume(ctx.and_(*[ctx.or_(trcal < end * 1e-6 - 1e-12, trcal > end * 1e-6 + 1e-12)
                          for end, _ in TABLE[dr][temp][:-1]], *more))


def link(ctx):
    rtcal = ctx.real("rtcal", 0, None, lo_open=True)
    trcal = ctx.real("trcal", 0, None, lo_open=True)
    dr = ctx.choose("dr", list(DR))
    temp = ctx.choose("temp", ["NOMINAL", "EXTENDED"])
    away(ctx, dr, temp, trcal)
    return rtcal, trcal, dr, temp


def limits(ctx, rtcal, trcal, dr, temp):
    pri = trcal / DR[dr]
    frt = frt_of(ctx, dr, temp, trcal)
    base = ctx.ite(rtcal > 10 * pri, rtcal, 10 * pri)
    t1 = base * (1 - frt) - 2e-6
    t2 = 20 * pri
    lo = [t1, 3 * pri, 0.0, 2 * rtcal, t1, t1, ctx.ite(t2 > 250e-6, t2, 250e-6)]
    hi = [base * (1 + frt) + 2e-6, t2, math.inf, math.inf, 0.02, 0.02, 0.02]
    return lo, hi


def same(ctx, got, want, label):
    if type(want) is float and math.isinf(want):
        ctx.check(type(got) is float and math.isinf(got) and got > 0, label,
                  f"{got!r} is not unlimited")
    else:
        ctx.eq(got, want, label)


def timings(ctx):
    rtcal, trcal, dr, temp = link(ctx)
    lo, hi = limits(ctx, rtcal, trcal, dr, temp)
    D, T = std.DivideRatio[dr], std.TempRange[temp]
    kw = dict(rtcal=rtcal, trcal=trcal, dr=D, temp=T)
    i = ctx.choose("timing", list(range(1, 8)))
    same(ctx, std.min_link_t(i, **kw), lo[i - 1], f"minimum")
    same(ctx, std.max_link_t(i, **kw), hi[i - 1], f"maximum")
    a, b = std.link_t(i, **kw)
    same(ctx, a, lo[i - 1], "pair minimum")
    same(ctx, b, hi[i - 1], "pair maximum")


def accessors(ctx):
    rtcal, trcal, dr, temp = link(ctx)
    lo, hi = limits(ctx, rtcal, trcal, dr, temp)
    D, T = std.DivideRatio[dr], std.TempRange[temp]
    kw = dict(rtcal=rtcal, trcal=trcal, dr=D, temp=T)
    td = dict(trcal=trcal, dr=D)
    for name, args, want in (
            ("link_t1_min", kw, lo[0]), ("link_t1_max", kw, hi[0]),
            ("link_t2_min", td, lo[1]), ("link_t2_max", td, hi[1]), ("link_t3", {}, lo[2]),
            ("link_t4", dict(rtcal=rtcal), lo[3]), ("link_t5_min", kw, lo[4]),
            ("link_t5_max", {}, hi[4]), ("link_t6_min", kw, lo[5]), ("link_t6_max", {}, hi[5]),
            ("link_t7_min", td, lo[6]), ("link_t7_max", {}, hi[6])):
        same(ctx, getattr(std, name)(**args), want, f"accessor {name}")


def lists(ctx):
    rtcal, trcal, dr, temp = link(ctx)
    lo, hi = limits(ctx, rtcal, trcal, dr, temp)
    kw = dict(rtcal=rtcal, trcal=trcal, dr=std.DivideRatio[dr], temp=std.TempRange[temp])
    a, b, c = std.min_link_t(None, **kw), std.max_link_t(None, **kw), std.link_t(None, **kw)
    ctx.check(len(a) == 7 and len(b) == 7 and len(c) == 7, "seven timings")
    for i in range(7):
        same(ctx, a[i], lo[i], "list of minima")
        same(ctx, b[i], hi[i], "list of maxima")
        same(ctx, c[i][0], lo[i], "list of pairs")
        same(ctx, c[i][1], hi[i], "list of pairs")


def frequency(ctx):
    trcal = ctx.real("trcal", 0, None, lo_open=True)
    dr = ctx.choose("dr", list(DR))
    temp = ctx.choose("temp", ["NOMINAL", "EXTENDED"])
    away(ctx, dr, temp, trcal)
    D, T = std.DivideRatio[dr], std.TempRange[temp]
    ctx.eq(std.get_blf(D, trcal) * trcal, DR[dr], "backscatter frequency")
    ctx.eq(std.get_pri(trcal=trcal, dr=D) * DR[dr], trcal, "period")
    ctx.eq(std.get_frt(trcal=trcal, dr=D, temp_range=T), frt_of(ctx, dr, temp, trcal),
           "frequency tolerance")


def ordered(ctx):
    rtcal, trcal, dr, temp = link(ctx)
    ctx.assume(rtcal <= 0.02)
    ctx.assume(trcal / DR[dr] * 20 <= 0.02)
    kw = dict(rtcal=rtcal, trcal=trcal, dr=std.DivideRatio[dr], temp=std.TempRange[temp])
    for i in range(1, 8):
        a, b = std.link_t(i, **kw)
        if type(b) is float and math.isinf(b):
            continue
        ctx.le(a, b, "minimum not above maximum", f"T{i}")


def defaults(ctx):
    p = std.stdParams
    given, eff = {}, {}
    for k, attr in (("rtcal", "rtcal"), ("trcal", "trcal")):
        v = ctx.real(k, 0, None, lo_open=True)
        eff[k] = v
        if ctx.choose(k + " given", [True, False]):
            given[k] = v
            setattr(p, attr, ctx.real("default " + k, 0, None, lo_open=True))
        else:
            setattr(p, attr, v)
    for k, enum, attr, mine, other in (("dr", std.DivideRatio, "divide_ratio", "DR_643", "DR_8"),
                                       ("temp", std.TempRange, "temp_range", "EXTENDED",
                                        "NOMINAL")):
        eff[k] = mine
        if ctx.choose(k + " given", [True, False]):
            given[k] = enum[mine]
            setattr(p, attr, enum[other])
        else:
            setattr(p, attr, enum[mine])
    away(ctx, eff["dr"], eff["temp"], eff["trcal"])
    lo, hi = limits(ctx, eff["rtcal"], eff["trcal"], eff["dr"], eff["temp"])
    for i in range(1, 8):
        same(ctx, std.min_link_t(i, **given), lo[i - 1], "default minimum")
        same(ctx, std.max_link_t(i, **given), hi[i - 1], "default maximum")
    td = {k: v for k, v in given.items() if k in ("trcal", "dr")}
    same(ctx, std.link_t1_max(**given), hi[0], "default accessor")
    same(ctx, std.link_t2_max(**td), hi[1], "default accessor")
    same(ctx, std.link_t7_min(**td), lo[6], "default accessor")
    same(ctx, std.link_t4(**{k: v for k, v in given.items() if k == "rtcal"}), lo[3],
         "default accessor")
    ctx.eq(std.get_blf(**td) * eff["trcal"], DR[eff["dr"]], "default frequency")
    ctx.eq(std.get_pri(**td) * DR[eff["dr"]], eff["trcal"], "default period")
    fk = {{"temp": "temp_range"}.get(k, k): v for k, v in given.items() if k != "rtcal"}
    ctx.eq(std.get_frt(**fk), frt_of(ctx, eff["dr"], eff["temp"], eff["trcal"]),
           "default tolerance")


def unknown(ctx):
    i = ctx.choose("index", [0, -1, 8, 100])
    for f in (std.min_link_t, std.max_link_t):
        try:
            f(i)
        except ValueError:
            ctx.reach("refused")
        else:
            ctx.fail("a timing that does not exist", f"T{i}")


def scenarios(tier):
    return [
        Scenario("timings", timings, reach=["minimum", "maximum", "pair minimum"]),
        Scenario("accessors", accessors, reach=["accessor link_t1_min", "accessor link_t7_min"]),
        Scenario("lists", lists, reach=["list of minima", "list of pairs"]),
        Scenario("frequency", frequency, reach=["backscatter frequency", "frequency tolerance"]),
        Scenario("order", ordered, reach=["minimum not above maximum"]),
        Scenario("defaults", defaults, reach=["default minimum", "default accessor"]),
        Scenario("unknown index", unknown, reach=["refused"]),
    ]
