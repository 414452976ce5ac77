"""C01: bit error rates and the effective signal-to-noise ratio."""
import math

import numpy as np

import pysim.models.rfid.channel as chan
from harness.e04 import DR, SYM, preamble_bits
from harness.radio import Link
from symx.runner import Scenario

BOUNDS = [
    "bit error rate: every signal-to-noise ratio from 0 to 1e9 and every pair of them, both "
    "fading distributions",
    "effective ratio: every raw ratio from 0 to 1e9, every Miller index, symbol times in "
    "[1e-7, 1e-3] s, preambles in [1e-6, 1e-1] s and bandwidths in [1e3, 1e8] Hz",
    "medium: every received power in [-200, 100] dBm, noise in [-150, 0] dBm, TRcal in "
    "[17, 225] us, both divide ratios, all encodings, with and without pilot tone, bandwidths "
    "of 0.6 and 1.2 MHz and any in [1e5, 1e7] Hz",
]
OUTSIDE = ["signal-to-noise ratios above 1e9", "the shape of arctan, erf and cos beyond the "
           "axioms stated"]
ASSUME = ["arctan and erf: odd signs, strict monotonicity, Lipschitz, bracketing bounds; cos: "
          "range and Lipschitz; 10^x: positive and monotonic",
          "real arithmetic instead of doubles, equality up to relative 1e-9"]


def rayleigh(ctx, s):
    t = (1 + 2 / s) ** 0.5
    return 0.5 - 1 / t + 2 / math.pi * np_(ctx, "arctan", t) / t


def np_(ctx, name, x):
    if ctx.symbolic:
        from symx import funcs
        return getattr(funcs, name)(x) if not isinstance(x, (int,)) else getattr(np, name)(x)
    if name == "erf":
        return math.erf(x)
    return getattr(np, name)(x)


def awgn(ctx, s):
    q = 0.5 - 0.5 * np_(ctx, "erf", s ** 0.5 / 2 ** 0.5)
    return 2 * q * (1 - q)


REFERENCE = {"rayleigh": rayleigh, "awgn": awgn}


def curve(distr):
    def scenario(ctx):
        s = ctx.real("snr", 0, 1e9)
        b = chan.ber(s, distr=distr)
        ctx.le(0.0, b, "not below zero")
        ctx.le(b, 0.5, "not above one half")
        if s == 0:
            ctx.eq(b, 0.5, "one half without signal")
            ctx.reach("silent")
        elif s >= 1e-8:
            ctx.eq(b, REFERENCE[distr](ctx, s), f"{distr} fading")
            ctx.reach("signal")
    return scenario


def falling(distr):
    def scenario(ctx):
        s = ctx.real("weak", 0, 1e9)
        more = ctx.real("strong", 0, 1e9)
        ctx.assume(s < more)
        a, b = chan.ber(s, distr=distr), chan.ber(more, distr=distr)
        ctx.le(b, a, "more signal, not more errors")
        ctx.reach("compared")
    return scenario


def full(ctx):
    s = ctx.real("snr", 0, 1e9)
    m = ctx.choose("miller", [1, 2, 4, 8])
    sym = ctx.real("symbol", 1e-7, 1e-3)
    pre = ctx.real("preamble", 1e-6, 1e-1)
    bw = ctx.real("bandwidth", 1e3, 1e8)
    r = chan.snr_full(snr=s, miller=m, symbol=sym, preamble=pre, bandwidth=bw)
    ideal = m * s * sym * bw
    ctx.le(0.0, r, "not negative")
    ctx.le(r, ideal, "not above the ideal value")
    if s == 0:
        ctx.eq(r, 0.0, "zero without signal")
        ctx.reach("silent")
    elif s >= 1e-8:
        c = np_(ctx, "cos", 1 / (s * pre * bw) ** 0.5)
        ctx.eq(r, ideal * (c * c), "synchronised by the preamble")
        ctx.reach("signal")


def medium(which):
    def scenario(ctx):
        w = Link(ctx)
        w.turn_on()
        w.tag.set_power(0.0, 0.0)
        m, ext = ctx.choose("encoding", list(SYM)), ctx.choose("extended", [False, True])
        dr = ctx.choose("dr", list(DR))
        trcal = ctx.real("trcal", 17e-6, 225e-6) if which == "link" else 46.875e-6
        w.query(dr, m, ext, trcal)
        w.reader.noise = ctx.real("noise", -150, 0) if which == "power" else -80.0
        bw = {"link": 1.2e6, "power": 0.6e6}.get(which) or ctx.real("bandwidth", 1e5, 1e7)
        w.medium.bandwidth = bw
        p = ctx.real("power", -200, 100) if which == "power" else -90.0
        w.medium.estimate_reader_rx_power = lambda reader, tag, time: p
        r = w.medium.estimate_reader_rx_snr(w.reader, w.tag, [w.tag], 0.1)
        raw = 10 ** ((p - w.reader.noise) / 10)
        if raw >= 1e-8:
            blf = DR[dr] / trcal
            pre = preamble_bits(m, ext) * SYM[m] / blf
            c = np_(ctx, "cos", 1 / (raw * pre * bw) ** 0.5)
            ctx.eq(r, SYM[m] * raw / blf * bw * (c * c), "effective ratio of this link")
            ctx.reach("signal")
    return scenario


def rate(ctx):
    """The bit error rate the medium reports, and silence."""
    w = Link(ctx)
    w.turn_on()
    which = ctx.choose("distribution", ["rayleigh", "awgn"])
    w.medium.ber_distribution = which
    s = ctx.real("snr", 0, 1e9)
    b = w.medium.estimate_reader_rx_ber(w.reader, w.tag, [w.tag], s)
    ctx.le(0.0, b, "not below zero")
    ctx.le(b, 0.5, "not above one half")
    if s == 0:
        ctx.eq(b, 0.5, "one half without signal")
    elif s >= 1e-8:
        ctx.eq(b, REFERENCE[which](ctx, s), "the distribution of the medium")
        ctx.reach("signal")
    with w.stub():
        silent = w.medium.estimate_reader_rx_snr(w.reader, w.tag, [w.tag], 0.1)
        ctx.eq(silent, 0.0, "no signal from a tag without power")
        ctx.eq(w.medium.estimate_reader_rx_ber(w.reader, w.tag, [w.tag], silent), 0.5,
               "one half without signal")


def scenarios(tier):
    out = []
    for d in ("rayleigh", "awgn"):
        out.append(Scenario(f"curve-{d}", curve(d), reach=("silent", "signal")))
        out.append(Scenario(f"falling-{d}", falling(d), reach=("compared",), query_ms=60000,
                            path_s=200))
    out.append(Scenario("effective", full, reach=("silent", "signal"), query_ms=60000))
    for w in ("link", "power", "bandwidth"):
        out.append(Scenario(f"medium-{w}", medium(w), reach=("signal",), query_ms=60000))
    out.append(Scenario("rate", rate, reach=("signal",)))
    return out
