"""S02: exchanges follow one another without gap or overlap while the reader is on."""
import pysim.models.rfid.epcstd as std
from harness.e05 import DR, away
from harness.system import (US, World, command_time, exchange, name_of, reply_time)
from pysim.models.rfid.objects import Reader
from symx.runner import Scenario

MS = 1e-3
BOUNDS = [
    "always on: any Tari in [6.25, 25] us, RTcal in [2.5, 3] Tari, TRcal in [1.1, 3] RTcal, any "
    "delimiter in [11, 14] us, any backscatter frequency of the tags in [40, 640] kHz: every "
    "pattern of no, one or two answers (lost or received) to the first 4 (quick) / 6 (thorough) "
    "commands, both divide ratios, FM0 and Miller 8",
    "600 (quick) / 2500 (thorough) commands in a row, any delimiter, Q 1 and 8, every third or "
    "every 250th slot answered or none, by one tag or two",
    "power cut at any moment in (0, 6 ms] of the first or second period of power, any "
    "off-duration in (0, 5 ms], answers none / collision / a complete exchange with access",
]
OUTSIDE = ["the power being cut at the very moment an exchange or a reply begins or ends "
           "(within 1 ns)",
           "other longer runs"]
ASSUME = ["real arithmetic instead of doubles, equality up to relative 1e-9"]


def answers(ctx, w, frame, who):
    name = name_of(frame)
    n = len(w.commands)
    if name == "ACK":
        reps = [std.AckReply("AABB" * 6), std.AckReply("CC" * 2)]
    elif name == "REQRN":
        reps = [std.ReqRNReply(100 + n)] * 2
    elif name == "READ":
        reps = [std.ReadReply("00112233", 100 + n), std.ReadReply("0011", 100 + n)]
    else:
        reps = [std.QueryReply(200 + n)] * 2
    m = w.reader.tag_encoding.name
    give = {"none": [0, 0], "first": [1, 0], "second": [0, 1], "both": [1, 1]}[who]
    return [w.reply(r, m, w.reader.trext) if g else None for r, g in zip(reps, give)]


def durations(ctx, w, dr, temp, commands):
    """For each command: (reply start or None, duration) relative to its start."""
    out = []
    m, ext = w.reader.tag_encoding.name, w.reader.trext
    for _, f, _, ans in commands:
        times = [reply_time(a, m, ext, w.tag_blf) for a in ans if a is not None]
        _, start, _, dur = exchange(ctx, command_time(f, w.timing), times, w.timing, dr, temp)
        out.append((start, dur))
    return out


def chain(n, group):
    def fn(ctx):
        dr, temp, enc, ext = ctx.choose("link", [
            ("DR_8", "NOMINAL", "FM0", False), ("DR_643", "EXTENDED", "M8", True)])
        if group == "timing":
            tari = ctx.real("tari", 6.25 * US, 25 * US)
            rtcal = ctx.real("rtcal", 15 * US, 75 * US)
            trcal = ctx.real("trcal", 16 * US, 225 * US)
            ctx.assume(ctx.and_(rtcal >= 2.5 * tari, rtcal <= 3 * tari, trcal >= 1.1 * rtcal,
                                trcal <= 3 * rtcal))
            away(ctx, dr, temp, trcal)
            delim = ctx.real("delim", 11 * US, 14 * US)
        else:
            tari, rtcal, trcal, delim = 6.25 * US, 18.75 * US, 33.5 * US, 12.5 * US
        w = World(ctx, tari=tari, rtcal=rtcal, trcal=trcal, delim=delim, q=1,
                  dr=std.DivideRatio[dr], temp=std.TempRange[temp],
                  tag_encoding=std.TagEncoding[enc], trext=ext, read_tid_bank=True,
                  read_tid_words_num=2)
        w.tag_blf = ctx.real("blf", 40e3, 640e3) if group == "timing" else DR[dr] / trcal
        ctx.rt.on_unit = lambda: 0.25
        w.ber = 0.0

        kinds = ["none", "first", "both"] if group == "timing" else \
            ["none", "first", "second", "both", "lost"]

        last = ["first"]

        def script(f, k):
            # the acknowledged tag alone is engaged in what follows; others may disturb
            who = ctx.choose("who", kinds if name_of(f) in ("QUERY", "QREP") else
                             [last[0], "none", "lost"])
            if who in ("first", "second"):
                last[0] = who
            w.ber = 1.0 if who == "lost" else 0.0
            return answers(ctx, w, f, last[0] if who == "lost" else who)
        w.script = script
        w.run(events=None, sim_time=None, before=lambda k: stop_after(w, n))
        exp = durations(ctx, w, dr, temp, w.commands)
        at = [t for t, *_ in w.commands]
        ctx.check(len(at) == n, "commands counted", f"{len(at)}")
        ctx.eq(at[0], 0, "first command at once")
        for k in range(n - 1):
            ctx.eq(at[k + 1], at[k] + exp[k][1], "next command when the exchange finishes",
                   name_of(w.commands[k][1]))
        for p in w.puppets:
            want = [0.0] + [at[k] + exp[k][0] for k in range(n - 1) if exp[k][0] is not None]
            got = [t for t, _ in p.powers]
            ctx.check(len(got) == len(want), "powers re-evaluated once per reply",
                      f"{len(got)} for {len(want)}")
            for a, b in zip(got, want):
                ctx.eq(a, b, "powers re-evaluated when the reply starts")
        ctx.reach("chain")
    return fn


def long_chain(n):
    """Very many exchanges: no drift, no gap."""
    def fn(ctx):
        w = World(ctx, tari=6.25 * US, rtcal=18.75 * US, trcal=33.5 * US,
                  delim=ctx.real("delim", 11 * US, 14 * US), q=ctx.choose("q", [1, 8]),
                  dr=std.DivideRatio.DR_8, temp=std.TempRange.NOMINAL,
                  tag_encoding=std.TagEncoding.FM0, trext=False, read_tid_bank=True,
                  read_tid_words_num=2)
        w.tag_blf = DR["DR_8"] / w.reader.trcal
        ctx.rt.on_unit = lambda: 0.25
        w.ber = 0.0
        every = ctx.choose("answered", [0, 3, 250])
        kind = ctx.choose("answers", ["first", "both"]) if every else "none"
        slots = [0]

        def script(f, k):
            if name_of(f) in ("QUERY", "QREP"):
                slots[0] += 1
            hit = every and slots[0] % every == 0
            return answers(ctx, w, f, kind if hit else "none")
        w.script = script
        w.run(before=lambda k: stop_after(w, n))
        exp = durations(ctx, w, "DR_8", "NOMINAL", w.commands)
        at = [t for t, *_ in w.commands]
        ctx.check(len(at) == n, "commands counted", f"{len(at)}")
        due, rev = 0, 1
        for k in range(n - 1):
            if exp[k][0] is not None:
                rev += 1
            due = due + exp[k][1]
            if k % 41 == 0 or k > n - 5:
                ctx.eq(at[k + 1], due, "next command when the exchange finishes",
                       f"command {k + 1}")
        for p in w.puppets:
            ctx.check(len(p.powers) == rev, "powers re-evaluated once per reply",
                      f"{len(p.powers)} for {rev}")
    return fn


def stop_after(w, n):
    """The kernel is asked to stop with the n-th command."""
    inner = w.script

    def script(f, k):
        if k == n - 1:
            w.kernel.stop()
            return [None] * len(w.puppets)
        return inner(f, k)
    w.script = script


def cut(cycles, most):
    def fn(ctx):
        what = ctx.choose("answers", ["none", "both", "first", "lost"])
        on = ctx.real("on", 0, most * MS, lo_open=True)
        off = ctx.real("off", 0, 5 * MS, lo_open=True)
        w = World(ctx, q=1, power_control_mode=Reader.PowerControlMode.PERIODIC,
                  power_on_duration=on, power_off_duration=off, read_tid_bank=True)
        dr, temp = "DR_8", "NOMINAL"
        w.reader.temp = std.TempRange.NOMINAL
        w.tag_blf = DR[dr] / w.reader.trcal
        w.ber = 1.0 if what == "lost" else 0.0
        w.script = lambda f, k: answers(ctx, w, f, "first" if what == "lost" else what)
        gaps = []
        w.reader.power_on_listeners.add(
            lambda: gaps.append((w.model.transaction, len(w.commands))))
        done = []

        def off_again():
            done.append(w.kernel.time)
            if len(done) == cycles:
                w.kernel.stop()
        w.reader.power_off_listeners.add(off_again)
        # a look at the middle of the first power-off
        seen = []
        w.run(events=400, before=lambda k: k.schedule(
            on + off / 2, lambda kk: seen.append((w.model.transaction, w.reader.power))))
        ctx.check(len(done) == cycles, "cycles completed", f"{done}")
        exp = durations(ctx, w, dr, temp, w.commands)
        at = [t for t, *_ in w.commands]
        powers = []
        k = 0
        for c in range(cycles):
            start, end = c * (on + off), c * (on + off) + on
            powers.append((start, 0.0))
            t = start
            first = True
            while True:
                ctx.check(k < len(at), "a command whenever the reader is free",
                          f"{len(at)} commands in all")
                ctx.eq(at[k], t, "first command when power comes" if first else
                       "next command when the exchange finishes", f"period {c}, command {k}")
                if first:
                    ctx.check(isinstance(w.commands[k][1].command, std.Query),
                              "a round begins with power")
                first = False
                rs, dur = exp[k]
                k += 1
                if rs is not None:
                    ctx.assume(ctx.or_(t + rs < end - 1e-9, t + rs > end + 1e-9))
                    if t + rs < end:
                        powers.append((t + rs, 0.0))
                t = t + dur
                ctx.assume(ctx.or_(t < end - 1e-9, t > end + 1e-9))
                if t > end:
                    break
            powers.append((end, None))
        ctx.check(k == len(at), "nothing after the power is cut",
                  f"{len(at)} commands, {k} due")
        for p in w.puppets:
            ctx.check(len(p.powers) == len(powers), "powers re-evaluated at these moments only",
                      f"{len(p.powers)} for {len(powers)}")
            for (a, x), (b, y) in zip(p.powers, powers):
                ctx.eq(a, b, "moment of the power")
                ctx.check(x == y, "power of the moment", f"{x} for {y}")
        for x, n in gaps:
            ctx.check(x is None, "no exchange while off")
        for x, p in seen:
            ctx.check(x is None and p is None, "no exchange while off")
        ctx.reach("cut")
    return fn


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("chain of timings", chain(3 if q else 4, "timing"),
                 reach=["chain", "next command when the exchange finishes",
                        "powers re-evaluated when the reply starts"]),
        Scenario("chain of answers", chain(5 if q else 7, "answers"),
                 reach=["chain", "next command when the exchange finishes",
                        "powers re-evaluated when the reply starts"]),
        Scenario("long chain", long_chain(600 if q else 2500), warm=0, path_s=300,
                 max_steps=400000, reach=["next command when the exchange finishes"]),
        Scenario("cut", cut(2, 3 if q else 6),
                 reach=["cut", "nothing after the power is cut", "no exchange while off",
                        "moment of the power"]),
    ]
