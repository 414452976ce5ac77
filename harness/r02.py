"""R02: the reader's next command and the number it echoes."""
import pysim.models.rfid.epcstd as std
from harness.readers import Bench, kind
from symx.runner import Scenario

BOUNDS = [
    "every sequence of 6 (quick) / 8 (thorough) outcomes (timeout or the answer due) from "
    "power-on, with any RN16 and handle values, TID reading on or off, Q 0..1",
    "settings of the commands: all divide ratios, encodings, selections, sessions, targets, "
    "extended preamble flags, Q 0..15, words to read 0..255 (representatives 0, 1, 4, 8, 255)",
    "preambles for any Tari, RTcal, TRcal, delimiter; a setting changed between two commands",
]
OUTSIDE = ["answers that do not fit the exchange (the model raises RuntimeError)"]
ASSUME = []


def judge(ctx, b, f, want, rn=None):
    c, s = f.command, b.reader
    ctx.check(kind(f) == want, "next command", f"{kind(f)} instead of {want}")
    if want == "QUERY":
        ctx.check(c.dr is s.dr and c.m is s.tag_encoding and c.sel is s.sel and
                  c.session is s.session and c.target is s.target and c.q == s.q and
                  bool(c.trext) == bool(s.trext), "settings of Query", str(c))
    elif want == "QREP":
        ctx.check(c.session is s.session, "session of QueryRep")
    elif want in ("ACK", "REQRN"):
        ctx.check(c.rn == rn, "number echoed", f"{want}: {c.rn!r} instead of {rn!r}")
    elif want == "READ":
        ctx.check(c.rn == rn, "number echoed", f"{want}: {c.rn!r} instead of {rn!r}")
        ctx.check(c.bank is std.MemoryBank.TID and c.word_ptr == 0, "what is read")
        ctx.check(c.word_count == s.read_tid_words_num, "number of words read",
                  f"{c.word_count}")
    base = s.delim + s.tari + s.rtcal
    ctx.eq(f.preamble.duration, base + s.trcal if want == "QUERY" else base,
           "preamble of Query" if want == "QUERY" else "frame-sync of the others")
    ctx.eq(f.preamble.data0, s.tari, "symbols of the frame")
    ctx.eq(f.preamble.data1, s.rtcal - s.tari, "symbols of the frame")


def timing(ctx, r):
    r.tari = ctx.real("tari", 0, None, lo_open=True)
    r.rtcal = ctx.real("rtcal", 0, None, lo_open=True)
    r.trcal = ctx.real("trcal", 0, None, lo_open=True)
    r.delim = ctx.real("delim", 0, None, lo_open=True)


def sequences(n):
    def fn(ctx):
        tid = ctx.choose("tid", [False, True])
        q = ctx.choose("q", [0, 1])
        b = Bench(ctx, q=q, read_tid_bank=tid, session=std.Session.S2, trext=True,
                  target=std.InventoryFlag.B, sel=std.SelFlag.SEL, dr=std.DivideRatio.DR_643)
        timing(ctx, b.reader)
        f = b.reader.turn_on()
        judge(ctx, b, f, "QUERY")
        slot = 0
        for _ in range(n):
            was = kind(f)
            if ctx.choose("timeout", [True, False]):
                f = b.reader.timeout()
                over = True
            else:
                over = False
                if was in ("QUERY", "QREP"):
                    rn = ctx.int("rn", 0, 65535)
                    f = b.rn16(rn)
                    want = "ACK"
                elif was == "ACK":
                    f = b.epc(ctx.choose("epc", ["", "AABBCCDD"]))
                    want, over = "REQRN", not tid
                elif was == "REQRN":
                    rn = ctx.int("handle", 0, 65535)
                    f = b.handle(rn)
                    want = "READ"
                else:
                    f = b.data(rn)
                    over = True
            if over:
                slot = (slot + 1) % 2 ** q
                judge(ctx, b, f, "QUERY" if slot == 0 else "QREP")
            else:
                judge(ctx, b, f, want, rn)
        ctx.reach("sequence")
    return fn


def settings(ctx):
    group = ctx.choose("group", ["link", "population", "q", "words"])
    kw = {}
    if group == "link":
        kw = dict(dr=std.DivideRatio[ctx.choose("dr", ["DR_8", "DR_643"])],
                  tag_encoding=std.TagEncoding[ctx.choose("m", ["FM0", "M2", "M4", "M8"])],
                  trext=ctx.choose("trext", [False, True]))
    elif group == "population":
        kw = dict(sel=std.SelFlag[ctx.choose("sel", ["ALL", "SEL", "NOT_SEL"])],
                  session=std.Session[ctx.choose("session", ["S0", "S1", "S2", "S3"])],
                  target=std.InventoryFlag[ctx.choose("target", ["A", "B"])])
    elif group == "q":
        kw = dict(q=ctx.choose("q", list(range(16))))
    else:
        kw = dict(read_tid_words_num=ctx.choose("words", [0, 1, 4, 8, 255]))
    kw.setdefault("q", 1)
    b = Bench(ctx, read_tid_bank=True, **kw)
    timing(ctx, b.reader)
    f = b.reader.turn_on()
    judge(ctx, b, f, "QUERY")
    if b.reader.q > 0:
        judge(ctx, b, b.reader.timeout(), "QREP")
    rn = ctx.int("rn", 0, 65535)
    judge(ctx, b, b.rn16(rn), "ACK", rn)
    judge(ctx, b, b.epc(), "REQRN", rn)
    h = ctx.int("handle", 0, 65535)
    judge(ctx, b, b.handle(h), "READ", h)
    if group == "population":
        # an adjust command of this session
        b.reader.updn = ctx.choose("updn", [1, -1])
        f = b.reader.set_state(type(b.reader).State.QAdjust)
        ctx.check(kind(f) == "QADJ" and f.command.session is b.reader.session and
                  f.command.updn == b.reader.updn, "adjust command", str(f.command))
        ctx.eq(f.preamble.duration, b.reader.delim + b.reader.tari + b.reader.rtcal,
               "frame-sync of the others")


def changed(ctx):
    """Commands use the settings of the moment they are issued."""
    b = Bench(ctx, q=1, read_tid_bank=True)
    b.reader.turn_on()
    what = ctx.choose("what", ["target", "session", "q", "timing", "words"])
    if what == "target":
        b.reader.target = std.InventoryFlag.B
    elif what == "session":
        b.reader.session = std.Session.S3
    elif what == "q":
        b.reader.q = 0
    elif what == "words":
        b.reader.read_tid_words_num = 2
    else:
        timing(ctx, b.reader)
    f = b.reader.timeout()
    if what != "q":
        judge(ctx, b, f, "QREP")
        rn = ctx.int("rn", 0, 65535)
        judge(ctx, b, b.rn16(rn), "ACK", rn)
        judge(ctx, b, b.epc(), "REQRN", rn)
        judge(ctx, b, b.handle(rn), "READ", rn)
        f = b.data(rn)
    judge(ctx, b, f, "QUERY")
    ctx.reach("changed")


def restart(ctx):
    """After a power cycle in any phase the reader starts over with Query."""
    b = Bench(ctx, q=2, read_tid_bank=True)
    b.reader.turn_on()
    rn = ctx.int("rn", 0, 65535)
    for step in (lambda: b.rn16(rn), b.epc, lambda: b.handle(rn))[:ctx.choose("phase",
                                                                             [0, 1, 2, 3])]:
        step()
    b.reader.turn_off()
    ctx.check(b.reader.power is None, "no power while off")
    judge(ctx, b, b.reader.turn_on() if ctx.choose("how", [True, False]) else
          b.reader.timeout(), "QUERY")
    rn2 = ctx.int("rn", 0, 65535)
    judge(ctx, b, b.rn16(rn2), "ACK", rn2)
    ctx.reach("restarted")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("sequences", sequences(6 if q else 8),
                 reach=["next command", "number echoed", "settings of Query",
                        "session of QueryRep", "preamble of Query", "frame-sync of the others",
                        "number of words read", "sequence"]),
        Scenario("settings", settings, reach=["settings of Query", "number of words read",
                                              "adjust command"]),
        Scenario("changed", changed, reach=["changed"]),
        Scenario("restart", restart, reach=["restarted", "no power while off"]),
    ]
