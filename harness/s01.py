"""S01: the timeline of one exchange."""
import pysim.models.rfid.epcstd as std
from harness.e04 import SYM
from harness.e05 import DR, away, limits
from harness.system import Ether, World, command_time, exchange, name_of, reply_time
from pysim.models.rfid.objects import Reader, Transaction
from symx.runner import Scenario

BOUNDS = [
    "Tari, RTcal, TRcal, delimiter and start time: any non-negative reals, backscatter "
    "frequency of the tags any positive real; both divide ratios and temperature ranges",
    "every command in every reader phase with representative field values and RN16s; 0 to 3 "
    "replies of any kind fitting the command, EPC 0..12 bytes, data 0..16 bytes, all encodings "
    "and preambles (all pairs in groups)",
]
OUTSIDE = ["more than 3 replies", "TRcal within 1e-12 s of a step of the tolerance table"]
ASSUME = ["real arithmetic instead of doubles, equality up to relative 1e-9",
          "the reply timeout of a command is T1's maximum after its end"]

RNS = [0x0000, 0xFFFF, 0xA53C]


ALL_LINKS = [(d, x) for d in DR for x in ("NOMINAL", "EXTENDED")]


def world(ctx, links=ALL_LINKS, **kw):
    w = World(ctx, puppets=3, **kw)
    r = w.reader
    dr, temp = ctx.choose("dr and temperature", links)
    r.dr, r.temp = std.DivideRatio[dr], std.TempRange[temp]
    tari = r.tari = ctx.real("tari", 0, None, lo_open=True)
    rtcal = r.rtcal = ctx.real("rtcal", 0, None, lo_open=True)
    trcal = r.trcal = ctx.real("trcal", 0, None, lo_open=True)
    r.delim = ctx.real("delim", 0, None, lo_open=True)
    away(ctx, dr, temp, trcal, tari < rtcal)
    w.tag_blf = DR[dr] / trcal
    class K:
        time = 0.0
        from harness.tags import Quiet
        logger = Quiet()
        context = w.model
    r.kernel = w.kernel = K()
    return w, dr, temp


def bring(ctx, w, phase, rns=(0xA53C,)):
    """The frame the reader sends in a phase, the reader being in it."""
    r = w.reader
    f = r.turn_on()
    if phase == "QUERY":
        return f
    if phase == "QREP":
        return r.timeout()
    if phase in ("QADJ+", "QADJ-"):
        r.updn = 1 if phase == "QADJ+" else -1
        return r.set_state(Reader.State.QAdjust)
    rn = ctx.choose("rn", list(rns))
    f = r.receive(w.reply(std.QueryReply(rn)))
    if phase == "ACK":
        return f
    f = r.receive(w.reply(std.AckReply("AA")))
    if phase == "REQRN":
        return f
    return r.receive(w.reply(std.ReqRNReply(ctx.choose("handle", list(rns)))))


PHASES = ["QUERY", "QREP", "QADJ+", "QADJ-", "ACK", "REQRN", "READ"]


def silent(ctx):
    group = ctx.choose("group", ["phase", "query", "session", "read"])
    w, dr, temp = world(ctx, ALL_LINKS if group == "phase" else [("DR_643", "EXTENDED")],
                        q=2, read_tid_bank=True)
    r = w.reader
    phase = "QUERY"
    if group == "phase":
        phase = ctx.choose("phase", PHASES)
    elif group == "query":
        r.tag_encoding = std.TagEncoding[ctx.choose("m", list(SYM))]
        r.trext = ctx.choose("trext", [False, True])
        r.sel = std.SelFlag[ctx.choose("sel", ["ALL", "SEL"])]
        r.target = std.InventoryFlag[ctx.choose("target", ["A", "B"])]
        r.q = ctx.choose("q", [0, 5, 15])
    elif group == "session":
        r.session = std.Session[ctx.choose("session", ["S1", "S2", "S3"])]
        phase = ctx.choose("phase", ["QUERY", "QREP", "QADJ+", "QADJ-"])
    else:
        phase = "READ"
        r.read_tid_words_num = ctx.choose("words", [0, 1, 7, 255])
    f = bring(ctx, w, phase, RNS if group == "phase" else (0xA53C,))
    t0 = ctx.real("start", 0, 1000)
    x = Transaction(w.model.medium, r, f, [], t0)
    cmd = command_time(f, w.timing)
    _, _, _, dur = exchange(ctx, cmd, [], w.timing, dr, temp)
    ctx.eq(x.command_duration, cmd, "command duration")
    ctx.eq(x.command_end_time, t0 + cmd, "command end")
    ctx.eq(x.duration, dur, "duration without replies", name_of(f))
    ctx.eq(x.finish_time, t0 + dur, "finish")
    ctx.check(x.reply_start_time is None and x.reply_end_time is None and
              x.reply_duration is None, "no reply interval")
    ctx.eq(x.start_time, t0, "start")
    ctx.check(x.command is f and x.reader is r and tuple(x.replies) == (), "parts")


def reps(ctx, w, phase, n, group):
    out = []
    for k in range(n):
        m, ext = ("FM0", False)
        size = 2
        if group == "link":
            m, ext = ctx.choose("link", [("FM0", False), ("FM0", True), ("M2", False),
                                         ("M4", True), ("M8", False)])
        if group == "payload" and phase in ("ACK", "READ"):
            size = ctx.choose("bytes", [0, 1, 12, 16])
        rn = 77 + k
        rep = {"QUERY": lambda: std.QueryReply(rn), "QREP": lambda: std.QueryReply(rn),
               "QADJ+": lambda: std.QueryReply(rn), "QADJ-": lambda: std.QueryReply(rn),
               "ACK": lambda: std.AckReply("5A" * size), "REQRN": lambda: std.ReqRNReply(rn),
               "READ": lambda: std.ReadReply("5A" * size, rn)}[phase]()
        out.append((w.reply(rep, m, ext), m, ext))
    return out


def answered(maxn):
    def fn(ctx):
        group = ctx.choose("group", ["phase", "link", "payload"])
        w, dr, temp = world(ctx, ALL_LINKS if group == "phase" else [("DR_8", "EXTENDED")],
                            q=2, read_tid_bank=True)
        phase = ctx.choose("phase", PHASES) if group == "phase" else \
            ctx.choose("phase", ["QREP", "ACK"] if group == "link" else ["ACK", "READ"])
        f = bring(ctx, w, phase)
        n = ctx.choose("replies", list(range(1, maxn + 1)))
        rs = reps(ctx, w, phase, n, group)
        if group == "phase":
            w.tag_blf = ctx.real("blf", 1000, None)
        replies = [(w.puppets[k], fr) for k, (fr, _, _) in enumerate(rs)]
        given = list(replies)
        t0 = ctx.real("start", 0, 1000)
        x = Transaction(w.model.medium, w.reader, f, given, t0)
        cmd = command_time(f, w.timing)
        times = [reply_time(fr, m, ext, w.tag_blf) for fr, m, ext in rs]
        _, start, end, dur = exchange(ctx, cmd, times, w.timing, dr, temp)
        ctx.eq(x.command_end_time, t0 + cmd, "command end")
        ctx.eq(x.reply_start_time, t0 + start, "reply starts T1 after the command")
        ctx.eq(x.reply_duration, end - start, "the longest reply counts")
        ctx.eq(x.reply_end_time, t0 + end, "reply end")
        ctx.eq(x.duration, dur, "duration with replies", name_of(f))
        ctx.eq(x.finish_time, t0 + dur, "finish")
        ctx.check(list(x.replies) == replies, "parts")
        ctx.check(list(x.tags) == [p for p, _ in replies], "tags of the exchange")
    return fn


def order(ctx):
    """Command end, reply start, reply end and finish come in this order for any admissible
    link (T1 minimum not negative)."""
    w, dr, temp = world(ctx, q=1, read_tid_bank=True)
    r = w.reader
    lo, _ = limits(ctx, r.rtcal, r.trcal, dr, temp)
    ctx.assume(ctx.and_(lo[0] >= 0))
    phase = ctx.choose("phase", PHASES)
    f = bring(ctx, w, phase)
    n = ctx.choose("replies", [0, 1, 2])
    rs = reps(ctx, w, phase, n, "phase")
    t0 = ctx.real("start", 0, 1000)
    x = Transaction(w.model.medium, r, f, [(w.puppets[k], fr) for k, (fr, _, _)
                                           in enumerate(rs)], t0)
    ctx.check(x.start_time <= x.command_end_time, "order", "command end before start")
    ctx.check(x.command_end_time <= x.finish_time, "order", "finish before command end")
    if n:
        ctx.le(x.command_end_time, x.reply_start_time, "order of the reply")
        ctx.le(x.reply_start_time, x.reply_end_time, "order of the reply")
        ctx.le(x.reply_end_time, x.finish_time, "order of the reply")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("without replies", silent,
                 reach=["command end", "duration without replies", "finish", "parts"]),
        Scenario("with replies", answered(2 if q else 3),
                 reach=["reply starts T1 after the command", "the longest reply counts",
                        "duration with replies", "finish", "reply end"]),
        Scenario("order", order, reach=["order", "order of the reply"]),
    ]
