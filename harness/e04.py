"""E04: tag reply lengths and durations."""
import pysim.models.rfid.epcstd as std
from symx.runner import Scenario

BOUNDS = [
    "TRcal and the backscatter frequency: any positive reals; both divide ratios, all "
    "encodings, both preambles",
    "payloads of 0..4 (quick) / 0..40 (thorough) bytes as hexadecimal strings, lists, tuples, "
    "bytes, byte arrays and ranges of symbolic byte values; the helpers that take a byte or "
    "word count: any count up to 255 as a symbolic integer",
    "two frames alive at once: every pair of encodings, preambles and short replies",
    "every subset of the link parameters left at its system-wide default",
]
OUTSIDE = ["payloads with an odd number of hexadecimal digits"]
ASSUME = ["real arithmetic instead of doubles, equality up to relative 1e-9"]

DR = {"DR_8": 8.0, "DR_643": 64.0 / 3}
SYM = {"FM0": 1, "M2": 2, "M4": 4, "M8": 8}


def preamble_bits(m, ext):
    if m == "FM0":
        return 18 if ext else 6
    return 22 if ext else 10


def link(ctx):
    return (ctx.choose("encoding", list(SYM)), ctx.choose("extended", [False, True]))


def payload(ctx, nmax, hexchars="0123456789abcdefABCDEF"):
    """A payload and its byte count."""
    n = ctx.choose("bytes", list(range(nmax + 1)))
    kind = ctx.choose("given as", ["hex", "list", "tuple", "bytes", "bytearray", "range"])
    if kind == "hex":
        return "A5f0"[:2] * n, n
    vals = [ctx.int("byte", 0, 255) for _ in range(n)]
    if kind in ("bytes", "bytearray", "range") :
        vals = [37 * i % 256 for i in range(n)]
        return {"bytes": bytes(vals), "bytearray": bytearray(vals),
                "range": range(n)}[kind], n
    return (vals if kind == "list" else tuple(vals)), n


def reply(ctx, nmax):
    """A reply object, its bit length and what the helpers call it."""
    kind = ctx.choose("reply", ["query", "ack", "req", "read"])
    if kind == "query":
        return std.QueryReply(0x1234), 16, kind, 0
    if kind == "req":
        return std.ReqRNReply(0x1234, 0x5678), 32, kind, 0
    data, n = payload(ctx, nmax)
    if kind == "ack":
        return std.AckReply(data), 32 + 8 * n, kind, n
    return std.ReadReply(data, 1, 2), 33 + 8 * n, kind, n


def frame(nmax):
    def fn(ctx):
        m, ext = link(ctx)
        r, want, kind, n = reply(ctx, nmax)
        ctx.check(r.bitlen == want, "reply length", f"{r.bitlen} instead of {want}")
        pre = std.create_tag_preamble(std.TagEncoding[m], ext)
        pb = preamble_bits(m, ext)
        ctx.check(pre.bitlen == pb, "preamble length", f"{pre.bitlen}")
        ctx.check(pre.encoding is std.TagEncoding[m], "preamble encoding")
        ctx.check(std.tag_preamble_bitlen(std.TagEncoding[m], ext) == pb, "preamble length")
        f = std.TagFrame(pre, r)
        ctx.check(f.bitlen == pb + want + 1, "frame length", f"{f.bitlen}")
        blf = ctx.real("blf", 0, None, lo_open=True)
        k = SYM[m]
        ctx.eq(pre.get_duration(blf) * blf, pb * k, "preamble duration")
        ctx.eq(std.tag_preamble_duration(blf, std.TagEncoding[m], ext) * blf, pb * k,
               "preamble duration")
        ctx.eq(f.get_body_duration(blf) * blf, want * k, "body duration")
        total = (pb + want + 1) * k
        ctx.eq(f.get_duration(blf) * blf, total, "frame duration")
        ctx.eq(std.tag_frame_duration(r, blf, std.TagEncoding[m], ext) * blf, total,
               "frame duration helper")
    return fn


def together(ctx):
    """Preambles and frames that are alive at once keep their own lengths."""
    blf = ctx.real("blf", 0, None, lo_open=True)
    made = []
    for _ in range(2):
        m, ext = link(ctx)
        pre = std.create_tag_preamble(std.TagEncoding[m], ext)
        kind = ctx.choose("reply", ["query", "req"])
        r = std.QueryReply(1) if kind == "query" else std.ReqRNReply(1, 2)
        made.append((m, ext, pre, std.TagFrame(pre, r), 16 if kind == "query" else 32))
    for m, ext, pre, f, want in made:
        pb, k = preamble_bits(m, ext), SYM[m]
        ctx.check(pre.bitlen == pb and pre.encoding is std.TagEncoding[m],
                  "a preamble keeps its length", f"{m} {ext}: {pre.bitlen}")
        ctx.check(f.bitlen == pb + want + 1, "a frame keeps its length", f"{m} {ext}: {f.bitlen}")
        ctx.eq(f.get_duration(blf) * blf, (pb + want + 1) * k, "a frame keeps its duration")


def helpers(ctx):
    """Helpers by kind and by reply type, for any divide ratio, TRcal and payload size."""
    m, ext = link(ctx)
    d = ctx.choose("dr", list(DR))
    trcal = ctx.real("trcal", 0, None, lo_open=True)
    kw = dict(dr=std.DivideRatio[d], trcal=trcal, encoding=std.TagEncoding[m], trext=ext)
    kind = ctx.choose("reply", ["query", "ack", "req", "read"])
    R = std.ReplyType
    more = {}
    if kind == "query":
        got, t, n = std.query_reply_duration(**kw), R.QUERY_REPLY, 16
    elif kind == "req":
        got, t, n = std.reqrn_reply_duration(**kw), R.REQRN_REPLY, 32
    elif kind == "ack":
        c = ctx.int("epc bytes", 0, 255)
        more = dict(epc_bytelen=c)
        got, t, n = std.ack_reply_duration(**kw, **more), R.ACK_REPLY, 32 + 8 * c
    else:
        c = ctx.int("words", 0, 255)
        more = dict(words_count=c)
        got, t, n = std.read_reply_duration(**kw, **more), R.READ_REPLY, 33 + 16 * c
    # bits * symbols per bit / BLF with BLF = DR / TRcal
    want = (preamble_bits(m, ext) + n + 1) * SYM[m] * trcal
    ctx.eq(got * DR[d], want, "helper duration")
    ctx.eq(std.reply_duration(t, **kw, **more) * DR[d], want, "by reply type")
    blf = std.get_blf(std.DivideRatio[d], trcal)
    ctx.eq(blf * trcal, DR[d], "backscatter frequency")
    ctx.eq(std.tag_bitrate(std.DivideRatio[d], trcal, std.TagEncoding[m]) * trcal * SYM[m],
           DR[d], "bit rate")


def agree(nmax):
    """The helpers and the frame of an actual reply give the same duration."""
    def fn(ctx):
        m, ext = link(ctx)
        d = ctx.choose("dr", list(DR))
        trcal = ctx.real("trcal", 0, None, lo_open=True)
        kw = dict(dr=std.DivideRatio[d], trcal=trcal, encoding=std.TagEncoding[m], trext=ext)
        kind = ctx.choose("reply", ["query", "ack", "req", "read"])
        n = ctx.choose("words", list(range(nmax + 1))) if kind in ("ack", "read") else 0
        data = "5a" * (2 * n)
        r, h = {"query": (lambda: std.QueryReply(7), lambda: std.query_reply_duration(**kw)),
                "req": (lambda: std.ReqRNReply(7, 8), lambda: std.reqrn_reply_duration(**kw)),
                "ack": (lambda: std.AckReply(data),
                        lambda: std.ack_reply_duration(epc_bytelen=2 * n, **kw)),
                "read": (lambda: std.ReadReply(data, 7, 8),
                         lambda: std.read_reply_duration(words_count=n, **kw))}[kind]
        f = std.TagFrame(std.create_tag_preamble(std.TagEncoding[m], ext), r())
        blf = std.get_blf(std.DivideRatio[d], trcal)
        ctx.eq(h() * blf, f.get_duration(blf) * blf, "helper agrees with the frame")
        ctx.eq(f.get_duration(blf) * blf, f.bitlen * SYM[m], "duration agrees with the length")
    return fn


def defaults(ctx):
    p = std.stdParams
    given, eff = {}, {}
    vals = {"dr": ("DR_643", "divide_ratio", "DR_8"), "encoding": ("M4", "tag_encoding", "M2"),
            "trext": (False, "trext", True)}
    enum = {"dr": std.DivideRatio, "encoding": std.TagEncoding}
    for k, (v, attr, dv) in vals.items():
        conv = enum[k].__getitem__ if k in enum else (lambda x: x)
        setattr(p, attr, conv(dv))
        if ctx.choose(k + " given", [True, False]):
            given[k], eff[k] = conv(v), v
        else:
            eff[k] = dv
    trcal = ctx.real("trcal", 0, None, lo_open=True)
    if ctx.choose("trcal given", [True, False]):
        given["trcal"] = trcal
        p.trcal = ctx.real("default trcal", 0, None, lo_open=True)
    else:
        p.trcal = trcal
    p.default_epc = "AB" * 5
    p.read_default_word_count = 7
    pb = preamble_bits(eff["encoding"], eff["trext"])
    k = SYM[eff["encoding"]]
    R = std.ReplyType
    for name, t, n in (("query_reply_duration", R.QUERY_REPLY, 16),
                       ("ack_reply_duration", R.ACK_REPLY, 32 + 40),
                       ("reqrn_reply_duration", R.REQRN_REPLY, 32),
                       ("read_reply_duration", R.READ_REPLY, 33 + 112)):
        want = (pb + n + 1) * k * trcal
        ctx.eq(getattr(std, name)(**given) * DR[eff["dr"]], want, "defaults of a helper")
        ctx.eq(std.reply_duration(t, **given) * DR[eff["dr"]], want, "defaults by type")
    short = {a: b for a, b in given.items() if a in ("encoding", "trext")}
    ctx.check(std.tag_preamble_bitlen(**short) == pb, "default preamble")
    # without a frequency the one of the defaults is meant
    blf0 = std.get_blf()
    ctx.eq(std.tag_preamble_duration(**short) * blf0, pb * k, "default preamble duration")
    ctx.eq(std.tag_frame_duration(std.QueryReply(1), **short) * blf0, (pb + 17) * k,
           "default frame duration")


def bad(ctx):
    """Payloads that are no bytes are refused."""
    v = ctx.int("value", -300, 600)
    try:
        r = std.AckReply([1, v])
    except ValueError:
        ctx.check(ctx.or_(v < 0, v > 255), "a byte was refused")
        return
    ctx.check(ctx.and_(v >= 0, v <= 255), "not a byte but accepted")
    ctx.check(r.bitlen == 48, "length of a byte list")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("frames", frame(4 if q else 40),
                 reach=["reply length", "frame length", "frame duration",
                        "frame duration helper"]),
        Scenario("together", together, reach=["a preamble keeps its length",
                                              "a frame keeps its duration"]),
        Scenario("helpers", helpers, reach=["helper duration", "by reply type", "bit rate"]),
        Scenario("agreement", agree(6 if q else 64), reach=["helper agrees with the frame"]),
        Scenario("defaults", defaults, reach=["defaults of a helper", "defaults by type"]),
        Scenario("not bytes", bad, reach=["a byte was refused", "not a byte but accepted"]),
    ]
