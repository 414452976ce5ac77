"""E03: reader frame durations are the sum of their symbol durations."""
import pysim.models.rfid.epcstd as std
from harness import bits
from symx.runner import Scenario

BOUNDS = [
    "Tari, RTcal, TRcal and the delimiter: any positive reals with Tari < RTcal",
    "frames: every bit string of up to 6 (quick) / 10 (thorough) bits, with either preamble",
    "commands: all values of the enumerated fields; in every number field any 4 (quick) / 8 "
    "(thorough) neighbouring bits take all values while the remaining ones are all 0 or all 1",
    "every subset of the timing arguments left at its system-wide default, itself any real",
]
OUTSIDE = ["numbers of the fields beyond the sliding window",
           "bits are split by the solver into concrete strings, because the code counts "
           "characters; the durations stay symbolic"]
ASSUME = ["real arithmetic instead of doubles, equality up to relative 1e-9"]


def times(ctx):
    tari = ctx.real("tari", 0, None, lo_open=True)
    rtcal = ctx.real("rtcal", 0, None, lo_open=True)
    trcal = ctx.real("trcal", 0, None, lo_open=True)
    delim = ctx.real("delim", 0, None, lo_open=True)
    ctx.assume(tari < rtcal)
    return {"tari": tari, "rtcal": rtcal, "trcal": trcal, "delim": delim}


def window(ctx, name, width, w):
    """A number whose bits are one background value outside a window of w symbolic bits."""
    w = min(w, width)
    starts = sorted(set(list(range(0, width - w + 1, w)) + [width - w]))
    back = ctx.choose(name + " background", [0, 1])
    at = ctx.choose(name + " window", starts)
    v = ctx.int(name + " bits", 0, 2 ** w - 1)
    v = int(ctx.ex.concretize(v.e)) if hasattr(v, 'e') else v
    base = (2 ** width - 1) if back else 0
    mask = (2 ** w - 1) << at
    return (base & ~mask) | (v << at)


def frame(n):
    def fn(ctx):
        t = times(ctx)
        length = ctx.choose("length", list(range(0, n + 1)))
        s = "".join(ctx.choose("bit", ["0", "1"]) for _ in range(length))
        full = ctx.choose("preamble", ["full", "sync"])
        if full == "full":
            p = std.ReaderPreamble(tari=t["tari"], rtcal=t["rtcal"], trcal=t["trcal"],
                                   delim=t["delim"])
            head = t["delim"] + t["tari"] + t["rtcal"] + t["trcal"]
        else:
            p = std.ReaderSync(tari=t["tari"], rtcal=t["rtcal"], delim=t["delim"])
            head = t["delim"] + t["tari"] + t["rtcal"]
        f = std.ReaderFrame(p, s)
        body = s.count("0") * t["tari"] + s.count("1") * (t["rtcal"] - t["tari"])
        ctx.eq(f.preamble_duration, head, "preamble duration")
        ctx.eq(f.body_duration, body, "body duration")
        ctx.eq(f.duration, head + body, "frame duration")
        ctx.eq(p.data0, t["tari"], "data-0")
        ctx.eq(p.data1, t["rtcal"] - t["tari"], "data-1")
    return fn


def names(ctx, enum):
    return ctx.choose(enum.__name__, list(enum.__members__))


def commands(w, kinds):
    def fn(ctx):
        t = times(ctx)
        kind = ctx.choose("command", kinds)
        C = std.CommandCode
        kw = {}
        if kind == "query":
            f = dict(dr=names(ctx, std.DivideRatio), m=names(ctx, std.TagEncoding),
                     trext=ctx.choose("trext", [False, True]), sel=names(ctx, std.SelFlag),
                     session=ctx.choose("session", ["S0", "S3"]), target=names(ctx, std.InventoryFlag),
                     q=ctx.choose("q", [0, 1, 2, 4, 7, 8, 15]),
                     crc=ctx.choose("crc", [0, 1, 21, 31]))
            s = bits.enc_query(**f)
            kw = dict(dr=std.DivideRatio[f["dr"]], m=std.TagEncoding[f["m"]],
                      trext=f["trext"], sel=std.SelFlag[f["sel"]],
                      session=std.Session[f["session"]],
                      target=std.InventoryFlag[f["target"]], q=f["q"])
            cmd, helper = std.Query(crc=f["crc"], **kw), std.query_duration
            hk, dk, code = dict(kw, crc=f["crc"]), dict(kw, crc5=f["crc"]), C.QUERY
        elif kind == "rep":
            ses = names(ctx, std.Session)
            s = bits.enc_rep(ses)
            hk = dk = dict(session=std.Session[ses])
            cmd, helper, code = std.QueryRep(**hk), std.query_rep_duration, C.QUERY_REP
        elif kind == "adjust":
            ses, u = names(ctx, std.Session), ctx.choose("updn", [-1, 0, 1])
            s = bits.enc_adjust(ses, u)
            hk = dict(session=std.Session[ses], updn=u)
            dk = dict(session=std.Session[ses]) if u == 0 else None
            cmd, helper, code = std.QueryAdjust(**hk), std.query_adjust_duration, C.QUERY_ADJUST
        elif kind == "ack":
            hk = dk = dict(rn=window(ctx, "rn", 16, w))
            s = bits.enc_ack(hk["rn"])
            cmd, helper, code = std.Ack(**hk), std.ack_duration, C.ACK
        elif kind == "req":
            which = ctx.choose("varies", ["rn", "crc"])
            hk = {"rn": 0x1234, "crc": 0x0F01}
            hk[which] = window(ctx, which, 16, w)
            s = bits.enc_req(hk["rn"], hk["crc"])
            dk = dict(rn=hk["rn"], crc16=hk["crc"])
            cmd, helper, code = std.ReqRN(**hk), std.reqrn_duration, C.REQ_RN
        else:
            which = ctx.choose("varies", ["rn", "crc", "word_count", "word_ptr"])
            bank = names(ctx, std.MemoryBank) if which != "crc" else "TID"
            hk = {"rn": 0x1234, "crc": 0x0F01, "word_count": 3, "word_ptr": 0}
            hk[which] = window(ctx, which, {"word_count": 8, "word_ptr": 14}.get(which, 16), w)
            s = bits.enc_read(bank, hk["word_ptr"], hk["word_count"], hk["rn"], hk["crc"])
            hk["bank"] = std.MemoryBank[bank]
            dk = {k: v for k, v in hk.items() if k != "crc"}
            dk["crc16"] = hk["crc"]
            cmd, helper, code = std.Read(**hk), std.read_duration, C.READ
        want = bits.frame_time(s, **t)
        ctx.eq(std.reader_frame_duration(cmd, **t), want, f"frame of a command")
        ctx.eq(std.reader_frame_duration(s, **t), want, f"frame of a bit string")
        ht = dict(t)
        if kind == "adjust":
            ht.pop("trcal")
        ctx.eq(helper(**ht, **hk), want, "helper")
        if dk is not None:
            ctx.eq(std.command_duration(code, **t, **dk), want, "by command code")
    return fn


def defaults(ctx):
    """Arguments left out stand for the system-wide defaults."""
    t = times(ctx)
    given, eff = {}, {}
    for k in t:
        if ctx.choose(k + " given", [True, False]):
            given[k] = eff[k] = t[k]
        else:
            eff[k] = ctx.real("default " + k, 0, None, lo_open=True)
            setattr(std.stdParams, k, eff[k])
    p = std.stdParams
    p.session = std.Session.S2
    p.default_rn, p.default_crc16, p.default_crc5 = 0x0102, 0x7001, 0x13
    p.Q, p.trext, p.divide_ratio = 5, True, std.DivideRatio.DR_643
    p.tag_encoding, p.sel, p.target = std.TagEncoding.M4, std.SelFlag.SEL, std.InventoryFlag.B
    p.read_default_bank, p.read_default_word_ptr = std.MemoryBank.USER, 130
    p.read_default_word_count = 9
    C = std.CommandCode
    s, helper, code = {
        "query": (bits.enc_query("DR_643", "M4", True, "SEL", "S2", "B", 5, 0x13),
                  std.query_duration, C.QUERY),
        "rep": (bits.enc_rep("S2"), std.query_rep_duration, C.QUERY_REP),
        "adjust": (bits.enc_adjust("S2", 0), std.query_adjust_duration, C.QUERY_ADJUST),
        "req": (bits.enc_req(0x0102, 0x7001), std.reqrn_duration, C.REQ_RN),
        "ack": (bits.enc_ack(0x0102), std.ack_duration, C.ACK),
        "read": (bits.enc_read("USER", 130, 9, 0x0102, 0x7001), std.read_duration, C.READ),
    }[ctx.choose("command", ["query", "rep", "adjust", "req", "ack", "read"])]
    want = bits.frame_time(s, **eff)
    hk = {k: v for k, v in given.items() if not (code is C.QUERY_ADJUST and k == "trcal")}
    ctx.eq(helper(**hk), want, "helper with defaults")
    ctx.eq(std.command_duration(code, **given), want, "by command code with defaults")
    ctx.eq(std.reader_frame_duration(s, **given), want, "frame with defaults")


def unknown(ctx):
    """Anything that is no command code is refused."""
    bad = ctx.choose("code", [None, "1000", 7])
    try:
        std.command_duration(bad)
    except ValueError:
        ctx.reach("refused")
        return
    ctx.fail("unknown command code accepted", repr(bad))


def scenarios(tier):
    q = tier == "quick"
    w = 4 if q else 8
    out = [
        Scenario("frames", frame(6 if q else 10),
                 reach=["frame duration", "body duration", "preamble duration"]),
        Scenario("defaults", defaults, reach=["helper with defaults", "by command code with defaults"]),
        Scenario("unknown code", unknown, reach=["refused"]),
    ]
    for k in ("query", "rep", "adjust", "ack", "req", "read"):
        out.append(Scenario(k, commands(w, [k]),
                            reach=["frame of a command", "helper", "by command code"]))
    return out
