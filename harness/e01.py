"""E01: reader commands encode to the standard's bit fields, losslessly."""
import pysim.models.rfid.epcstd as std
from harness.bits import decode, is_bits
from harness.e03 import window
from symx.runner import Scenario

BOUNDS = [
    "every value of every field: RN and CRC-16 any 16-bit number, word count any byte, Q any of "
    "0..15, CRC-5 any of 0..31, word pointers up to 2^21 (quick) / 2^35 (thorough), all "
    "enumerated fields; every subset of fields left at its default",
    "only where the code splits on every bit (not so on the current tree), after a minute: in "
    "each number field any 4 neighbouring bits, the other fields all zeros or all ones",
]
OUTSIDE = ["field values that do not fit their field", "flags other than true and false"]
ASSUME = ["the reference decoder is written from the Gen2 command tables"]


def names(enum):
    return list(enum.__members__)


def compare(ctx, cmd, want, length):
    s = cmd.encode()
    ctx.check(is_bits(s), "a bit string", f"{s!r}")
    got = decode(s)
    ctx.check(got is not None, "decodable", f"{s!r}")
    if got is None:
        return
    for k, v in want.items():
        ctx.check(got[k] is not None, "valid field code", k)
        ctx.eq(got[k], v, f"field {k}")
    ctx.check(len(s) == length, "length", f"{len(s)} instead of {length}")
    ctx.check(cmd.bitlen == length, "reported bit length", f"{cmd.bitlen}")


def choose_enum(ctx, enum):
    n = ctx.choose(enum.__name__, names(enum))
    return n, enum[n]


def query(ctx):
    (dn, dr), (mn, m) = choose_enum(ctx, std.DivideRatio), choose_enum(ctx, std.TagEncoding)
    trext = ctx.choose("trext", [False, True])
    (sn, sel), (en, ses) = choose_enum(ctx, std.SelFlag), choose_enum(ctx, std.Session)
    tn, target = choose_enum(ctx, std.InventoryFlag)
    q, crc = ctx.int("q", 0, 15), ctx.int("crc", 0, 31)
    cmd = std.Query(dr=dr, m=m, trext=trext, sel=sel, session=ses, target=target, q=q, crc=crc)
    compare(ctx, cmd, {"command": "QUERY", "dr": dn, "m": mn, "trext": int(trext), "sel": sn,
                       "session": en, "target": tn, "q": q, "crc": crc}, 22)


def query_defaults(ctx):
    """Fields left out take the system-wide defaults, wherever those are set."""
    p = std.stdParams
    kw = {}
    given = {"dr": std.DivideRatio.DR_643, "m": std.TagEncoding.M8, "trext": True,
             "sel": std.SelFlag.SEL, "session": std.Session.S3,
             "target": std.InventoryFlag.B, "q": ctx.int("q", 0, 15),
             "crc": ctx.int("crc", 0, 31)}
    default = {"dr": p.divide_ratio, "m": p.tag_encoding, "trext": p.trext, "sel": p.sel,
               "session": p.session, "target": p.target, "q": p.Q, "crc": p.default_crc5}
    for k in given:
        if ctx.choose("given", [False, True]):
            kw[k] = given[k]
    eff = dict(default, **kw)
    name = {id(x): n for e in (std.DivideRatio, std.TagEncoding, std.SelFlag, std.Session,
                               std.InventoryFlag) for n, x in e.__members__.items()}
    want = {k: (name[id(v)] if id(v) in name and k in ("dr", "m", "sel", "session", "target")
                else v) for k, v in eff.items()}
    want["trext"] = int(eff["trext"])
    compare(ctx, std.Query(**kw), dict(want, command="QUERY"), 22)


def small(ctx):
    en, ses = choose_enum(ctx, std.Session)
    if ctx.choose("command", ["rep", "adjust"]) == "rep":
        compare(ctx, std.QueryRep(session=ses), {"command": "QUERY_REP", "session": en}, 4)
    else:
        u = ctx.choose("updn", [-1, 0, 1])
        compare(ctx, std.QueryAdjust(session=ses, updn=u),
                {"command": "QUERY_ADJUST", "session": en, "updn": u}, 9)


def numbers(ctx):
    rn, crc = ctx.int("rn", 0, 65535), ctx.int("crc", 0, 65535)
    if ctx.choose("command", ["ack", "req"]) == "ack":
        compare(ctx, std.Ack(rn), {"command": "ACK", "rn": rn}, 18)
    else:
        compare(ctx, std.ReqRN(rn, crc), {"command": "REQ_RN", "rn": rn, "crc": crc}, 40)


def some(ctx, widths):
    """One field any value in any 4 neighbouring bits, the others all zeros or all ones."""
    one = ctx.choose("field", list(widths))
    out = {}
    for k, n in widths.items():
        out[k] = window(ctx, k, n, 4) if k == one else \
            ctx.choose(k + " others", [0, 2 ** n - 1])
    return out


def numbers_narrow(ctx):
    if ctx.choose("command", ["ack", "req"]) == "ack":
        v = some(ctx, {"rn": 16})
        compare(ctx, std.Ack(v["rn"]), {"command": "ACK", "rn": v["rn"]}, 18)
    else:
        v = some(ctx, {"rn": 16, "crc": 16})
        compare(ctx, std.ReqRN(v["rn"], v["crc"]), {"command": "REQ_RN", **v}, 40)


def read_narrow(maxbits):
    def fn(ctx):
        bn, bank = choose_enum(ctx, std.MemoryBank)
        v = some(ctx, {"rn": 16, "crc": 16, "word_count": 8, "word_ptr": maxbits})
        blocks = 1
        while not v["word_ptr"] < 128 ** blocks:
            blocks += 1
        compare(ctx, std.Read(bank=bank, **v), {"command": "READ", "bank": bn, **v,
                                                "blocks": blocks}, 50 + 8 * blocks)
    return fn


def query_narrow(ctx):
    (dn, dr), (mn, m) = choose_enum(ctx, std.DivideRatio), choose_enum(ctx, std.TagEncoding)
    trext = ctx.choose("trext", [False, True])
    (sn, sel), (en, ses) = choose_enum(ctx, std.SelFlag), choose_enum(ctx, std.Session)
    tn, target = choose_enum(ctx, std.InventoryFlag)
    q, crc = ctx.choose("q and crc", [(k, c) for k in range(16) for c in (0, 31)] +
                        [(k, c) for c in range(32) for k in (0, 15)])
    cmd = std.Query(dr=dr, m=m, trext=trext, sel=sel, session=ses, target=target, q=q, crc=crc)
    compare(ctx, cmd, {"command": "QUERY", "dr": dn, "m": mn, "trext": int(trext), "sel": sn,
                       "session": en, "target": tn, "q": q, "crc": crc}, 22)


def read(maxbits):
    def fn(ctx):
        bn, bank = choose_enum(ctx, std.MemoryBank)
        rn, crc = ctx.int("rn", 0, 65535), ctx.int("crc", 0, 65535)
        wc, ptr = ctx.int("word_count", 0, 255), ctx.int("word_ptr", 0, 2 ** maxbits - 1)
        cmd = std.Read(bank=bank, word_ptr=ptr, word_count=wc, rn=rn, crc=crc)
        blocks = 1
        while not ptr < 128 ** blocks:
            blocks += 1
        compare(ctx, cmd, {"command": "READ", "bank": bn, "word_ptr": ptr, "word_count": wc,
                           "rn": rn, "crc": crc, "blocks": blocks}, 50 + 8 * blocks)
    return fn


def distinct(ctx):
    """Two commands with the same encoding are the same command (direct form)."""
    kind = ctx.choose("kind", ["ack", "req", "read"])
    a = {k: ctx.int("a" + k, 0, 65535) for k in ("rn", "crc")}
    b = {k: ctx.int("b" + k, 0, 65535) for k in ("rn", "crc")}
    if kind == "ack":
        x, y, keys = std.Ack(a["rn"]), std.Ack(b["rn"]), ["rn"]
    elif kind == "req":
        x, y, keys = std.ReqRN(a["rn"], a["crc"]), std.ReqRN(b["rn"], b["crc"]), ["rn", "crc"]
    else:
        p, r = ctx.int("awc", 0, 255), ctx.int("bwc", 0, 255)
        a["wc"], b["wc"] = p, r
        x = std.Read(std.MemoryBank.TID, 0, p, a["rn"], a["crc"])
        y = std.Read(std.MemoryBank.TID, 0, r, b["rn"], b["crc"])
        keys = ["rn", "crc", "wc"]
    from harness.bits import bit
    sx, sy = x.encode(), y.encode()
    ctx.check(len(sx) == len(sy), "same length")
    same = ctx.and_(*[bit(c) == bit(d) for c, d in zip(sx, sy)])
    fields = ctx.and_(*[a[k] == b[k] for k in keys])
    ctx.check(ctx.implies(same, fields), "same encoding means same fields")


def scenarios(tier):
    q = tier == "quick"
    out = [
        Scenario("query", query, reach=["field q", "field crc", "length"], narrow=Scenario(
            "query in parts", query_narrow, reach=["field q", "field crc", "length"])),
        Scenario("query defaults", query_defaults, reach=["field q", "field session"]),
        Scenario("repeat and adjust", small, reach=["field session", "field updn"]),
        Scenario("numbers", numbers, path_s=120, reach=["field rn", "field crc"],
                 narrow=Scenario("numbers in parts", numbers_narrow, reach=["field rn"])),
        Scenario("read", read(21 if q else 35), path_s=200, query_ms=60000,
                 reach=["field word_ptr", "field word_count", "field bank"], narrow=Scenario(
                     "read in parts", read_narrow(21 if q else 35),
                     reach=["field word_ptr", "field word_count", "field bank"])),
    ]
    if not q:
        out.append(Scenario("distinct", distinct, path_s=600, query_ms=400000,
                            reach=["same encoding means same fields"]))
    return out
