"""E06: slot duration estimates."""
import math

import pysim.models.rfid.epcstd as std
from harness import bits
from harness.e03 import window
from harness.e04 import preamble_bits
from harness.e05 import DR, away, limits, same
from symx.runner import Scenario

SYM = {"FM0": 1, "M2": 2, "M4": 4, "M8": 8}
BOUNDS = [
    "Tari any positive real, RTcal any in 2..3 Tari, TRcal any in 1.1..3 RTcal, any delimiter; "
    "both divide ratios, temperature ranges, all slot types, first and later slots",
    "encoding, preamble, selection, session, target: all values (in groups); Q, CRC-5: "
    "representative values of every number of ones (thorough: all); RN16 and CRC-16: 4 (quick) "
    "/ 8 (thorough) neighbouring bits take all values over backgrounds of zeros and ones",
    "EPCs of 0..4 and 12 bytes, up to two read operations",
    "printed table: concrete link parameters of a list",
]
OUTSIDE = ["timings outside the ranges of the air protocol for the ordering and the brackets",
           "the round estimators, which the code leaves empty"]
ASSUME = ["real arithmetic instead of doubles, equality up to relative 1e-9"]


def timing(ctx, pairs=None):
    # a number that is drawn where none is given: either extreme
    ctx.rt.on_int = lambda lo, hi: ctx.choose("drawn number", [hi, lo])
    tari = ctx.real("tari", 0, None, lo_open=True)
    rtcal = ctx.real("rtcal", 0, None, lo_open=True)
    trcal = ctx.real("trcal", 0, None, lo_open=True)
    delim = ctx.real("delim", 0, None, lo_open=True)
    pairs = pairs or [(d, x) for d in DR for x in ("NOMINAL", "EXTENDED")]
    dr, temp = ctx.choose("dr and temperature", pairs)
    away(ctx, dr, temp, trcal, tari >= 1e-6, rtcal >= 2 * tari, rtcal <= 3 * tari,
         trcal >= 1.1 * rtcal, trcal <= 3 * rtcal)
    return dict(tari=tari, rtcal=rtcal, trcal=trcal, delim=delim), dr, temp


def mx(ctx, a, b):
    return ctx.ite(a > b, a, b)


def reply_time(dr, trcal, m, trext, n):
    return (preamble_bits(m, trext) + n + 1) * SYM[m] * trcal / DR[dr]


def reference(ctx, slot, t, dr, temp, m, trext, query, rn, epc_bytes, ops):
    """Duration of a slot from its parts; query and rn are bit strings."""
    lo, hi = limits(ctx, t["rtcal"], t["trcal"], dr, temp)
    t1, t1max, t2, t3, t4 = lo[0], hi[0], lo[1], lo[2], lo[3]
    tq = bits.frame_time(query, **t)
    if slot == "EMPTY":
        return tq + mx(ctx, t1max + t3, t4)
    rn16 = reply_time(dr, t["trcal"], m, trext, 16)
    d = tq + mx(ctx, t1 + rn16 + t2, t4)
    if slot == "COLLISION":
        return d
    ack = bits.frame_time(bits.enc_ack(rn), **t)
    d = d + ack + mx(ctx, t1 + reply_time(dr, t["trcal"], m, trext, 32 + 8 * epc_bytes) + t2,
                     t4)
    if slot == "INVENTORY":
        return d
    for bank, ptr, wc, crc in ops:
        cmd = bits.frame_time(bits.enc_read(bank, ptr, wc, rn, crc), **t)
        d = d + cmd + mx(ctx, t1 + reply_time(dr, t["trcal"], m, trext, 33 + 16 * wc) + t2, t4)
    return d


def make_ops(ctx, n):
    ops, plain = [], []
    for _ in range(n):
        op = std.TagReadOp()
        bank, ptr, wc = ctx.choose("op", [("TID", 0, 4), ("USER", 200, 0), ("EPC", 1, 255)])
        op.bank, op.word_ptr, op.word_count = std.MemoryBank[bank], ptr, wc
        ops.append(op)
        plain.append((bank, ptr, wc))
    return ops, plain


TYPES = ["EMPTY", "COLLISION", "INVENTORY", "ACCESS"]


def formula(group):
    def fn(ctx):
        t, dr, temp = timing(ctx)
        slot = ctx.choose("slot", TYPES)
        m, trext, flags = "M4", True, ("SEL", "S2", "B")
        q, crc5, rn, nb, first, nops = 9, 21, 0xA001, 3, True, None
        if group == "link":
            m, trext = ctx.choose("encoding", list(SYM)), ctx.choose("trext", [False, True])
        elif group == "command":
            first = ctx.choose("first", [False, True])
            flags = ctx.choose("flags", [("ALL", "S0", "A"), ("SEL", "S3", "B"),
                                         ("NOT_SEL", "S1", "B")])
            q, crc5 = ctx.choose("q crc", [(0, 31), (15, 0)])
            rn = ctx.choose("rn", [0, 0xFFFF])
        else:
            nb = ctx.choose("epc bytes", [None, 0, 3])
            nops = ctx.choose("operations", [None, 0, 2]) if slot == "ACCESS" else None
        sel, ses, target = flags
        ops, plain = (None, []) if nops is None else make_ops(ctx, nops)
        query = bits.enc_query(dr, m, trext, sel, ses, target, q, crc5) if first \
            else bits.enc_rep(ses)
        want = reference(ctx, slot, t, dr, temp, m, trext, query, rn,
                         12 if nb is None else nb, [(b, p, c, 0x8001) for b, p, c in plain])
        got = std.slot_duration(
            std.SlotType[slot], access_ops=ops, dr=std.DivideRatio[dr],
            temp=std.TempRange[temp], m=std.TagEncoding[m], trext=trext,
            sel=std.SelFlag[sel], session=std.Session[ses], target=std.InventoryFlag[target],
            q=q, rn=rn, epc=None if nb is None else "AB" * nb, crc5=crc5, crc16=0x8001,
            is_first=first, **t)
        ctx.eq(got, want, "duration of a slot")
    return fn


def order(full):
    def fn(ctx):
        t, dr, temp = timing(ctx)
        first = ctx.choose("first", [False, True])
        m, trext = ctx.choose("encoding", list(SYM) if full else ["FM0", "M8"]), \
            ctx.choose("trext", [False, True])
        ops, _ = make_ops(ctx, ctx.choose("operations", [0, 1, 2] if full else [0, 1]))
        kw = dict(dr=std.DivideRatio[dr], temp=std.TempRange[temp], m=std.TagEncoding[m],
                  trext=trext, rn=0, is_first=first, **t)
        T = std.SlotType
        c = std.slot_duration(T.COLLISION, **kw)
        i = std.slot_duration(T.INVENTORY, **kw)
        a = std.slot_duration(T.ACCESS, access_ops=ops, **kw)
        ctx.le(c, i, "collision not longer than inventory")
        ctx.le(i, a, "inventory not longer than access")
        ctx.eq(std.slot_duration(T.ACCESS, access_ops=None, **kw), i,
               "access without operations is inventory")
        kw2 = {k: v for k, v in kw.items() if k not in ("m", "trext", "rn")}
        for f in (std.slot_duration_min, std.slot_duration_max):
            c, i = f(T.COLLISION, **kw2), f(T.INVENTORY, **kw2)
            ctx.le(c, i, "collision not longer than inventory")
            ctx.le(i, f(T.ACCESS, access_ops=ops, **kw2), "inventory not longer than access")
    return fn


LOW = dict(m="FM0", trext=False, sel="ALL", session="S0", target="A", q=0, crc5=0, rn=0,
           crc16=0)
HIGH = dict(m="M8", trext=True, sel="SEL", session="S3", target="B", q=15, crc5=31, rn=0xFFFF,
            crc16=0xFFFF)


def bracket(w, full):
    def fn(ctx):
        t, dr, temp = timing(ctx, None if full else [("DR_8", "NOMINAL"),
                                                     ("DR_643", "EXTENDED")])
        slot = ctx.choose("slot", TYPES)
        first = ctx.choose("first", [True, False])
        ops = None
        if slot == "ACCESS":
            ops, _ = make_ops(ctx, 1 if full else 0)
            if not full:
                ops = [std.TagReadOp()]
                ops[0].word_count = 3
        kw = dict(access_ops=ops, dr=std.DivideRatio[dr], temp=std.TempRange[temp],
                  epc=ctx.choose("epc", [None, "00" * 3] if full else ["0123"]),
                  is_first=first, **t)
        v = dict(ctx.choose("base", [LOW, HIGH]))
        groups = ["session", "link"]
        if first:
            groups += ["sel", "target", "q", "crc5"]
        if slot in ("INVENTORY", "ACCESS"):
            groups += ["rn"]
        if slot == "ACCESS":
            groups += ["crc16"]
        group = ctx.choose("varied", groups)
        if group == "link":
            v["m"], v["trext"] = ctx.choose("m", list(SYM)), ctx.choose("trext", [False, True])
        elif group in ("rn", "crc16"):
            v[group] = window(ctx, group, 16, w) if full else \
                ctx.choose(group, [0, 1, 0x8000, 0x5A5A, 0x7FFF, 0xFFFE, 0xFFFF])
        else:
            v[group] = ctx.choose(group, {
                "sel": list(bits.SEL.values()), "session": list(bits.SESSION.values()),
                "target": ["A", "B"], "q": list(range(16)) if full else [0, 1, 7, 8, 15],
                "crc5": list(range(32)) if full else [0, 1, 15, 16, 31]}[group])
        got = std.slot_duration(
            std.SlotType[slot], m=std.TagEncoding[v["m"]], trext=v["trext"],
            sel=std.SelFlag[v["sel"]], session=std.Session[v["session"]],
            target=std.InventoryFlag[v["target"]], q=v["q"], rn=v["rn"], crc5=v["crc5"],
            crc16=v["crc16"], **kw)
        ctx.le(std.slot_duration_min(std.SlotType[slot], **kw), got, "above the minimum")
        ctx.le(got, std.slot_duration_max(std.SlotType[slot], **kw), "below the maximum")
    return fn


def drawn(ctx):
    """An RN16 that is not given is drawn; the duration is that of the drawn one."""
    t, dr, temp = timing(ctx)
    v = ctx.choose("drawn", [0, 1, 0x8000, 0xFFFE, 0xFFFF])
    ranges = []

    def draw(lo, hi):
        ranges.append((lo, hi))
        return v
    ctx.rt.on_int = draw
    kw = dict(dr=std.DivideRatio[dr], temp=std.TempRange[temp], **t)
    a = std.slot_duration(std.SlotType.INVENTORY, **kw)
    if ranges:
        ctx.check(ranges[0][0] == 0 and ranges[0][1] == 0xFFFF, "range of the drawn RN16")
        b = std.slot_duration(std.SlotType.INVENTORY, rn=v, **kw)
        ctx.eq(a, b, "duration with a drawn RN16")
    ctx.reach("drawn")


def table(group):
    def fn(ctx):
        t, dr, temp = timing(ctx)
        m, trext, sel, ses, target, q = "M2", True, "SEL", "S3", "B", 9
        (bank, ptr, wc), rn, crc, epc, mem = ("USER", 200, 255), 0x1234, 0x11, "0011", "A1B2C3"
        if group == "link":
            m, trext = ctx.choose("encoding", list(SYM)), ctx.choose("trext", [False, True])
            epc, mem = ctx.choose("data", [("", "A1B2"), ("00112233", "")])
        else:
            sel, ses, target = ctx.choose("flags", [("ALL", "S0", "A"), ("NOT_SEL", "S1", "A")])
            q = ctx.choose("q", [0, 15])
            bank, ptr, wc = ctx.choose("read", [("TID", 0, 4), ("EPC", 16384, 255)])
            rn, crc = ctx.choose("rn crc", [(0, 0x1F), (0xFFFF, 0)])
        g = std.get_elementary_timings(
            temp=std.TempRange[temp], dr=std.DivideRatio[dr], m=std.TagEncoding[m],
            trext=trext, sel=std.SelFlag[sel], session=std.Session[ses],
            target=std.InventoryFlag[target], q=q, bank=std.MemoryBank[bank], word_ptr=ptr,
            word_count=wc, rn=rn, crc=crc, epc=epc, mem=mem, **t)
        lo, hi = limits(ctx, t["rtcal"], t["trcal"], dr, temp)
        for key, want in (("Tari", t["tari"]), ("RTcal", t["rtcal"]), ("TRcal", t["trcal"]),
                          ("Delim", t["delim"])):
            ctx.eq(g[key], want, "parameters of the table")
        for key, s in (("Query", bits.enc_query(dr, m, trext, sel, ses, target, q, crc % 32)),
                       ("QueryRep", bits.enc_rep(ses)), ("ACK", bits.enc_ack(rn)),
                       ("ReqRN", bits.enc_req(rn, crc)),
                       ("Read", bits.enc_read(bank, ptr, wc, rn, crc))):
            ctx.eq(g[key], bits.frame_time(s, **t), "commands of the table", key)
        for key, n in (("RN16", 16), ("Response", 32 + 4 * len(epc)), ("Handle", 32),
                       ("Data", 33 + 4 * len(mem))):
            ctx.eq(g[key] * DR[dr], (preamble_bits(m, trext) + n + 1) * SYM[m] * t["trcal"],
                   "replies of the table", key)
        for i in range(7):
            same(ctx, g[f"T{i + 1}(min)"], lo[i], "timings of the table")
            same(ctx, g[f"T{i + 1}(max)"], hi[i], "timings of the table")
    return fn


def listing(ctx):
    """The printed table shows every entry with its own value, times in microseconds."""
    m, trext = ctx.choose("encoding", list(SYM)), ctx.choose("trext", [False, True])
    tari = ctx.choose("tari", [6.25e-6, 12.5e-6, 25e-6])
    k = ctx.choose("ratio", [2.5, 3.0])
    g = std.get_elementary_timings(
        tari=tari, rtcal=k * tari, trcal=1.25 * k * tari, delim=12.5e-6,
        temp=ctx.choose("temp", list(std.TempRange)), dr=std.DivideRatio.DR_8,
        m=std.TagEncoding[m], trext=trext, sel=ctx.choose("sel", list(std.SelFlag)),
        session=ctx.choose("session", list(std.Session)), target=std.InventoryFlag.A,
        q=ctx.choose("q", [0, 7]), bank=std.MemoryBank.TID, word_ptr=3, word_count=5,
        rn=0x1234, crc=0x11, epc="0011", mem="A1B2C3")
    lines = [ln for ln in std.prettify_elementary_timings(dict(g)).split("\n") if ln.strip()]
    shown = dict((a.strip(), b.strip()) for a, b in (ln.split(":", 1) for ln in lines))
    ctx.check(len(shown) == len(lines), "one line per entry", f"{lines}")
    ctx.check(set(shown) <= set(g), "only entries of the table are printed", f"{set(shown)}")
    times = {"Tari", "TRcal", "RTcal", "Delim", "Query", "QueryRep", "ACK", "ReqRN", "Read",
             "RN16", "Response", "Handle", "Data"} | {f"T{i}({e})" for i in range(1, 8)
                                                       for e in ("min", "max")}
    for key in times:
        ctx.check(key in shown, "every time is printed", key)
        number, unit = shown[key].split()
        ctx.check(unit == "us", "unit of a time", shown[key])
        want = g[key] * 1e6
        ok = float(number) == want if want in (float("inf"), float("-inf")) \
            else abs(float(number) - want) <= 1e-7 * max(1, abs(want))
        ctx.check(ok, "every time is shown in microseconds", f"{key}: {shown[key]} for {want}")
    for key in set(shown) - times:
        ctx.check(shown[key] == str(g[key]), "other entries are shown as they are",
                  f"{key}: {shown[key]}")
    ctx.reach("printed")


def scenarios(tier):
    q = tier == "quick"
    w = 4 if q else 8
    return [
        Scenario("formula, link", formula("link"), reach=["duration of a slot"]),
        Scenario("formula, command", formula("command"), reach=["duration of a slot"]),
        Scenario("formula, replies", formula("replies"), reach=["duration of a slot"]),
        Scenario("order", order(not q), reach=["collision not longer than inventory",
                                               "inventory not longer than access"]),
        Scenario("brackets", bracket(w, not q), reach=["above the minimum", "below the maximum"]),
        Scenario("listing", listing, reach=["printed"]),
        Scenario("drawn", drawn, reach=["drawn"]),
        Scenario("table, link", table("link"), reach=["replies of the table",
                                                      "timings of the table"]),
        Scenario("table, commands", table("commands"), reach=["commands of the table"]),
    ]
