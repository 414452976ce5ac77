"""G04: message splitting and the per-state inputs of the tag-time models."""
import numpy as np

import pysim.models.rfid.epcstd as std
import pysim.models.tag_time.calculate_params as cp
from harness.e04 import DR, SYM, preamble_bits
from harness.e05 import away, limits
from symx.runner import Scenario

BOUNDS = [
    "splitting: any number of words from 0 to 100000 (symbolic), 1 to 16 chunks (thorough: 64)",
    "inputs: Tari symbolic in [6.25, 25] us, both divide ratios, all encodings, both preambles, "
    "1 to 4 chunks, messages of 0 to 33 words (words per chunk 0 to 33)",
    "random identifiers of 0 to 12 bytes, the draws at the ends of their range and between",
    "success probabilities: bit error rate symbolic in [0, 1) per point, 1 to 3 points, reply "
    "lengths of 1 to 97 bits; and the frames' own lengths with concrete rates",
]
OUTSIDE = ["TRcal within 1e-12 s of a boundary of the tolerance table", "more chunks than stated"]
ASSUME = ["the durations of a frame are those of the frame classes (E03, E04)",
          "nominal temperature range",
          "powers above the fourth are an uninterpreted function, strictly monotonic, with its "
          "values at 0 and 1 and Bernoulli's bound",
          "real arithmetic instead of doubles, equality up to relative 1e-9"]


def splitting(top):
    def scenario(ctx):
        words = ctx.int("words", 0, 100000)
        n = ctx.choose("chunks", list(range(1, top + 1)))
        each, last = cp.calculate_chunks(words, n)
        if n == 1:
            ctx.check(each == words, "one chunk is the whole message")
        else:
            ctx.check((n - 1) * each + last == words, "the chunks add up to the message",
                      f"{n - 1} of {each} and {last}")
            ctx.check(ctx.and_(each >= 0, last >= 0), "no negative chunk")
            ctx.check(ctx.and_(each <= last, last <= each + n - 1),
                      "the last chunk takes the rest of the division")
        ctx.observe(each, last)
    return scenario


def build(ctx, words, n):
    m, ext = ctx.choose("encoding", list(SYM)), ctx.choose("extended", [False, True])
    dr = ctx.choose("dr", list(DR))
    tari = ctx.real("tari", 6.25, 25)
    each, last = cp.calculate_chunks(words, n)
    params = cp.build_messages_df(tari, std.TagEncoding[m], std.DivideRatio[dr], ext, n,
                                  each, last)
    rtcal = 2.75 * tari * 1e-6
    trcal = 1.95 * rtcal
    return m, ext, dr, tari, rtcal, trcal, params


def messages(counts, chunks):
    def scenario(ctx):
        words = ctx.choose("words", counts)
        n = ctx.choose("chunks", chunks)
        m, ext, dr, tari, rtcal, trcal, params = build(ctx, words, n)
        blf = DR[dr] / trcal
        sizes = [words // n] * (n - 1) + [words // n + words % n]
        ctx.check(len(params["Data"]) == n == len(params["Data_len"]), "one reply per chunk",
                  f"{len(params['Data'])}")
        extra = preamble_bits(m, ext) + 1
        left = words * 16
        for k, w in enumerate(sizes):
            bits = params["Data_len"][k]
            ctx.check(bits == extra + 33 + 16 * w, "length of a read reply of its words",
                      f"chunk {k}: {bits} bits for {w} words")
            left -= bits - extra - 33
            ctx.eq(params["Data"][k] * blf, (extra + 33 + 16 * w) * SYM[m],
                   "duration of a read reply of its words")
        ctx.check(left == 0, "the chunks carry the whole message", f"{left} bits left")
        for name, bits in (("RN16", 16), ("EPC+PC+CRC", 128), ("Handle", 32)):
            ctx.check(params[name + "_len"] == extra + bits, "reply length",
                      f"{name}: {params[name + '_len']}")
            ctx.eq(params[name] * blf, (extra + bits) * SYM[m], "reply duration")
        times(ctx, m, ext, dr, rtcal, trcal, tari * 1e-6, params, n, sizes)
    return scenario


def times(ctx, m, ext, dr, rtcal, trcal, tari, params, n, sizes):
    away(ctx, dr, "NOMINAL", trcal)
    hi = limits(ctx, rtcal, trcal, dr, "NOMINAL")[1]
    guard = hi[0] + hi[1] + 2e-5
    blf = DR[dr] / trcal
    pre, sync = std.ReaderPreamble(tari, rtcal, trcal), std.ReaderSync(tari, rtcal)
    extra = preamble_bits(m, ext) + 1
    replies = [16, 128, 32] + [33 + 16 * w for w in sizes]
    cmds = [std.ReaderFrame(pre, std.Query(
        dr=std.DivideRatio[dr], m=std.TagEncoding[m], trext=ext, sel=std.SelFlag.ALL,
        session=std.Session.S0, target=std.InventoryFlag.A, q=cp.Q, crc=0x15)),
        std.ReaderFrame(sync, std.Ack(0x5555)), std.ReaderFrame(sync, std.ReqRN(0x5555, 0x5555))]
    cmds += [std.ReaderFrame(sync, std.Read(std.MemoryBank.TID, 0, 4, rn=0x5555,
                                            crc=0x5555))] * n
    points = ctx.choose("points", [1, 2])
    got = cp.prepare_times(params, [None] * points, n)
    ctx.check(len(got) == points, "times for every point", f"{len(got)}")
    for row in got:
        ctx.check(len(row) == 3 + n, "one time per state", f"{len(row)}")
        for k in range(3 + n):
            reply = (extra + replies[k]) * SYM[m] / blf
            ctx.eq(row[k], guard + cmds[k].duration + reply,
                   "time is timings, command, reply and guard")


def rates(points, lens):
    """(1 - BER)^length for symbolic rates."""
    def scenario(ctx):
        k = ctx.choose("points", points)
        n = ctx.choose("chunks", [1, 3])
        ls = [ctx.choose(f"length {i}", lens) for i in range(3)]
        data = [lens[-1 - i] for i in range(n)]
        params = {"RN16_len": ls[0], "EPC+PC+CRC_len": ls[1], "Handle_len": ls[2],
                  "Data_len": data}
        ber = [ctx.real("ber", 0, 1, hi_open=True) for _ in range(k)]
        probs = cp.prepare_probs(params, n, np.array(ber, dtype=object if ctx.symbolic
                                                     else float), k)
        ctx.check(len(probs) == k, "one vector per point", f"{len(probs)}")
        for i in range(k):
            ctx.check(len(probs[i]) == 3 + n, "one probability per state", f"{len(probs[i])}")
            for j, bits in enumerate(ls + data):
                ctx.eq(probs[i][j], (1 - ber[i]) ** bits, "probability that every bit of the reply arrives")
    return scenario


def own_lengths(ctx):
    """With the frames' own lengths and concrete rates."""
    words, n = ctx.choose("words", [4, 9, 33]), ctx.choose("chunks", [1, 2, 4])
    m, ext, dr, tari, rtcal, trcal, params = build(ctx, words, n)
    ber = ctx.choose("rates", [[0.0], [1e-4, 1e-3], [0.5, 1.0, 0.01]])
    probs = cp.prepare_probs(params, n, np.array(ber), len(ber))
    extra = preamble_bits(m, ext) + 1
    bits = [extra + 16, extra + 128, extra + 32] + [
        extra + 33 + 16 * w for w in [words // n] * (n - 1) + [words // n + words % n]]
    ctx.check([len(p) for p in probs] == [3 + n] * len(ber), "one probability per state")
    for b, row in zip(ber, probs):
        for j, v in enumerate(row):
            ctx.eq(float(v), (1 - b) ** bits[j], "probability from the frame's length")
    d = cp.create_dicts(probs, [[0] * (3 + n)] * len(ber), n, 3, 17)
    ctx.check(d["probability"] == probs and d["chunks_number"] == n and d["scenario"] == 3
              and d["max_transmisions"] == 17 and len(d["processing_time"]) == len(ber),
              "inputs are handed on unchanged")


def strings(ctx):
    """Random identifiers have exactly the length asked for, whatever is drawn."""
    n = ctx.choose("bytes", [0, 1, 8, 12])
    edge = ctx.choose("draws", ["any", "least", "greatest"])
    span = []

    def draw(lo, hi):
        span.append((lo, hi))
        if edge == "any":
            return ctx.choose("byte", [lo, min(hi, 15), min(hi, 16), hi]) if len(span) < 4 else hi
        return lo if edge == "least" else hi
    ctx.rt.on_int = draw
    text = cp.random_hex_string(n)
    ctx.check(len(text) == 2 * n, "two digits for each byte", f"{text} for {n}")
    ctx.check(all(c in "0123456789ABCDEFabcdef" for c in text), "hexadecimal digits", text)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Scenario("splitting", splitting(64 if deep else 16),
                 reach=["the chunks add up to the message", "one chunk is the whole message"]),
        Scenario("messages", messages([0, 1, 5, 8, 33] + ([2, 3, 4, 16, 127] if deep else []),
                                      [1, 2, 4] + ([3, 7] if deep else [])),
                 reach=["length of a read reply of its words", "reply duration",
                        "time is timings, command, reply and guard"]),
        Scenario("rates", rates([1, 2] + ([3] if deep else []), [1, 4, 97] + ([12] if deep else [])),
                 reach=["probability that every bit of the reply arrives"]),
        Scenario("identifiers", strings, reach=["two digits for each byte"]),
        Scenario("own lengths", own_lengths, reach=["probability from the frame's length"]),
    ]
