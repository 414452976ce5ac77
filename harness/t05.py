"""T05: a Read returns exactly the addressed words of the addressed bank."""
from harness.tags import Bench, reach
from symx.runner import Scenario

BOUNDS = [
    "every bank, absent, empty or of up to 4 (quick) / 8 (thorough) words and a broken last "
    "word; any word pointer up to two words past the end (and 200), any count 1.. past the end "
    "(and 255); any handle in the command",
    "two Reads in a row with other banks and ranges; Reads in every state but secured",
]
OUTSIDE = ["word count 0 (whole bank in the protocol)", "longer banks"]
ASSUME = ["bank contents are distinct bytes: the code moves them and never looks at them"]
ASPECTS = ("reply",)


def content(seed, nbytes):
    return "".join("%02X" % ((seed * 37 + 17 * k + 1) % 256) for k in range(nbytes))


def sizes(ctx, words):
    return ctx.choose("bytes", [None] + list(range(0, 2 * words + 1)))


def memory(ctx, bank, words):
    n = sizes(ctx, words)
    d = {"EPC": content(1, 12), "TID": content(2, 8), "USER": content(3, 6)}
    if bank != "RESERVED":
        if n is None and bank == "EPC":
            n = 0
        d[bank] = None if n is None else content(9, n)
    return d, (n or 0) if bank != "RESERVED" else 0


def read_any(ctx, b, bank, n, rn):
    top = (n + 1) // 2
    ptr = ctx.choose("ptr", list(range(top + 3)) + [200])
    count = ctx.choose("count", list(range(1, top + 3)) + [255])
    return b.read(rn, bank, ptr, count), ptr, count


def single(words):
    def fn(ctx):
        bank = ctx.choose("bank", ["EPC", "TID", "USER", "RESERVED"])
        mem, n = memory(ctx, bank, words)
        b = Bench(ctx, ASPECTS, epc=mem["EPC"], tid=mem["TID"], user=mem["USER"])
        reach(b, "SECURED")
        rn = ctx.int("handle", 0, 65535)
        right = rn == b.ref.rn
        got, ptr, count = read_any(ctx, b, bank, n, rn)
        if right:
            data = bytes.fromhex(mem.get(bank) or "")
            ctx.check(got is not None, "answers its handle", f"{bank} {ptr} {count}")
            ctx.check(bytes(got.reply.memory) == data[2 * ptr:2 * (ptr + count)],
                      "exactly the addressed words", f"{bank}[{ptr}:+{count}] of {n} bytes: "
                      f"{bytes(got.reply.memory).hex()}")
            ctx.check(got.reply.rn == rn, "carries the handle")
        else:
            ctx.check(got is None, "silent to another handle")
    return fn


def twice(ctx):
    b = Bench(ctx, ASPECTS, tid=content(2, 8), user=content(3, 6))
    reach(b, "SECURED")
    for k in range(2):
        bank, ptr, count = ctx.choose("read", [("TID", 0, 4), ("TID", 1, 2), ("TID", 3, 9),
                                               ("USER", 0, 1), ("USER", 2, 1), ("EPC", 1, 1),
                                               ("RESERVED", 0, 1)])
        b.read(b.ref.rn if ctx.choose("handle", [True, False]) else ctx.int("rn", 0, 65535),
               bank, ptr, count)
        if ctx.choose("new handle", [False, True]):
            b.req(ctx.int("req", 0, 65535))
    ctx.reach("reads in a row")


def elsewhere(ctx):
    b = Bench(ctx, ASPECTS)
    reach(b, ctx.choose("state", ["OFF", "READY", "ARBITRATE", "REPLY", "ACKNOWLEDGED"]))
    bank = ctx.choose("bank", ["EPC", "TID", "USER", "RESERVED"])
    ctx.check(b.read(ctx.int("rn", 0, 65535), bank, 0, 1) is None, "no data before the handle")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("single", single(4 if q else 8),
                 reach=["answers its handle", "exactly the addressed words", "carries the handle",
                        "silent to another handle"]),
        Scenario("twice", twice, reach=["content", "reads in a row"]),
        Scenario("elsewhere", elsewhere, reach=["no data before the handle"]),
    ]
