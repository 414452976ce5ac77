"""E02: extensible bit vectors."""
import pysim.models.rfid.epcstd as std
from harness.bits import bit, is_bits, number
from symx.runner import Scenario

BOUNDS = ["every value from 0 to 2^28-1 (quick) / 2^56-1 (thorough), that is up to 4 / 8 blocks",
          "the Read command with such a word pointer"]
OUTSIDE = ["negative values"]
ASSUME = []


def ebv(maxbits):
    def fn(ctx):
        v = ctx.int("value", 0, 2 ** maxbits - 1)
        s = std.encode_ebv(v)
        ctx.check(is_bits(s), "a bit string", f"{s!r}")
        ctx.check(len(s) % 8 == 0 and len(s) > 0, "whole blocks", f"{len(s)} bits")
        n = len(s) // 8
        ctx.check(v < 128 ** n, "enough blocks")
        if n > 1:
            ctx.check(v >= 128 ** (n - 1), "minimal number of blocks")
        payload = ""
        for i in range(n):
            block = s[8 * i:8 * i + 8]
            ctx.eq(bit(block[0]), 1 if i < n - 1 else 0, "leading bit")
            payload += block[1:]
        ctx.eq(number(payload), v, "value")
        ctx.observe(n)
    return fn


def command(maxbits):
    def fn(ctx):
        v = ctx.int("word_ptr", 0, 2 ** maxbits - 1)
        cmd = std.Read(std.MemoryBank.USER, v, 1, 0x1234, 0)
        n = 1
        while not v < 128 ** n:
            n += 1
        ctx.check(cmd.bitlen == 50 + 8 * n, "length of Read", f"{cmd.bitlen} for {n} blocks")
        ctx.check(len(cmd.encode()) == 50 + 8 * n, "length of Read")
    return fn


def scenarios(tier):
    q = tier == "quick"
    b = 28 if q else 56
    return [
        Scenario("vector", ebv(b), path_s=300, query_ms=100000,
                 reach=["value", "leading bit", "whole blocks", "minimal number of blocks"]),
        Scenario("read", command(b), path_s=300, reach=["length of Read"]),
    ]
