"""R04: the inventory target alternates every configured number of rounds."""
import pysim.models.rfid.epcstd as std
from harness.readers import Bench, kind
from symx.runner import Scenario

BOUNDS = [
    "any number of rounds per target 1..4 (quick) / 1..8 (thorough), symbolic; 10 / 18 rounds; "
    "Q 0 and 1; power cycles after any two rounds",
    "1100 / 5000 rounds with 1, 3, 64, 300 or more rounds per target and a power cycle or none",
    "constant strategy with either target over the same histories",
]
OUTSIDE = ["more rounds per target than the bound"]
ASSUME = []


def next_round(b, q, how, ctx):
    f = None
    for k in range(2 ** q):
        if how and k == 0:
            b.rn16(ctx.int("rn", 0, 65535))
        f = b.reader.timeout()
    return f


def targets(n, per):
    def fn(ctx):
        q = ctx.choose("q", [0, 1])
        strategy = ctx.choose("strategy", ["switch", "const A", "const B"])
        rounds = ctx.int("rounds per target", 1, per)
        b = Bench(ctx, q=q, rounds_per_target=rounds, target_strategy=strategy.split()[0])
        start = ctx.choose("configured", ["A", "B"]) if strategy == "switch" else strategy[-1]
        b.reader.target = std.InventoryFlag[start]
        answered = ctx.choose("answers", [False, True])
        cycles = ctx.choose("cycles", [(), (1,), (2, 3), (5,)])
        f = b.reader.turn_on()
        since = 0
        for k in range(n):
            ctx.check(kind(f) == "QUERY", "round starts with Query", kind(f))
            now = f.command.target.name
            ctx.check(b.reader.target.name == now, "reader's target", now)
            if strategy == "switch":
                b_now = (since // rounds) % 2 == 1
                ctx.check(ctx.not_(b_now) if now == "A" else b_now, "target alternates",
                          f"target {now} in round {since} since power-on, {rounds!r} each")
            else:
                ctx.check(now == start, "constant target", f"{now} in round {k}")
            if k in cycles:
                b.reader.turn_off()
                f = b.reader.turn_on()
                since = 0
            else:
                f = next_round(b, q, answered, ctx)
                since += 1
    return fn


def many(n):
    def fn(ctx):
        q = ctx.choose("q", [0, 1])
        rounds = ctx.choose("rounds per target", [1, 3, 64, 300, n // 2 + 1])
        b = Bench(ctx, q=q, rounds_per_target=rounds, target_strategy="switch")
        cut = ctx.choose("power cycle", [None, n // 3])
        f = b.reader.turn_on()
        since = 0
        for k in range(n):
            ctx.check(kind(f) == "QUERY", "round starts with Query", kind(f))
            now = f.command.target.name
            ctx.check(now == "AB"[since // rounds % 2], "target alternates",
                      f"target {now} in round {since} since power-on, {rounds} each")
            if k == cut:
                b.reader.turn_off()
                f = b.reader.turn_on()
                since = 0
            else:
                f = next_round(b, q, k % 7 == 0, ctx)
                since += 1
    return fn


def broken_round(ctx):
    """A power cycle in the middle of a round starts over with A."""
    rounds = ctx.int("rounds per target", 1, 3)
    b = Bench(ctx, q=2, rounds_per_target=rounds, target_strategy="switch")
    f = b.reader.turn_on()
    n = ctx.choose("slots before", list(range(11)))
    for _ in range(n):
        f = b.reader.timeout()
    b.reader.turn_off()
    f = b.reader.turn_on()
    seen = []
    for k in range(6):
        seen.append(f.command.target.name)
        b_now = (k // rounds) % 2 == 1
        ctx.check(ctx.not_(b_now) if seen[-1] == "A" else b_now,
                  "starts over at power-on", f"{seen}, {rounds!r} each")
        for _ in range(4):
            f = b.reader.timeout()


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("targets", targets(10 if q else 18, 4 if q else 8),
                 reach=["target alternates", "constant target", "reader's target"]),
        Scenario("many rounds", many(1100 if q else 5000), path_s=300, max_steps=200000,
                 reach=["target alternates"], warm=0),
        Scenario("broken round", broken_round, reach=["starts over at power-on"]),
    ]
