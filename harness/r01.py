"""R01: rounds are one Query slot and 2^Q-1 repeat slots, with matching notifications."""
from harness.readers import Bench, Rounds, kind
from symx.runner import Scenario

BOUNDS = [
    "Q 0..5 (quick) / 0..8 (thorough): two whole rounds, with and without TID reading, one slot "
    "at any position ended by an exchange that breaks off or completes at any stage",
    "Q 9 and 15 (quick) / 13, 14 and 15 (thorough): one whole round, a tag in none of the slots or in "
    "one in the middle or the last; 1100 / 5000 rounds of Q 0 and 1 with answers and a power cycle",
    "Q 0..2: every sequence of 7 (quick) / 9 (thorough) steps out of timeout, an answer and "
    "power cycle",
]
OUTSIDE = ["Q adaptation (R03): there the number of slots of a round is not fixed"]
ASSUME = []


def exchange(ctx, b, upto, tid):
    """Answers up to a stage of the access sequence; then the exchange times out or is over."""
    rn = ctx.int("rn", 0, 65535)
    f = b.rn16(rn)
    ctx.check(kind(f) == "ACK", "acknowledges", kind(f))
    if upto == 1:
        return b.reader.timeout()
    f = b.epc()
    if not tid:
        return f
    if upto == 2:
        return b.reader.timeout()
    f = b.handle(ctx.int("handle", 0, 65535))
    if upto == 3:
        return b.reader.timeout()
    return b.data(7)


def whole(qs):
    def fn(ctx):
        q = ctx.choose("q", qs)
        tid = ctx.choose("tid", [False, True])
        b = Bench(ctx, q=q, read_tid_bank=tid)
        log = Rounds(ctx, b.events)
        n = 2 ** q
        special = ctx.choose("slot with a tag", list(range(n)) if n <= 32 else
                             [0, 1, n // 2, n - 2, n - 1])
        stage = ctx.choose("stage", [1, 2, 3, 4] if tid else [1, 2])
        f = b.reader.turn_on()
        log.catch_up()
        first = log.last_round
        for rnd in range(2):
            for k in range(n):
                ctx.check(kind(f) == ("QUERY" if k == 0 else "QREP"), "command of the slot",
                          f"{kind(f)} in slot {k} of {n}")
                ctx.check(log.round == first + rnd and log.slot == k, "number of the slot",
                          f"{log.round},{log.slot} instead of {first + rnd},{k}")
                f = exchange(ctx, b, stage, tid) if k == special else b.reader.timeout()
                log.catch_up()
        ctx.check(kind(f) == "QUERY" and log.round == first + 2 and log.slot == 0,
                  "next round at once", f"{kind(f)} {log.round} {log.slot}")
        b.reader.turn_off()
        log.catch_up()
        ctx.check(log.round is None and log.slot is None, "all finished at power-off")
    return fn


def huge(qs):
    def fn(ctx):
        q = ctx.choose("q", qs)
        n = 2 ** q
        b = Bench(ctx, q=q)
        log = Rounds(ctx, b.events)
        at = ctx.choose("slot with a tag", [None, n // 2 + 1, n - 1])
        f = b.reader.turn_on()
        log.catch_up()
        first = log.last_round
        for k in range(n):
            ctx.check(kind(f) == ("QUERY" if k == 0 else "QREP"), "command of the slot",
                      f"{kind(f)} in slot {k} of {n}")
            ctx.check(log.round == first and log.slot == k, "number of the slot",
                      f"{log.round},{log.slot} instead of {first},{k}")
            f = exchange(ctx, b, 2, False) if k == at else b.reader.timeout()
            log.catch_up()
        ctx.check(kind(f) == "QUERY" and log.round == first + 1 and log.slot == 0,
                  "next round at once", f"{kind(f)} {log.round} {log.slot}")
    return fn


def many(n):
    def fn(ctx):
        b = Bench(ctx, q=ctx.choose("q", [0, 1]))
        log = Rounds(ctx, b.events)
        cut = ctx.choose("power cycle", [None, n // 2])
        f = b.reader.turn_on()
        log.catch_up()
        first = log.last_round
        for k in range(n):
            ctx.check(kind(f) == "QUERY" and log.round == first + k and log.slot == 0,
                      "next round at once", f"{kind(f)} {log.round} {log.slot}")
            if k == cut:
                b.reader.turn_off()
                f = b.reader.turn_on()
            else:
                for j in range(2 ** b.settings["q"]):
                    f = exchange(ctx, b, 2, False) if k % 5 == 0 else b.reader.timeout()
            log.catch_up()
    return fn


def steps(n):
    def fn(ctx):
        q = ctx.choose("q", [0, 1, 2])
        tid = True
        b = Bench(ctx, q=q, read_tid_bank=tid)
        log = Rounds(ctx, b.events)
        f = b.reader.turn_on()
        log.catch_up()
        ctx.check(kind(f) == "QUERY", "starts with Query")
        for _ in range(n):
            at = (log.round, log.slot)
            was = kind(f)
            step = ctx.choose("step", ["timeout", "answer", "cycle"])
            if step == "cycle":
                ctx.check(b.reader.turn_off() is None, "no command at power-off")
                log.catch_up()
                ctx.check(log.round is None and log.slot is None, "all finished at power-off",
                          f"{log.round}, {log.slot}")
                f = b.reader.turn_on()
                log.catch_up()
                ctx.check(kind(f) == "QUERY" and log.slot == 0 and
                          log.round == at[0] + 1, "power-on starts a new round",
                          f"{kind(f)} {log.round},{log.slot} after {at}")
                continue
            if step == "timeout":
                f = b.reader.timeout()
                done = True
            else:
                rn = ctx.int("rn", 0, 65535)
                f = {"QUERY": lambda: b.rn16(rn), "QREP": lambda: b.rn16(rn), "ACK": b.epc,
                     "REQRN": lambda: b.handle(rn), "READ": lambda: b.data(rn)}[was]()
                done = was == "READ"
            log.catch_up()
            if not done:
                ctx.check((log.round, log.slot) == at, "an exchange stays in its slot",
                          f"{at} -> {log.round},{log.slot}")
            elif at[1] == 2 ** q - 1:
                ctx.check(kind(f) == "QUERY" and (log.round, log.slot) == (at[0] + 1, 0),
                          "next round at once", f"{kind(f)} {log.round},{log.slot} after {at}")
            else:
                ctx.check(kind(f) == "QREP" and (log.round, log.slot) == (at[0], at[1] + 1),
                          "next slot", f"{kind(f)} {log.round},{log.slot} after {at}")
        ir = b.reader.inventory_round
        ctx.check(ir is not None and ir.index == log.round, "current round")
    return fn


def idle(ctx):
    """Nothing happens while the reader is off, whatever arrives."""
    b = Bench(ctx, q=1)
    if ctx.choose("used before", [False, True]):
        b.reader.turn_on()
        b.reader.timeout()
        b.reader.turn_off()
    n = len(b.events)
    rn = ctx.int("rn", 0, 65535)
    for f in (lambda: b.rn16(rn), b.epc, lambda: b.handle(rn), lambda: b.data(rn)):
        ctx.check(f() is None, "deaf while off")
    ctx.check(b.reader.turn_off() is None, "off stays off")
    ctx.check([e for e in b.events[n:] if e[0] not in ("off",)] == [], "no slots while off")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("whole rounds", whole([0, 1, 2, 3, 4, 5] if q else list(range(9))),
                 reach=["command of the slot", "number of the slot", "next round at once",
                        "all finished at power-off", "one round at a time",
                        "round finish matches its start", "slot finish matches its start",
                        "rounds numbered in order", "slots numbered in order"]),
        Scenario("huge rounds", huge([9, 15] if q else [13, 14, 15]), path_s=300, max_steps=200000,
                 reach=["command of the slot", "next round at once"], warm=0),
        Scenario("many rounds", many(1100 if q else 5000), path_s=300, max_steps=200000,
                 reach=["next round at once"], warm=0),
        Scenario("steps", steps(7 if q else 9),
                 reach=["power-on starts a new round", "an exchange stays in its slot",
                        "next slot", "next round at once", "current round"]),
        Scenario("off", idle, reach=["deaf while off", "no slots while off"]),
    ]
