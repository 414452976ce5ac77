"""T02: one answer per round, in the drawn slot; QueryAdjust draws again."""
import pysim.models.rfid.epcstd as std
from harness.tags import S, Bench, reach
from symx.runner import Scenario

BOUNDS = [
    "whole rounds: Q 0..4 (quick) / 0..7 (thorough), any drawn slot, all 2^Q slots and four "
    "more repeat commands; repeat and adjust commands of another session in between",
    "Q 9 and 15 (quick) / 13, 14 and 15 (thorough): all slots, the drawn one the second, the middle "
    "or the last",
    "every Q 0..15: range of the draw at Query, and after every sequence of 2 (quick) / 3 "
    "(thorough) QueryAdjust (up, down, same) from arbitrate or reply",
    "mixed rounds: Query, then 4 (quick) / 6 (thorough) commands out of repeat, adjust up/down, "
    "wrong ACK, foreign repeat, Query of the same session",
    "all encodings, extended preamble, both divide ratios, any TRcal for the answer's link "
    "parameters",
]
OUTSIDE = ["other draws in rounds of more than 128 slots"]
ASSUME = ["a tag whose answer was not acknowledged does not answer again in that round"]
ASPECTS = ("slots", "rn")


def rounds(qmax):
    def fn(ctx):
        q = ctx.choose("q", list(range(qmax + 1)))
        b = Bench(ctx, ASPECTS)
        reach(b, "READY")
        answers = []
        session = ctx.choose("session", ["S0", "S2"])
        foreign = ctx.choose("foreign", ["none", "rep", "adjust"])
        if b.query(session, q=q) is not None:
            answers.append(0)
        drawn = [v for lo, hi, v in b.ints if (lo, hi) == (0, 2 ** q - 1)][:1] or [0]
        for k in range(1, 2 ** q + 4):
            if foreign == "rep":
                ctx.check(b.rep("S1") is None, "foreign repeat", "answered")
            elif foreign == "adjust":
                ctx.check(b.adjust("S3", 1) is None, "foreign adjust", "answered")
            if b.rep(session) is not None:
                answers.append(k)
        ctx.check(len(answers) == 1, "one answer per round", f"answered in slots {answers}")
        ctx.check(answers[0] == drawn[0], "answer in the drawn slot",
                  f"slot {answers[0]}, drawn {drawn[0]!r}")
        if foreign != "none":
            ctx.reach("foreign commands")
    return fn


def huge(qs):
    """Rounds of thousands of slots."""
    def fn(ctx):
        q = ctx.choose("q", qs)
        n = 2 ** q
        slot = ctx.choose("drawn", [1, n // 2, n - 1])
        b = Bench(ctx, ())
        reach(b, "READY")
        b.forced = [slot]
        b.query("S1", q=q)
        answers = []
        for k in range(1, n + 3):
            if b.rep("S1") is not None:
                answers.append(k)
        ctx.check(answers == [slot], "answer in the drawn slot", f"{answers}, drawn {slot}")
    return fn


def ranges(n):
    def fn(ctx):
        q = ctx.choose("q", list(range(16)))
        b = Bench(ctx, ASPECTS)
        reach(b, "READY")
        b.query("S1", q=q)
        for _ in range(n):
            before = b.tag.q
            was = len(b.ints)
            updn = ctx.choose("updn", [1, 0, -1])
            b.adjust("S1", updn)
            after = b.tag.q
            ctx.check(0 <= after <= 15, "Q in range", f"Q={after}")
            ctx.check(abs(after - before) <= 1, "Q changes by one at most",
                      f"{before} -> {after}")
            ctx.check(after == max(0, min(15, before + updn)), "Q follows the command",
                      f"{before} {updn:+d} -> {after}")
            ctx.check(after == 0 or len(b.ints) > was, "draws again", "no draw at QueryAdjust")
        ctx.check(b.record.num_qadjust_attained == n, "adjusts counted",
                  f"{b.record.num_qadjust_attained} of {n}")
    return fn


def mixed(n):
    def fn(ctx):
        b = Bench(ctx, ASPECTS)
        reach(b, "READY")
        b.query("S1", q=ctx.choose("q", [0, 1, 3]))
        for _ in range(n):
            op = ctx.choose("command", ["rep", "up", "down", "wrong ack", "foreign", "query"])
            if op == "rep":
                b.rep("S1")
            elif op == "up":
                b.adjust("S1", 1)
            elif op == "down":
                b.adjust("S1", -1)
            elif op == "wrong ack":
                rn = ctx.int("wrong", 0, 65535)
                if b.ref.rn is not None:
                    ctx.assume(rn != b.ref.rn)
                b.ack(rn)
            elif op == "foreign":
                b.rep("S2")
            else:
                b.query("S1", q=2)
        ctx.reach("mixed")
    return fn


def after_handle(ctx):
    """Slots still follow the draw after an access sequence and in the next round."""
    b = Bench(ctx, ASPECTS)
    reach(b, ctx.choose("state", ["ACKNOWLEDGED", "SECURED"]), "S1")
    if ctx.choose("end", ["rep", "adjust"]) == "rep":
        b.rep("S1")
    else:
        b.adjust("S1", 1)
    target = ctx.choose("target", ["A", "B"])
    q = ctx.choose("q", [0, 1, 2])
    b.query("S1", target, q=q)
    for _ in range(2 ** q + 1):
        b.rep("S1")
    ctx.reach("next round")


def link(ctx):
    m = ctx.choose("m", ["FM0", "M2", "M4", "M8"])
    trext = ctx.choose("trext", [False, True])
    dr = ctx.choose("dr", ["DR_8", "DR_643"])
    trcal = ctx.real("trcal", 0, None, lo_open=True)
    b = Bench(ctx, ("link",))
    reach(b, "READY")
    how = ctx.choose("answer", ["query", "rep", "adjust"])
    old = ctx.choose("earlier round", [False, True])
    if old:
        b.forced = [1]
        b.query("S1", q=1, m="M2" if m != "M2" else "FM0", trext=not trext, dr="DR_8",
                trcal=2e-5)
    b.forced = [0 if how == "query" else 1]
    b.query("S1", q=1, m=m, trext=trext, dr=dr, trcal=trcal)
    if how == "rep":
        b.rep("S1")
    elif how == "adjust":
        b.forced = [0]
        b.adjust("S1", 1)
    b.ack(b.ref.rn)
    b.req(b.ref.rn)
    got = b.read(b.ref.rn)
    ctx.check(got is not None, "answered to the end")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("rounds", rounds(4 if q else 7),
                 reach=["one answer per round", "answer in the drawn slot", "foreign repeat",
                        "foreign adjust", "slot of the answer", "draws"]),
        Scenario("huge rounds", huge([9, 15] if q else [13, 14, 15]), path_s=300, max_steps=400000,
                 reach=["answer in the drawn slot"], warm=0),
        Scenario("ranges", ranges(2 if q else 3),
                 reach=["draws", "Q in range", "Q follows the command", "draws again",
                        "adjusts counted"]),
        Scenario("mixed", mixed(4 if q else 6), reach=["mixed", "slot of the answer", "draws"]),
        Scenario("after access", after_handle, reach=["next round"]),
        Scenario("link", link, reach=["link parameters of answers", "answered to the end"]),
    ]
