"""S03: a reply is received iff it is alone and survives its bit errors."""
import pysim.models.rfid.epcstd as std
from harness.s01 import PHASES, bring, reps, world
from harness.system import World, name_of, reply_bits
from pysim.models.rfid.objects import Transaction
from symx.runner import Scenario

BOUNDS = [
    "any bit error rate in [0, 1] (powers bounded by their laws) and the rates 1/4 and 1/64 "
    "(powers exact), any draw in [0, 1), any signal-to-noise ratio",
    "0 to 3 replies of every kind fitting the command; EPC and data of 0, 1, 2, 12, 16 bytes",
    "in the running model: every pattern of answers and losses over 5 (quick) / 7 (thorough) "
    "commands, two tags",
]
OUTSIDE = ["other payload lengths", "draws exactly on the threshold"]
ASSUME = ["real arithmetic; a natural power is an uninterpreted function with the laws of powers "
          "on [0, 1]"]


def alone(ctx):
    w = World(ctx, puppets=3, q=2, read_tid_bank=True)

    class K:
        time = 0.0
        from harness.tags import Quiet
        logger = Quiet()
        context = w.model
    w.reader.kernel = w.kernel = K()
    w.tag_blf = 1e5
    phase = ctx.choose("phase", PHASES)
    f = bring(ctx, w, phase)
    n = ctx.choose("replies", [0, 1, 2, 3])
    size = ctx.choose("bytes", [0, 1, 2, 12, 16]) if phase in ("ACK", "READ") else 2
    rs = [r[0] for r in reps(ctx, w, phase, n, "phase")]
    if size != 2:
        rs = [w.reply(std.AckReply("5A" * size) if phase == "ACK" else
                      std.ReadReply("5A" * size, 3)) for _ in rs]
    who = list(w.puppets)
    if ctx.choose("order", [True, False]):
        who.reverse()
    pairs = [(who[k], fr) for k, fr in enumerate(rs)]
    x = Transaction(w.model.medium, w.reader, f, pairs, 0.0)
    # powers of a symbolic rate are only bounded; for the given ones they are exact
    w.ber = ctx.choose("rate", [None, 0.25, 0.015625])
    if w.ber is None:
        w.ber = ctx.real("ber", 0, 1)
    w.snr = ctx.real("snr", 0, None)
    u = ctx.real("u", 0, 1, hi_open=True)
    ctx.rt.on_unit = lambda: u
    tag, fr, snr, ber = x.received_tag_frame(w.model.medium, 0.5)
    if n != 1:
        ctx.check(tag is None and fr is None and snr is None and ber is None,
                  "nothing from none or several", f"{n} replies in {phase}")
        return
    p = pow(1 - w.ber, reply_bits(rs[0].reply))
    if fr is None:
        ctx.check(u >= p, "lost only by bit errors", f"{name_of(f)}")
        ctx.check(tag is None and snr is None and ber is None, "lost entirely")
    else:
        ctx.check(u <= p, "received only without bit errors", f"{name_of(f)}")
        ctx.check(tag is pairs[0][0] and fr is pairs[0][1], "the reply and its tag")
        ctx.check(snr == w.snr, "its signal-to-noise ratio")
        ctx.check(ber == w.ber, "its bit error rate")


def sure(ctx):
    """Without bit errors a lone reply is always received, with certain errors never (but for
    the draw 0)."""
    w = World(ctx, puppets=1, q=0)
    ber = ctx.choose("ber", [0.0, 1.0])
    w.ber = ber
    w.tag_blf = 1e5
    got = []
    ctx.rt.on_unit = lambda: ctx.real("u", 0, 1, lo_open=True, hi_open=True)

    def script(frame, n):
        name = name_of(frame)
        if name == "QUERY":
            return [w.reply(std.QueryReply(5))]
        if name == "ACK":
            got.append(frame.command.rn)
            return [w.reply(std.AckReply("AABB"))]
        return [None]
    w.script = script
    w.run(events=6)
    ctx.check((len(got) > 0) == (ber == 0.0), "sure cases", f"BER {ber}: {len(got)} ACKs")


def running(n):
    def fn(ctx):
        w = World(ctx, puppets=2, q=1, read_tid_bank=True)
        w.ber = 0.25
        w.tag_blf = 1e5
        plan = []

        def draw():
            lost = ctx.choose("lost", [False, True])
            plan[-1]["lost"] = lost
            plan[-1]["drawn"] = plan[-1].get("drawn", 0) + 1
            return 1.0 - 1e-9 if lost else 1e-30
        ctx.rt.on_unit = draw
        rn = [100]

        def script(frame, k):
            name = name_of(frame)
            rn[0] += 1
            if name == "ACK":
                rep = std.AckReply("AABB")
            elif name == "REQRN":
                rep = std.ReqRNReply(rn[0])
            elif name == "READ":
                rep = std.ReadReply("0011", 9)
            else:
                rep = std.QueryReply(rn[0])
            c = ctx.choose("who answers", ["none", "first", "second", "both"])
            plan.append(dict(name=name, who=c, rn=getattr(rep, "rn", None)))
            return [w.reply(rep) if c in ("first", "both") else None,
                    w.reply(rep) if c in ("second", "both") else None]
        w.script = script
        w.run(events=n)
        for a, b in zip(plan, plan[1:]):
            one = a["who"] in ("first", "second")
            ctx.check(a.get("drawn", 0) == (1 if one else 0) or not one, "one draw per reply")
            ok = one and not a.get("lost")
            nxt = {"QUERY": "ACK", "QREP": "ACK", "ACK": "REQRN", "REQRN": "READ"}
            if ok and a["name"] in nxt:
                ctx.check(b["name"] == nxt[a["name"]], "received replies are acted upon",
                          f"{a} -> {b}")
            else:
                ctx.check(b["name"] in ("QUERY", "QREP"), "others end the slot",
                          f"{a} -> {b}")
        ctx.reach("running")
    return fn


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("alone", alone, reach=["nothing from none or several",
                                        "lost only by bit errors",
                                        "received only without bit errors",
                                        "the reply and its tag"]),
        Scenario("sure", sure, reach=["sure cases"]),
        Scenario("running", running(5 if q else 7),
                 reach=["received replies are acted upon", "others end the slot", "running"]),
    ]
