"""T01: a tag follows the inventory state machine."""
from harness.tags import STATES, Bench, reach
from symx.runner import Scenario

BOUNDS = [
    "from every state: every sequence of 2 (quick) / 3 (thorough) commands out of Query, "
    "QueryRep, QueryAdjust, ACK, Req_RN, Read and power changes; command RNs, drawn RN16s and "
    "slots are any 16-bit numbers (slots within the Q range)",
    "from power-on: every sequence of 4 (quick) / 6 (thorough) commands out of a short menu",
    "sessions: the active one and another one, S0..S3 as active session; both targets, all "
    "selections with the selected flag set or clear; Q 0, 2 and 15",
]
OUTSIDE = ["longer sequences than prefix plus 3", "more than one tag at a time (S09)"]
ASSUME = ["wrong numbers in ACK (reply state), Req_RN and Read leave the tag as the protocol's "
          "simplified machine of this model does: arbitrate, unchanged, unchanged"]
ASPECTS = ("state", "reply", "silence", "rn")

FULL = [
    ("query", "act", "A", "ALL", 2), ("query", "act", "B", "ALL", 0),
    ("query", "oth", "A", "ALL", 0), ("query", "oth", "B", "ALL", 2),
    ("query", "act", "A", "SEL", 0), ("query", "act", "A", "NOT_SEL", 15),
    ("rep", "act"), ("rep", "oth"), ("adjust", "act", 1), ("adjust", "act", -1),
    ("adjust", "act", 0), ("adjust", "oth", 1),
    ("ack",), ("req",), ("read",), ("off",), ("weak",), ("on",),
]
SHORT = [("query", "act", "A", "ALL", 1), ("query", "act", "B", "ALL", 0), ("rep", "act"),
         ("adjust", "act", 1), ("ack",), ("req",), ("read",), ("cycle",)]


def act(ctx, b, op, sessions):
    kind = op[0]
    if kind == "query":
        b.query(sessions[op[1]], op[2], op[3], op[4])
    elif kind == "rep":
        b.rep(sessions[op[1]])
    elif kind == "adjust":
        b.adjust(sessions[op[1]], op[2])
    elif kind == "ack":
        b.ack(ctx.int("ack", 0, 65535))
    elif kind == "req":
        b.req(ctx.int("req", 0, 65535))
    elif kind == "read":
        b.read(ctx.int("read", 0, 65535))
    elif kind == "off":
        b.power(None, 0.5)
    elif kind == "weak":
        b.power(-30.0, 0.5)
    elif kind == "on":
        b.power(1.0, 0.5)
    elif kind == "cycle":
        b.power(None, 0.5)
        b.power(1.0, 0.5)


def from_states(n, pairs):
    def fn(ctx):
        state = ctx.choose("state", STATES)
        a, o = ctx.choose("sessions", pairs)
        b = Bench(ctx, ASPECTS, sl=ctx.choose("selected", [False, True]))
        reach(b, state, a)
        for _ in range(n):
            act(ctx, b, ctx.choose("command", FULL), {"act": a, "oth": o})
    return fn


def all_sessions(ctx):
    """One command from every state for every pair of sessions."""
    state = ctx.choose("state", STATES)
    names = ["S0", "S1", "S2", "S3"]
    a, o = ctx.choose("sessions", [(x, y) for x in names for y in names if x != y])
    b = Bench(ctx, ASPECTS)
    reach(b, state, a)
    act(ctx, b, ctx.choose("command", [("query", "act", "A", "ALL", 0),
                                       ("query", "oth", "A", "ALL", 0), ("rep", "act"),
                                       ("rep", "oth"), ("adjust", "act", 1),
                                       ("adjust", "oth", -1)]), {"act": a, "oth": o})
    ctx.reach("every pair of sessions")
    act(ctx, b, ctx.choose("then", [("ack",), ("rep", "act"), ("rep", "oth")]),
        {"act": a, "oth": o})


def from_start(n):
    def fn(ctx):
        b = Bench(ctx, ASPECTS)
        reach(b, "READY")
        for _ in range(n):
            act(ctx, b, ctx.choose("command", SHORT), {"act": "S1"})
    return fn


def scenarios(tier):
    q = tier == "quick"
    labels = ["state", "answers", "number carried", "content", "silence while off",
              "fresh number"]
    return [
        Scenario("from every state", from_states(2 if q else 3, [("S1", "S2")]), reach=labels),
        Scenario("sessions", all_sessions, reach=["state", "answers", "every pair of sessions"]),
        Scenario("from power-on", from_start(4 if q else 6), reach=labels[:4]),
    ]
