"""T03: inventoried flags flip once per acknowledged inventory and persist as specified."""
from harness.t01 import FULL, act
from harness.tags import NAMES, STATES, Bench, flip, reach
from symx.runner import Scenario

BOUNDS = [
    "from every state and either flag value: every sequence of 2 (quick) / 3 (thorough) "
    "commands or power changes; all sessions as active session with any other one",
    "1100 / 5000 inventories of one tag one after the other",
    "participation: every flag value, target, session, selection and selected flag",
    "power-off intervals and the persistence times of S1 to S3: any non-negative reals, one "
    "off-period (thorough: two) with 0 to 2 updates by too weak a field at any moments, "
    "any combination of flags before",
]
OUTSIDE = ["an interval equal to the persistence up to rounding"]
ASSUME = ["flags do not decay while the tag is powered (the model has no such timer)"]


def flips(n):
    def fn(ctx):
        state = ctx.choose("state", STATES)
        start = ctx.choose("flag", ["A", "B"])
        b = Bench(ctx, ("flags",), sl=ctx.choose("selected", [False, True]))
        if start == "B":
            reach(b, "ACKNOWLEDGED", "S1")
            b.rep("S1")
            if state == "OFF":
                b.power(None)
        enter(b, state, start)
        for _ in range(n):
            act(ctx, b, ctx.choose("command", FULL), {"act": "S1", "oth": "S2"})
    return fn


def enter(b, state, flag, session="S1"):
    """Like reach(), for a tag that may be on already and have its flag at B."""
    if flag == "A":
        reach(b, state, session)
        return
    if state in ("OFF", "READY"):
        return
    b.forced = [3 if state == "ARBITRATE" else 0]
    b.query(session, flag, q=2)
    if state in ("ACKNOWLEDGED", "SECURED"):
        b.ack(b.ref.rn)
    if state == "SECURED":
        b.req(b.ref.rn)


def sessions(ctx):
    """The flag of the active session, and only that, flips at the next Query, QueryRep or
    QueryAdjust of that session - once."""
    a = ctx.choose("active", list(NAMES))
    b = Bench(ctx, ("flags",))
    reach(b, ctx.choose("state", ["ACKNOWLEDGED", "SECURED"]), a)
    before = {s: getattr(b.tag, s.lower()).name for s in NAMES}
    o = ctx.choose("of session", list(NAMES))
    cmd = ctx.choose("command", ["query A", "query B", "rep", "adjust", "ack", "req", "read"])
    if cmd.startswith("query"):
        b.query(o, cmd[-1], q=3)
    elif cmd == "rep":
        b.rep(o)
    elif cmd == "adjust":
        b.adjust(o, 1)
    elif cmd == "ack":
        b.ack(ctx.int("rn", 0, 65535))
    elif cmd == "req":
        b.req(ctx.int("rn", 0, 65535))
    else:
        b.read(ctx.int("rn", 0, 65535))
    for s in NAMES:
        now = getattr(b.tag, s.lower()).name
        if s == a == o and cmd.split()[0] in ("query", "rep", "adjust"):
            ctx.check(now == flip(before[s]), "flips at its own command", f"{s} after {cmd}")
        else:
            ctx.check(now == before[s], "stays otherwise", f"{s} after {cmd} of {o}")
    # a second one does not flip again
    again = {s: getattr(b.tag, s.lower()).name for s in NAMES}
    b.rep(o)
    b.rep(o)
    if cmd.split()[0] in ("query", "rep", "adjust") and a == o:
        ctx.check({s: getattr(b.tag, s.lower()).name for s in NAMES} == again,
                  "flips once", f"{cmd} of {o}, then QueryRep twice")


def many(n):
    """Very many inventories of one tag: its flag flips every time."""
    def fn(ctx):
        s = ctx.choose("session", ["S0", "S2"])
        end = ctx.choose("end", ["rep", "query", "adjust"])
        b = Bench(ctx, ("flags",))
        reach(b, "READY")
        flag = "A"
        rn = ctx.int("rn", 0, 65535)
        for k in range(n):
            b.forced = [0, 0]
            ctx.check(b.query(s, flag, q=0) is not None, "takes part exactly when it matches",
                      f"inventory {k}")
            b.ack(b.ref.rn)
            if end == "rep":
                b.rep(s)
            elif end == "adjust":
                b.adjust(s, 1)
            else:
                b.query(s, flag, q=0)
            flag = flip(flag)
            ctx.check(getattr(b.tag, s.lower()).name == flag, "flips at its own command",
                      f"inventory {k}")
    return fn


def participation(ctx):
    s = ctx.choose("session", list(NAMES))
    flag = ctx.choose("flag", ["A", "B"])
    target = ctx.choose("target", ["A", "B"])
    sel = ctx.choose("sel", ["ALL", "SEL", "NOT_SEL"])
    sl = ctx.choose("selected", [False, True])
    b = Bench(ctx, ("flags",), sl=sl)
    reach(b, "READY")
    if flag == "B":
        b.forced = [0]
        b.query(s)
        b.ack(b.ref.rn)
        b.rep(s)
    fits = target == flag and {"ALL": True, "SEL": sl, "NOT_SEL": not sl}[sel]
    got = b.query(s, target, sel, q=1)
    state = b.tag.state.name
    ctx.check((state in ("ARBITRATE", "REPLY")) == fits, "takes part exactly when it matches",
              f"flag {flag}, target {target}, {sel}, SL={sl}: {state}")
    if not fits:
        ctx.check(got is None, "no answer without match")
        for _ in range(2):
            ctx.check(b.rep(s) is None, "no answer without match", "to QueryRep")
        ctx.check(b.adjust(s, -1) is None, "no answer without match", "to QueryAdjust")


def persistence(cycles):
    def fn(ctx):
        pers = {s: ctx.real("persistence " + s, 0, None) for s in ("S1", "S2", "S3")}
        b = Bench(ctx, (), persistence=pers)
        reach(b, "READY")
        stored = dict.fromkeys(NAMES, "A")
        group = ctx.choose("inventoried", [("S0", "S1"), ("S2",), ("S3",), ("S1", "S2", "S3"),
                                           ("S0", "S1", "S2", "S3")])
        for s in group:
            b.forced = [0]
            b.query(s, q=0)
            b.ack(b.ref.rn)
            b.rep(s)
            stored[s] = flip(stored[s])
        for k in range(cycles):
            on = ctx.real("on", 0, 100)
            gap = ctx.real("gap", 0, None)
            b.power(None, on)
            for cmd in (lambda: b.query("S1", "B", q=0), lambda: b.rep("S1"), lambda: b.ack(0)):
                ctx.check(cmd() is None, "silent while off")
            # the field may be measured, too weak, any number of times meanwhile
            weak = ctx.choose("updates while off", ["none", "nothing", "weak", "two"])
            if weak == "none":
                b.power(0.0, gap)
            else:
                part = ctx.real("first update", 0, None)
                b.power(ctx.real("weak power", -200, -18) if weak == "weak" else None, part)
                if weak == "two":
                    rest = ctx.real("second update", 0, None)
                    b.power(ctx.real("weak power", -200, -18), rest)
                    part = part + rest
                ctx.assume(part <= gap)
                b.power(0.0, gap - part)
            for s in NAMES:
                now = getattr(b.tag, s.lower()).name
                if s == "S0":
                    ctx.check(now == "A", "S0 is A after power-off", now)
                    stored[s] = "A"
                elif stored[s] == "A":
                    ctx.check(now == "A", "A stays A", f"{s}={now}")
                else:
                    lost = gap > pers[s]
                    ctx.check(lost if now == "A" else ctx.not_(lost), "kept while it persists",
                              f"{s} is {now} after {gap!r}, persistence {pers[s]!r}")
                    stored[s] = now
        ctx.reach("cycled")
    return fn


def first_on(ctx):
    t = ctx.real("t", 0, None)
    b = Bench(ctx, ("flags",))
    b.power(ctx.real("power", -18, 20, lo_open=True), t)
    for s in NAMES:
        ctx.check(getattr(b.tag, s.lower()).name == "A", "A at first power-on", s)
    b2 = Bench(ctx, ("flags",))
    on = ctx.choose("on", [False, True])
    b2.tag.setup(t, powered_on=on)
    for s in NAMES:
        ctx.check(getattr(b2.tag, s.lower()).name == "A", "A after setup", s)
    ctx.check((b2.tag.state.name == "READY") == on and
              (b2.tag.state.name == "OFF") == (not on), "state after setup")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("flips", flips(2 if q else 3), reach=["inventoried flags"]),
        Scenario("sessions", sessions, reach=["flips at its own command", "stays otherwise",
                                              "flips once"]),
        Scenario("many inventories", many(1100 if q else 5000), warm=0, path_s=300,
                 max_steps=200000, reach=["flips at its own command"]),
        Scenario("participation", participation,
                 reach=["takes part exactly when it matches", "no answer without match"]),
        Scenario("persistence", persistence(1 if q else 2),
                 reach=["S0 is A after power-off", "A stays A", "kept while it persists",
                        "silent while off", "cycled"]),
        Scenario("first power-on", first_on, reach=["A at first power-on", "A after setup"]),
    ]
