"""R06: notifications reach every listener once, and unfit replies are refused."""
import pysim.models.rfid.epcstd as std
from harness.readers import Bench, kind
from pysim.models.rfid.objects import Listeners, Reader
from symx.runner import Scenario

BOUNDS = [
    "every sequence of 5 (quick) / 6 (thorough) operations on a list of listeners (add, remove "
    "by any identifier, clear, notify), with symbolic arguments and own and passed keywords; "
    "listeners that remove themselves or others while being notified",
    "300 / 1100 listeners at once, 1500 / 5500 notifications",
    "every sequence of 5 / 7 reader steps (timeout, fitting reply, power off and on)",
    "every reply in every state of the reader, symbolic numbers",
]
OUTSIDE = ["listeners added while a notification is under way", "listeners that raise"]
ASSUME = []


def ops(n):
    def fn(ctx):
        ls = Listeners()
        got = []
        known = []                          # (id, name, own keywords), in order
        ids = []

        def hear(name):
            def f(*a, **k):
                got.append((name, a, k))
            return f
        for step in range(n):
            op = ctx.choose("op", ["add", "notify", "remove", "clear"])
            if op == "add":
                own = {"own": len(ids)} if ctx.choose("own", [False, True]) else {}
                i = ls.add(hear(len(ids)), **own)
                ctx.check(i not in ids, "identifiers are unique", f"{i}")
                known.append((i, len(ids), own))
                ids.append(i)
            elif op == "remove":
                i = ctx.choose("id", ids + [None, 77]) if ids else None
                ls.remove(i)
                known = [x for x in known if x[0] != i]
            elif op == "clear":
                ls.clear()
                known = []
            else:
                arg = ctx.int("arg", 0, 9)
                kw = {"passed": step, "own": "x"} if ctx.choose("kw", [False, True]) else {}
                got.clear()
                ls.call(arg, **kw)
                ctx.check([g[0] for g in got] == [k[1] for k in known],
                          "every listener once, in order", f"{got} of {known}")
                for (name, a, k), (_, _, own) in zip(got, known):
                    ctx.check(len(a) == 1, "arguments")
                    ctx.eq(a[0], arg, "arguments")
                    ctx.check(k == dict(kw, **own), "own keywords win", f"{k}")
        ctx.observe(len(known))
    return fn


def many(n):
    """Very many listeners and notifications."""
    def fn(ctx):
        ls = Listeners()
        got, ids = [], []

        def hear(i):
            return lambda x: got.append((i, x))
        for i in range(n):
            ids.append(ls.add(hear(i)))
        ctx.check(len(set(ids)) == n, "identifiers are unique")
        gone = ctx.choose("gone", [(), (0,), (n - 1,), (n // 2,), tuple(range(0, n, 3))])
        for i in gone:
            ls.remove(ids[i])
        arg = ctx.int("arg", 0, 9)
        for k in range(3):
            got.clear()
            ls.call(arg)
            ctx.check([i for i, _ in got] == [i for i in range(n) if i not in gone],
                      "every listener once, in order", f"{len(got)} of {n - len(gone)}")
        one = Listeners()
        times = []
        i = one.add(times.append)
        for k in range(5 * n):
            one.call(k)
            if k % n == n - 1:
                one.remove(i)
                i = one.add(times.append)
        ctx.check(times == list(range(5 * n)), "every listener once, in order", f"{len(times)}")
    return fn


def leaving(ctx):
    """Listeners removed while a notification is under way."""
    ls = Listeners()
    n = ctx.choose("listeners", [1, 2, 3])
    who = ctx.choose("remover", list(range(n)))
    got, ids = [], []

    def hear(i):
        def f():
            got.append(i)
            if i == who:
                ls.remove(ids[i])
        return f
    for i in range(n):
        ids.append(ls.add(hear(i)))
    ls.call()
    ctx.check(got == list(range(n)), "every listener once, in order", f"{got}")
    got.clear()
    ls.call()
    ctx.check(got == [i for i in range(n) if i != who], "the removed one is not told again",
              f"{got}")


def states(n):
    def fn(ctx):
        tid = ctx.choose("tid", [False, True])
        b = Bench(ctx, q=ctx.choose("q", [0, 1]), read_tid_bank=tid)
        r = b.reader
        seen = []
        r.state_change_listeners.add(lambda old, new: seen.append((old, new, r.state)))
        at = Reader.State.OFF
        want = {"QUERY": Reader.State.QUERY, "QREP": Reader.State.QREP,
                "ACK": Reader.State.ACK, "REQRN": Reader.State.REQRN,
                "READ": Reader.State.READ, None: Reader.State.OFF}
        f = None
        for _ in range(n):
            seen.clear()
            off = kind(f) is None
            step = "on" if off else ctx.choose("step", ["timeout", "reply", "off"])
            was = kind(f)
            if step == "on":
                f = r.turn_on()
            elif step == "off":
                f = r.turn_off()
            elif step == "timeout":
                f = r.timeout()
            else:
                rn = ctx.int("rn", 0, 65535)
                f = (b.rn16(rn) if was in ("QUERY", "QREP") else b.epc() if was == "ACK"
                     else b.handle(rn) if was == "REQRN" else b.data(rn))
            new = want[kind(f)]
            ctx.check(len(seen) == 1, "one announcement per change", f"{len(seen)}")
            ctx.check(seen[0][0] is at and seen[0][1] is new, "from the state left to the "
                      "one entered", f"{seen[0][0]} {seen[0][1]}")
            ctx.check(r.state is new, "the reader is in the state announced", f"{r.state}")
            at = new
        ctx.observe(str(at))
    return fn


FITS = {"OFF": (), "QUERY": ("rn16",), "QREP": ("rn16",), "QADJUST": ("rn16",),
        "ACK": ("epc",), "REQRN": ("handle",), "READ": ("data",)}


def unfit(ctx):
    state = ctx.choose("state", list(FITS))
    reply = ctx.choose("reply", ["rn16", "epc", "handle", "data"])
    b = Bench(ctx, q=ctx.choose("q", [1, 2]), read_tid_bank=True)
    r = b.reader
    rn = ctx.int("rn", 0, 65535)
    if state != "OFF":
        r.turn_on()
    if state == "QREP":
        r.timeout()
    elif state == "QADJUST":
        r.updn = 1
        r.set_state(Reader.State.QAdjust)
    elif state in ("ACK", "REQRN", "READ"):
        b.rn16(rn)
        if state != "ACK":
            b.epc()
        if state == "READ":
            b.handle(rn)
    at = r.state
    fn = {"rn16": lambda: b.rn16(rn), "epc": b.epc, "handle": lambda: b.handle(rn),
          "data": lambda: b.data(rn)}[reply]
    if reply in FITS[state]:
        ctx.check(fn() is not None, "a fitting reply is answered")
        return
    events = list(b.events)
    if state == "OFF":
        ctx.check(fn() is None, "ignored while off")
    else:
        try:
            fn()
            ctx.fail("an unfit reply is refused", f"{reply} in {state}")
        except RuntimeError:
            ctx.reach("refused")
    ctx.check(r.state is at and b.events == events, "a refused reply changes nothing",
              f"{r.state}")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("listeners", ops(5 if q else 6), reach=[
            "every listener once, in order", "own keywords win", "identifiers are unique"]),
        Scenario("many listeners", many(300 if q else 1100), warm=0,
                 reach=["every listener once, in order"]),
        Scenario("leaving", leaving, reach=["the removed one is not told again"]),
        Scenario("states", states(5 if q else 7), reach=["one announcement per change",
                                                         "from the state left to the one entered"]),
        Scenario("unfit replies", unfit, reach=["refused", "ignored while off",
                                                "a fitting reply is answered"]),
    ]
