"""K04: the event queue's size, emptiness, listing and removal agree with its contents."""
from pysim.sim import EventQueue
from symx.runner import Scenario

BOUNDS = [
    "every sequence of 5 (quick) / 6 (thorough) operations among push with a symbolic time in "
    "[0, 8], pop, cancel of any identifier ever issued or of an unknown one, and clear",
    "4 / 5 pushes with symbolic times, then cancellation of any subset, then removal of all",
    "a crowd of 80 / 200 pushes with one symbolic time and cancellation of most of them",
    "1500 / 5000 events coming and going with one to four pending at a time, from any time on",
]
OUTSIDE = ["tasks that are None", "cancelling with an identifier of another queue"]
ASSUME = []


class Model:
    """What the queue should contain."""

    def __init__(self, ctx):
        self.ctx, self.q = ctx, EventQueue()
        self.items = {}           # id -> (time, order, task)
        self.ids = []
        self.n = 0

    def push(self, t):
        self.n += 1
        task = ("task", self.n)
        eid = self.q.push(t, task)
        self.ctx.check(eid not in self.ids, "identifiers never reused", f"{eid} again")
        self.ids.append(eid)
        self.items[eid] = (t, self.n, task)

    def pop(self):
        ctx = self.ctx
        try:
            got = self.q.pop()
        except KeyError:
            ctx.check(not self.items, "key error only when empty")
            return
        ctx.check(bool(self.items), "key error when empty", f"{got}")
        t, eid, task = got
        ctx.check(eid in self.items, "removes a pending event", f"{got}")
        if eid not in self.items:
            return
        mt, order, mtask = self.items.pop(eid)
        ctx.check(t == mt, "time returned as inserted")
        ctx.check(task == mtask, "task returned as inserted")
        for ot, oo, _ in self.items.values():
            ctx.check(mt <= ot if order < oo else mt < ot, "earliest first")

    def cancel(self, eid):
        self.q.cancel(eid)
        self.items.pop(eid, None)

    def clear(self):
        self.q.clear()
        self.items.clear()

    def agree(self):
        ctx, q = self.ctx, self.q
        ctx.check(len(q) == len(self.items), "size", f"{len(q)} for {len(self.items)}")
        ctx.check(bool(q.empty) == (not self.items), "emptiness flag")
        lst = list(q.to_list())
        ctx.check(len(lst) == len(self.items), "listing", f"{lst}")
        ctx.check(sorted(e[1] for e in lst) == sorted(self.items), "listing", f"{lst}")
        for e in lst:
            if e[1] in self.items:
                ctx.check(e[0] == self.items[e[1]][0], "listing")
                ctx.check(e[2] == self.items[e[1]][2], "listing")


def operations(n):
    def fn(ctx):
        m = Model(ctx)
        m.agree()
        for _ in range(n):
            op = ctx.choose("op", ["push", "pop", "clear", "unknown"]
                            + [("cancel", i) for i in range(len(m.ids))])
            if op == "push":
                m.push(ctx.real("t", 0, 8))
            elif op == "pop":
                m.pop()
            elif op == "clear":
                m.clear()
            elif op == "unknown":
                m.cancel(10 ** 6 + 7)
                m.cancel(None)
            else:
                m.cancel(m.ids[op[1]])
            m.agree()
        while m.items:
            m.pop()
            m.agree()
        m.pop()
        ctx.observe(m.n, [e for e in m.ids])
    return fn


def subsets(n):
    def fn(ctx):
        m = Model(ctx)
        for _ in range(n):
            m.push(ctx.real("t", 0, 8))
        for i in range(n):
            if ctx.choose("cancel", [False, True]):
                m.cancel(m.ids[i])
        m.agree()
        while m.items:
            m.pop()
            m.agree()
        m.pop()
        m.push(ctx.real("t", 0, 8))
        m.agree()
        m.pop()
        m.agree()
    return fn


def crowd(n):
    def fn(ctx):
        m = Model(ctx)
        m.push(ctx.real("t", 0, n * 0.25))
        for i in range(n):
            m.push(float((i * 37 + 5) % (n // 2 + 1)) * 0.5)
        keep = ctx.choose("keep", [0, 2, n // 2])
        first = ctx.choose("first", ["pop", "cancel"])
        if first == "pop":
            for _ in range(3):
                m.pop()
            m.agree()
        stay = 0
        for i, eid in enumerate(list(m.ids)):
            if stay < keep and i % 2 == 0:
                stay += 1
                continue
            m.cancel(eid)
            if i % 11 == 0:
                m.agree()
        m.agree()
        m.push(1.75)
        m.agree()
        while m.items:
            m.pop()
        m.agree()
        m.pop()
    return fn


def many(n):
    """A long life: very many events come and go, a few pending at any time."""
    def fn(ctx):
        q = EventQueue()
        t = ctx.real("t", 0, 4)
        keep = ctx.choose("pending", [1, 3])
        how = ctx.choose("leave by", ["pop", "cancel", "clear", "by turns"])
        seen, pending = set(), []
        for i in range(n):
            eid = q.push(t + i, ("task", i))
            ctx.check(eid not in seen, "identifiers never reused", f"{eid} again after {i}")
            seen.add(eid)
            pending.append((eid, i))
            if len(pending) > keep:
                out = how if how != "by turns" else ("cancel", "pop")[i % 2]
                if out == "pop":
                    at, e, task = q.pop()
                    ctx.check((e, task) == (pending[0][0], ("task", pending[0][1])),
                              "earliest first", f"{e} {task}")
                    ctx.check(at == t + pending.pop(0)[1], "time returned as inserted")
                elif out == "cancel":
                    q.cancel(pending.pop(0)[0])
                else:
                    q.clear()
                    pending = []
            if i % 50 == 49 or i > n - 4:
                ctx.check(len(q) == len(pending) and bool(q.empty) == (not pending), "size",
                          f"{len(q)} for {len(pending)}")
                ctx.check([e[1] for e in sorted(q.to_list(), key=lambda e: e[1])] ==
                          [p for p, _ in pending], "listing")
    return fn


def scenarios(tier):
    q = tier == "quick"
    labels = ["size", "emptiness flag", "listing", "earliest first", "identifiers never reused",
              "key error only when empty", "key error when empty"]
    return [
        Scenario("operations", operations(5 if q else 6), reach=labels),
        Scenario("subsets", subsets(4 if q else 5), reach=labels),
        Scenario("crowd", crowd(80 if q else 200), reach=labels, path_s=120),
        Scenario("many events", many(1500 if q else 5000), warm=0, path_s=300, max_steps=200000,
                 reach=["identifiers never reused", "size", "listing", "earliest first"]),
    ]
