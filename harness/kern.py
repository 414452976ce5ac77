"""Shared pieces of the kernel harnesses: a recorder that knows, independently of the
code, which events are pending and which one has to come next."""
import functools

from pysim.sim import build_simulation, run_simulation


class Rec:
    __slots__ = ("seq", "due", "id", "state", "args", "by")

    def __init__(self, seq, due, id_, args=(), by=None):
        self.seq, self.due, self.id, self.args, self.by = seq, due, id_, args, by
        self.state = "pending"


def before(ctx, a, b):
    """a has to run before b."""
    if a.seq < b.seq:
        return a.due <= b.due
    return a.due < b.due


class Book:
    """The pending set as the property defines it."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.recs = []
        self.log = []
        self.last = 0.0

    def add(self, due, id_, args=(), by=None):
        r = Rec(len(self.recs), due, id_, args, by)
        self.recs.append(r)
        return r

    def pending(self):
        return [r for r in self.recs if r.state == "pending"]

    def ran(self, r, order="order", once="once"):
        ctx = self.ctx
        ctx.check(r.state == "pending", once,
                  f"event {r.seq} ran while {r.state}")
        r.state = "done"
        for p in self.pending():
            ctx.check(before(ctx, r, p), order,
                      f"event {r.seq} ran before event {p.seq}")
        self.log.append(r.seq)


class Functor:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, sim, *args):
        return self.fn(sim, *args)

    def method(self, sim, *args):
        return self.fn(sim, *args)


def handler_as(kind, fn):
    if kind == "function":
        def handler(sim, *args):
            return fn(sim, *args)
        return handler
    if kind == "lambda":
        return lambda sim, *a: fn(sim, *a)
    if kind == "method":
        return Functor(fn).method
    if kind == "functor":
        return Functor(fn)
    if kind == "partial":
        return functools.partial(lambda f, sim, *a: f(sim, *a), fn)
    raise ValueError(kind)


def args_as(kind, vals):
    if kind == "tuple":
        return tuple(vals)
    if kind == "list":
        return list(vals)
    if kind == "generator":
        return (v for v in vals)
    if kind == "dict keys":
        return dict.fromkeys(vals).keys()
    raise ValueError(kind)


def run(init, **kw):
    return run_simulation(build_simulation("model", init, **kw))


class Long:
    """A long run: a ticker of symbolic period; every third tick schedules an event half a period
    ahead, every fourth one an event that the next tick cancels; one more event at any time."""

    def __init__(self, ctx, n, period=None, **kw):
        self.ctx, self.n = ctx, n
        self.d = ctx.real("period", 0.25, 4) if period is None else period
        self.ticks, self.halves, self.lone = [], [], []
        self.ran, self.doomed, self.times = [], None, []
        self.cancels = []                    # (what cancel said, what was named was pending)
        self.handler = self.stop_at = None
        self.kw = kw

    def step(self, sim, handler):
        self.times.append(sim.time)
        self.ran.append(handler)
        if len(self.ran) == self.stop_at:
            sim.stop("far enough")

    def tick(self, sim, i):
        self.step(sim, self.tick)
        self.ticks.append((i, sim.time))
        if self.doomed is not None:
            self.cancels.append((sim.cancel(self.doomed), 1))
            self.cancels.append((sim.cancel(self.doomed), 0))
            self.doomed = None
        if i < self.n:
            sim.schedule(self.d, self.tick, (i + 1,))
        if i % 3 == 0:
            sim.schedule(self.d / 2, self.half, (i,))
        if i % 4 == 0 and i < self.n:
            self.doomed = sim.schedule(self.d * 1.5, self.never, (i,))

    def half(self, sim, i):
        self.step(sim, self.half)
        self.halves.append((i, sim.time))

    def never(self, sim, i):
        self.ctx.fail("a cancelled event does not run", f"{i}")

    def other(self, sim):
        self.step(sim, self.other)
        self.lone.append(sim.time)

    def go(self):
        def init(sim):
            sim.schedule(self.d, self.tick, (1,))
            if self.when is not None:
                sim.schedule(self.when, self.other)
        self.stats, _, self.value = run(init, **self.kw)
        return self

    when = None


def total(n):
    """Events of a long run of n ticks."""
    return n + n // 3


def due(long):
    """(handler, time) of every event of the run in its order, with no lone event"""
    for i in range(1, long.n + 1):
        yield long.tick, i, long.d * i
        if i % 3 == 0:
            yield long.half, i, long.d * i + long.d / 2
