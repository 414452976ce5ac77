"""Ping-Pong: a run of the real model in which every change of the client's counters, every
entry of the channel's list and every draw is noted with the model time."""

from pysim.models.pingpong.handlers import finalize, initialize
from pysim.models.pingpong.objects import Config
from pysim.sim import build_simulation, run_simulation

COUNTERS = ("num_pings_sent", "num_acknowledged", "num_missed", "num_bad_pongs")


class Noted(list):
    def __init__(self, items, note):
        super().__init__(items)
        self.note = note

    def append(self, v):
        super().append(v)
        self.note(v)


class Trace:
    def __init__(self):
        self.sent, self.acked, self.missed, self.bad = [], [], [], []
        self.draws = []            # (time, draw)
        self.travels = []          # times of channel entries
        self.sim = None

    def now(self):
        return self.sim.time


def watch(tr, client):
    lists = {"num_pings_sent": tr.sent, "num_acknowledged": tr.acked,
             "num_missed": tr.missed, "num_bad_pongs": tr.bad}

    class Watched(type(client)):
        def __setattr__(self, name, value):
            if name in lists:
                lists[name].append(tr.now())
            super().__setattr__(name, value)
    client.__class__ = Watched


def config(ctx, pings, **over):
    kw = dict(interval=ctx.real("interval", 0, 1000), channel_delay=ctx.real("channel", 0, 1000),
              service_delay=ctx.real("service", 0, 1000), loss_prob=ctx.real("loss", 0, 1),
              max_pings=pings)
    kw.update(over)
    return Config(**kw)


def play(ctx, conf, cuts=None, **limits):
    """Run; -> (trace, model, result)"""
    tr = Trace()
    unit = ctx.rt.on_unit

    def draw():
        u = unit() if unit else ctx.real("draw", 0, 1, hi_open=True)
        tr.draws.append((tr.now(), u))
        return u
    ctx.rt.on_unit = draw

    def init(sim, c):
        tr.sim = sim
        initialize(sim, c)
        watch(tr, sim.context.client)
        chan = sim.context.channel
        if isinstance(getattr(chan, "delays_list", None), list):
            chan.delays_list = Noted(chan.delays_list, lambda v: tr.travels.append(tr.now()))
    try:
        stats, model, result = run_simulation(build_simulation(
            "pingpong", init=init, init_args=(conf,), fin=finalize, **limits))
    finally:
        ctx.rt.on_unit = unit
    return tr, model, result, stats


LOSSES = {"answered": lambda k: False, "lost": lambda k: True, "by turns": lambda k: k % 2 == 1,
          "rarely lost": lambda k: k % 50 == 49, "rarely answered": lambda k: k % 50 != 49}


def pattern(ctx, conf_of, patterns, sizes):
    """A long run: which pings are lost follows a pattern, every duration is symbolic."""
    n = ctx.choose("pings", sizes)
    how = LOSSES[ctx.choose("losses", patterns)]
    conf = conf_of(n, loss_prob=ctx.real("loss", 0.25, 0.75))
    k = iter(range(10 ** 9))
    unit = ctx.rt.on_unit
    ctx.rt.on_unit = lambda: 0.125 if how(next(k)) else 0.875
    try:
        return n, conf, *play(ctx, conf)
    finally:
        ctx.rt.on_unit = unit


def near(ctx, a, b):
    """a equals b, as a term."""
    return ctx.and_(a - b <= 1e-9, b - a <= 1e-9) if ctx.symbolic else abs(a - b) < 1e-6
