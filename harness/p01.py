"""P01: Ping-Pong counts and result."""
from pysim.models.pingpong import cli
from pysim.sim.logger import ModelLoggerConfig
from harness.pp import LOSSES, config, near, pattern, play
from symx.runner import Scenario

BOUNDS = [
    "interval, channel delay and service delay each symbolic in [0, 1000], loss probability "
    "symbolic in [0, 1], every random draw symbolic in [0, 1), first packet number symbolic",
    "0 to 6 pings configured (thorough: to 8), or none configured with an event limit; ended by "
    "their number, by an event limit of 1 to 16 (thorough: 32), by a model time limit symbolic in "
    "[0, 8000]",
    "1100 (thorough: 2600) pings in which losses follow one of five patterns, durations symbolic",
]
OUTSIDE = ["a run stopped by the wall clock (K02)", "more pings than stated, other patterns of losses in long runs"]
ASSUME = ["random.random gives values of [0, 1), random.randint integers of its range",
          "statistics.mean is the sum over the number of values"]


def lost(ctx, conf, tr):
    """How many draws lost their ping, as a term."""
    n = 0
    for _, u in tr.draws:
        n = n + ctx.ite(u < conf.loss_prob, 1, 0)
    return n


def judge(ctx, conf, tr, model, result, complete):
    c = model.client
    sent = c.num_pings_sent
    if conf.max_pings is not None:
        ctx.check(sent <= conf.max_pings, "no more pings than configured", f"{sent}")
    if complete:
        ctx.check(near(ctx, sent, conf.max_pings), "all pings sent", f"{sent} of {conf.max_pings}")
        ctx.check(near(ctx, c.num_acknowledged + c.num_missed, sent), "every ping accounted for",
                  f"{c.num_acknowledged}+{c.num_missed} of {sent}")
        ctx.check(near(ctx, len(tr.draws), sent), "every ping reaches the server",
                  f"{len(tr.draws)} draws for {sent} pings")
        ctx.check(near(ctx, c.num_missed, lost(ctx, conf, tr)), "missed counter is the number lost")
        want = lost(ctx, conf, tr) / sent if sent else 0
        ctx.check(near(ctx, result.miss_rate, want), "miss rate is the lost fraction",
                  f"{result.miss_rate}")
    else:
        open_ = sent - c.num_acknowledged - c.num_missed
        ctx.check(ctx.or_(near(ctx, open_, 0), near(ctx, open_, 1)), "at most one ping under way",
                  f"{c.num_acknowledged}+{c.num_missed} of {sent}")
        n = lost(ctx, conf, tr)
        ctx.check(ctx.and_(c.num_missed <= n, n <= c.num_missed + 1),
                  "missed counter is the number lost, before the next timeout")
        if sent:
            rate = result.miss_rate
            ctx.check(ctx.or_(near(ctx, rate, c.num_missed / sent), near(ctx, rate, n / sent)),
                      "miss rate of the pings so far", f"{rate}")
    ctx.check(near(ctx, c.num_bad_pongs, 0), "every pong answers its ping", f"{c.num_bad_pongs}")
    ctx.check(ctx.and_(result.miss_rate >= 0, result.miss_rate <= 1), "miss rate in [0, 1]")
    if len(tr.acked):
        ctx.check(near(ctx, result.avg_interval, conf.interval), "average of the intervals",
                  f"{result.avg_interval}")
    if len(tr.sent):
        if not ctx.symbolic or len(tr.travels):
            ctx.check(near(ctx, result.avg_delay, conf.channel_delay), "average of the delays",
                      f"{result.avg_delay}")
    ctx.observe(sent, c.num_acknowledged, c.num_missed, len(tr.draws))


def complete(top):
    def scenario(ctx):
        n = ctx.choose("pings", list(range(top + 1)))
        conf = config(ctx, n)
        tr, model, result, _ = play(ctx, conf)
        judge(ctx, conf, tr, model, result, True)
    return scenario


def events(top, lim):
    def scenario(ctx):
        n = ctx.choose("pings", [None, 0, 1, top])
        conf = config(ctx, n)
        cut = ctx.choose("events", list(range(1, lim + 1)))
        tr, model, result, _ = play(ctx, conf, max_num_events=cut)
        judge(ctx, conf, tr, model, result, False)
    return scenario


def until(top):
    def scenario(ctx):
        n = ctx.choose("pings", [0, 1, top])
        conf = config(ctx, n)
        tr, model, result, _ = play(ctx, conf, max_sim_time=ctx.real("limit", 0, 8000))
        judge(ctx, conf, tr, model, result, False)
    return scenario


def long(sizes):
    def scenario(ctx):
        n, conf, tr, model, result, _ = pattern(
            ctx, lambda n, **kw: config(ctx, n, **kw), list(LOSSES), sizes)
        judge(ctx, conf, tr, model, result, True)
    return scenario


def entry(ctx):
    """The model's own entry point gives the result of such a run."""
    n = ctx.choose("pings", [0, 1, 2])
    conf = config(ctx, n)
    draws = [ctx.real("draw", 0, 1, hi_open=True) for _ in range(n)]
    left = list(draws)
    ctx.rt.on_unit = lambda: left.pop(0)
    how = ctx.choose("entry", ["run_model", "create_config"])
    if how == "run_model":
        r = cli.run_model(conf, ModelLoggerConfig())
    else:
        r = cli.create_config({k: getattr(conf, k) for k in (
            "interval", "channel_delay", "service_delay", "loss_prob", "max_pings")})
    gone = 0
    for u in draws:
        gone = gone + ctx.ite(u < conf.loss_prob, 1, 0)
    ctx.check(near(ctx, r.miss_rate, gone / n if n else 0), "entry point's miss rate")
    if n:
        ctx.check(near(ctx, r.avg_delay, conf.channel_delay), "entry point's delay")
        ctx.check(ctx.implies(gone < n, near(ctx, r.avg_interval, conf.interval)),
                  "entry point's interval")


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Scenario("all pings", complete(8 if deep else 6), reach=[
            "every ping accounted for", "average of the intervals", "average of the delays"]),
        Scenario("event limit", events(6 if deep else 4, 32 if deep else 16),
                 reach=["at most one ping under way"]),
        Scenario("time limit", until(5 if deep else 3), reach=["at most one ping under way"]),
        Scenario("long run", long([1100, 2600] if deep else [1100]),
                 reach=["every ping accounted for", "average of the intervals"],
                 warm=0, path_s=300, max_steps=200000),
        Scenario("entry points", entry, reach=["entry point's miss rate"]),
    ]
