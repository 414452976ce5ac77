"""P02: when pings are sent, reach the server and are answered; when they are lost."""
from harness.pp import LOSSES, config, near, pattern, play
from symx.runner import Scenario

BOUNDS = [
    "interval, channel delay and service delay each symbolic in [0, 1000], loss probability "
    "symbolic in [0, 1], every random draw symbolic in [0, 1), first packet number symbolic",
    "1 to 6 pings (thorough: to 8), every sequence of losses; loss probability exactly 0 and "
    "exactly 1 with every draw",
    "1100 (thorough: 2600) pings in which losses follow one of five patterns, durations symbolic",
]
OUTSIDE = ["more pings than stated, other patterns of losses in long runs", "rounding of the model time (K01)"]
ASSUME = ["random.random gives values of [0, 1), random.randint integers of its range"]


def judge(ctx, conf, tr, pings, stride=1):
    """Everything of every stride-th ping (times add up, so a slip shows up in the next one)."""
    t = 0
    acks = list(tr.acked)
    ctx.check(len(tr.sent) == pings, "each ping sent", f"{len(tr.sent)}")
    travels = list(tr.travels)
    for k in range(pings):
        look = k % stride == 0 or k > pings - 4
        if look:
            ctx.check(near(ctx, tr.sent[k], t), "ping sent in time", f"ping {k} at {tr.sent[k]}")
        if len(tr.draws) <= k:
            ctx.fail("each ping reaches the server", f"ping {k}")
        at, u = tr.draws[k]
        if look:
            ctx.check(near(ctx, at, t + conf.channel_delay), "reaches the server in time",
                      f"ping {k} at {at}")
        if travels:
            in_ = travels.pop(0)
            if look:
                ctx.check(near(ctx, in_, t), "enters the channel when sent")
        if u < conf.loss_prob:
            t = at + conf.interval
            ctx.reach("lost")
        else:
            ctx.check(len(acks) > 0, "an unlost ping is answered", f"ping {k}")
            back = at + conf.service_delay
            if travels:
                out = travels.pop(0)
                if look:
                    ctx.check(near(ctx, out, back), "pong sent after the service")
            ack = acks.pop(0)
            if look:
                ctx.check(near(ctx, ack, back + conf.channel_delay), "pong received in time",
                          f"pong {k} at {ack}")
            t = ack + conf.interval
            ctx.reach("answered")
    ctx.check(not acks, "a lost ping is not answered", f"{acks}")
    return t


def cycle(top):
    def scenario(ctx):
        n = ctx.choose("pings", list(range(1, top + 1)))
        conf = config(ctx, n)
        tr, model, result, stats = play(ctx, conf)
        end = judge(ctx, conf, tr, n)
        ctx.check(near(ctx, stats.sim_time, end), "ends one interval after the last outcome",
                  f"{stats.sim_time}")
        ctx.observe(len(tr.acked), stats.sim_time)
    return scenario


def long(sizes):
    def scenario(ctx):
        n, conf, tr, model, result, stats = pattern(
            ctx, lambda n, **kw: config(ctx, n, **kw), list(LOSSES), sizes)
        end = judge(ctx, conf, tr, n, 50)
        ctx.check(near(ctx, stats.sim_time, end), "ends one interval after the last outcome",
                  f"{stats.sim_time}")
    return scenario


def edges(ctx):
    n = ctx.choose("pings", [1, 3])
    p = ctx.choose("loss", [0, 1, 0.0, 1.0])
    conf = config(ctx, n, loss_prob=p)
    tr, model, result, _ = play(ctx, conf)
    judge(ctx, conf, tr, n)
    if p == 0:
        ctx.check(len(tr.acked) == n, "probability 0 never loses")
    else:
        ctx.check(len(tr.acked) == 0, "probability 1 always loses")


def scenarios(tier):
    return [
        Scenario("cycle", cycle(8 if tier == "thorough" else 6),
                 reach=["ping sent in time", "lost", "answered",
                        "ends one interval after the last outcome"]),
        Scenario("long run", long([1100, 2600] if tier == "thorough" else [1100]),
                 reach=["ping sent in time", "ends one interval after the last outcome"],
                 warm=0, path_s=300, max_steps=200000),
        Scenario("certain outcomes", edges, reach=["probability 0 never loses",
                                                   "probability 1 always loses"]),
    ]
