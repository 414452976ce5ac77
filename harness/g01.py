"""G01: the tag-time simulation walks the scenario's chain and adds up the stays."""
import contextlib
import io

from pysim.models.tag_time import cli
from pysim.models.tag_time.objects import Config
from pysim.sim.logger import ModelLoggerConfig
from harness.pp import near
from symx.runner import Scenario

BOUNDS = [
    "four state probabilities each symbolic in [0, 1], four processing times each symbolic in "
    "[0, 1000], every draw symbolic in [0, 1)",
    "scenarios 1, 2 and 3, 0 to 3 transmissions, 1 to 4 chunks, every sequence of outcomes with "
    "up to 3 failures in a run (quick: 2), further attempts succeed",
    "8 (quick: 5) transmissions in a row with at most one failure anywhere among them",
    "1100 (thorough: 4000) transmissions with no failures, every 7th or every 450th attempt "
    "failing, probabilities symbolic in [0.25, 0.75] and any stays",
    "probabilities of exactly 0 and exactly 1 in one state",
]
OUTSIDE = ["more failures or transmissions than stated", "runs ended by a limit (K02)"]
ASSUME = ["random.random gives values of [0, 1)"]


class Walk:
    """The chain as the property describes it, driven by the draws the code asks for."""

    def __init__(self, ctx, scenario, probs, times, todo, chunks, failures):
        self.ctx, self.scenario, self.p, self.t = ctx, scenario, probs, times
        self.todo, self.failures = todo, failures
        self.chain = [0, 1, 2] + [3] * (chunks if scenario == 3 else 1)
        self.at, self.done, self.total, self.attempts = 0, 0, 0, 0

    def draw(self):
        ctx = self.ctx
        if self.done >= self.todo:
            ctx.fail("no attempt after the last transmission")
        u = ctx.real("draw", 0, 1, hi_open=True)
        k = self.chain[self.at]
        self.total = self.total + self.t[k]
        self.attempts += 1
        if self.failures == 0:
            ctx.assume(u < self.p[k])
            ok = True
        else:
            ok = bool(u < self.p[k])
        if ok:
            self.at += 1
            if self.at == len(self.chain):
                self.at, self.done = 0, self.done + 1
        else:
            self.failures -= 1
            if self.scenario == 1:
                self.at = 0
        return u


def go(ctx, conf):
    with contextlib.redirect_stdout(io.StringIO()):
        return cli.run_model(conf, ModelLoggerConfig())


def play(ctx, scenario, probs, times, todo, chunks, failures):
    w = Walk(ctx, scenario, probs, times, todo, chunks, failures)
    ctx.rt.on_unit = w.draw
    st = go(ctx, Config(probability=tuple(probs), processing_time=tuple(times),
                        max_transmisions=todo, chunks_number=chunks, scenario=scenario))
    ctx.check(w.done == todo, "ends after the configured transmissions",
              f"{w.done} of {todo}")
    ctx.check(w.at == 0, "the last transmission is complete")
    ctx.check(near(ctx, st.sim_time, w.total), "time is the sum of the stays",
              f"{st.sim_time} after {w.attempts} attempts")
    ctx.observe(w.attempts, st.sim_time)
    return w


def inputs(ctx):
    return ([ctx.real(f"p{i}", 0, 1) for i in range(4)],
            [ctx.real(f"t{i}", 0, 1000) for i in range(4)])


def chain(scenario, todos, chunks, failures):
    def run(ctx):
        probs, times = inputs(ctx)
        n = ctx.choose("transmissions", todos)
        c = ctx.choose("chunks", chunks)
        play(ctx, scenario, probs, times, n, c, failures)
    return run


def trips(most):
    """Many transmissions one after the other, at most one failure somewhere in them."""
    def run(ctx):
        probs, times = inputs(ctx)
        scenario = ctx.choose("scenario", [1, 2, 3])
        c = ctx.choose("chunks", [2, 3] if scenario == 3 else [2])
        play(ctx, scenario, probs, times, most, c, 1)
    return run


def long_run(most):
    """Very many transmissions; which attempts fail follows a pattern."""
    def run(ctx):
        probs = [ctx.real(f"p{i}", 0.25, 0.75) for i in range(4)]
        times = [ctx.real(f"t{i}", 0, 1000) for i in range(4)]
        scenario = ctx.choose("scenario", [1, 2, 3])
        bad = ctx.choose("fails", [0, 7, 450])
        w = Walk(ctx, scenario, probs, times, most, 2, 0)
        n = [0, 0, 0, 0]

        def draw():
            if w.done >= most:
                ctx.fail("no attempt after the last transmission")
            k = w.chain[w.at]
            n[k] += 1
            w.attempts += 1
            if bad and w.attempts % bad == 0:
                if scenario == 1:
                    w.at = 0
                return 0.875
            w.at += 1
            if w.at == len(w.chain):
                w.at, w.done = 0, w.done + 1
            return 0.125
        ctx.rt.on_unit = draw
        st = go(ctx, Config(probability=tuple(probs), processing_time=tuple(times),
                            max_transmisions=most, chunks_number=2, scenario=scenario))
        ctx.check(w.done == most and w.at == 0, "ends after the configured transmissions",
                  f"{w.done} of {most}")
        ctx.check(near(ctx, st.sim_time, sum(a * b for a, b in zip(n, times))),
                  "time is the sum of the stays", f"{st.sim_time} after {w.attempts} attempts")
    return run


def certain(ctx):
    """A state of probability 1 never fails, one of probability 0 is never left."""
    scenario = ctx.choose("scenario", [1, 2, 3])
    probs, times = inputs(ctx)
    k = ctx.choose("state", [0, 1, 2, 3])
    p = ctx.choose("probability", [0.0, 1.0, 0, 1])
    probs[k] = p
    if p == 1:
        w = play(ctx, scenario, probs, times, 1, 2, 1)
        ctx.reach("certain success")
        return
    # never left: the draws run until the state was tried a few times, then the run is cut
    seen = []

    class Enough(Exception):
        pass
    w = Walk(ctx, scenario, probs, times, 1, 2, 99)

    def draw():
        state = w.chain[w.at]
        if state == k:
            seen.append(1)
        elif state != k:
            u = ctx.real("draw", 0, 1, hi_open=True)
            ctx.assume(u < w.p[state])
            w.total = w.total + w.t[state]
            w.at += 1
            return u
        if len(seen) > 3:
            raise Enough
        return w.draw()
    ctx.rt.on_unit = draw
    try:
        go(ctx, Config(probability=tuple(probs), processing_time=tuple(times),
                       max_transmisions=1, chunks_number=2, scenario=scenario))
        ctx.fail("a state of probability 0 is never left")
    except Enough:
        ctx.reach("never left")


def scenarios(tier):
    deep = tier == "thorough"
    f = 3 if deep else 2
    r = ["time is the sum of the stays", "ends after the configured transmissions"]
    return [
        Scenario("back to the start", chain(1, [0, 1, 2] + ([3] if deep else []), [1, 2], f),
                 reach=r),
        Scenario("stay", chain(2, [0, 1, 2] + ([3] if deep else []), [1, 2], f), reach=r),
        Scenario("chunks", chain(3, [1, 2] + ([0, 3] if deep else []),
                                 [1, 2, 3] + ([4, 5] if deep else []), f), reach=r),
        Scenario("many transmissions", trips(8 if deep else 5), reach=r),
        Scenario("long run", long_run(1100 if not deep else 4000), reach=r, warm=0, path_s=300,
                 max_steps=200000),
        Scenario("certain outcomes", certain, reach=["certain success", "never left"]),
    ]
