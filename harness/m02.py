"""M02: running a model with limits is running it under the kernel with those limits."""
import contextlib
import io

import pysim.models.pingpong.cli as ppcli
import pysim.models.pingpong.handlers as pph
import pysim.models.rfid.configurator as conf
import pysim.models.rfid.handlers as rfh
import pysim.models.tag_time.cli as ttcli
import pysim.models.tag_time.handlers as tth
import pysim.sim.simulator as simulator
from harness.pp import near
from harness.runs import replaced
from harness.system import World
from pysim.models.pingpong.objects import Config as PPConfig
from pysim.models.tag_time.objects import Config as TTConfig
from pysim.sim import ModelLoggerConfig, build_simulation, run_simulation
from symx.runner import Scenario

BOUNDS = [
    "each model's run function with every subset of the three limits: event limit 0 to 6 (quick) "
    "/ 10 (thorough), symbolic model-time and real-time limits (the clock advancing by a "
    "symbolic amount at every look)",
    "Ping-Pong with up to 3 / 5 pings and symbolic delays, loss never or always; tag-time "
    "scenarios 1 to 3 with symbolic stay times and up to 2 / 3 transmissions; RFID with a "
    "reader and no answering tag, symbolic on-duration",
]
OUTSIDE = ["other model sizes (the models themselves are P01, P02, G01 and S01 to S09)"]
ASSUME = ["what a limit means is K05 and K06: the reference is the same kernel given the limits "
          "directly"]


class Spy:
    """Sees the result of every run of the kernel."""

    def __init__(self):
        runs = self.runs = []

        class Kernel(simulator.Kernel):
            def build_runner(self, *a, **k):
                for r in super().build_runner(*a, **k):
                    runs.append(r)
                    yield r
        self.sub = (simulator, "Kernel", Kernel)


def limits(ctx, most, far):
    kw = {}
    for name in ("max_num_events", "max_sim_time", "max_real_time"):
        if ctx.choose(name, [False, True]):
            kw[name] = ctx.choose("events", list(range(most + 1))) \
                if name == "max_num_events" else \
                ctx.real(name, 0, far if name == "max_sim_time" else 6)
    return kw


def clock(ctx, step):
    now = [100.0]

    def look():
        now[0] = now[0] + step
        return now[0]
    ctx.rt.clock = look


def compare(ctx, entry, init, args, fin, context, kw):
    """entry(limits) against the kernel; both start from the same draws and the same clock."""
    step = ctx.int("tick", 0, 2) if "max_real_time" in kw else 0.0
    spy = Spy()
    clock(ctx, step)
    with replaced(spy.sub), contextlib.redirect_stdout(io.StringIO()):
        out = entry(**kw)
    ctx.check(len(spy.runs) == 1, "one simulation is run", f"{len(spy.runs)}")
    got, seen, res = spy.runs[0]
    clock(ctx, step)
    with contextlib.redirect_stdout(io.StringIO()):
        want, there, ref = run_simulation(build_simulation(
            "model", init, init_args=args, fin=fin, context=context, **kw))
    ctx.check(got.num_events_processed == want.num_events_processed, "events of a limited run",
              f"{got.num_events_processed}, not {want.num_events_processed} for {kw}")
    ctx.check(got.exit_reason is want.exit_reason, "reason of the end of a limited run",
              f"{got.exit_reason}, not {want.exit_reason} for {kw}")
    ctx.eq(got.sim_time, want.sim_time, "model time of a limited run")
    ctx.observe(got.num_events_processed)
    return out, spy.runs[0], (want, there, ref)


def pingpong(pings, most):
    def scenario(ctx):
        n = ctx.choose("pings", [0, 1, pings])
        loss = ctx.choose("loss", [0, 1])
        c = PPConfig(interval=ctx.real("interval", 0, 10), channel_delay=ctx.real("ch", 0, 10),
                     service_delay=ctx.real("service", 0, 10), loss_prob=loss, max_pings=n)
        ctx.rt.on_unit = lambda: 0.5
        kw = limits(ctx, most, 60)
        out, _, (_, _, ref) = compare(
            ctx, lambda **k: ppcli.run_model(c, ModelLoggerConfig(), **k), pph.initialize, (c,),
            pph.finalize, None, kw)
        for f in ("avg_interval", "avg_delay", "miss_rate"):
            ctx.check(hasattr(out, f), "the run's own result", f"{out}")
            ctx.check(near(ctx, getattr(out, f), getattr(ref, f)), "the run's own result", f)
    return scenario


def tagtime(todo, most):
    def scenario(ctx):
        which = ctx.choose("scenario", [1, 2, 3])
        ts = tuple(ctx.real("time", 0, 10) for _ in range(4))
        c = TTConfig(probability=(0.9, 0.9, 0.9, 0.9), processing_time=ts,
                     max_transmisions=ctx.choose("transmissions", [1, todo]), chunks_number=2,
                     scenario=which)
        kw = limits(ctx, most, 60)
        draws = []

        def unit():
            draws.append(0.95 if not draws else 0.5)
            return draws[-1]
        ctx.rt.on_unit = unit

        def entry(**k):
            out = ttcli.run_model(c, ModelLoggerConfig(), **k)
            del draws[:]
            return out
        out, (got, _, _), _ = compare(ctx, entry, tth.initialize, (c,), tth.finalize, None, kw)
        ctx.check(out is got, "the run's own result", f"{out}")
    return scenario


def rfid(most):
    def scenario(ctx):
        on = ctx.real("on", 0.0002, 0.0016)

        def world():
            w = World(ctx, puppets=0)
            w.reader.power_control_mode = w.reader.PowerControlMode.PERIODIC
            w.reader.power_on_duration, w.reader.power_off_duration = on, 0.0004
            w.reader.power_on_listeners.clear()
            w.reader.power_off_listeners.clear()
            return w.model
        model = world()
        kw = limits(ctx, most, 0.002)
        if not kw:
            ctx.assume(False)           # nothing ends this run
        if "max_num_events" not in kw:
            kw["max_num_events"] = most + 4
        _, (_, seen, _), _ = compare(
            ctx, lambda **k: conf.run_model(model, ModelLoggerConfig(), **k),
            rfh.start_simulation, (), None, world(), kw)
        ctx.check(seen is model, "the model given is the one run")
    return scenario


def scenarios(tier):
    q = tier == "quick"
    most = 6 if q else 10
    common = ["events of a limited run", "reason of the end of a limited run",
              "model time of a limited run", "one simulation is run"]
    return [
        Scenario("Ping-Pong", pingpong(3 if q else 5, most), reach=common +
                 ["the run's own result"]),
        Scenario("tag-time", tagtime(2 if q else 3, most), reach=common +
                 ["the run's own result"]),
        Scenario("RFID", rfid(most), reach=common + ["the model given is the one run"]),
    ]
