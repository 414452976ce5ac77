"""S04: tags are created, tracked and retired as configured."""
from harness.system import LONG, World
from pysim.models.rfid.objects import Generator, Reader
from symx.runner import Scenario
import numpy as np

BOUNDS = [
    "one generator: any intervals (each different) and any lifetime, looked at any moment within "
    "the first 4 (quick) / 5 (thorough) creations",
    "two generators with limits -1, 0, 1, 2, one of any interval in [0.5, 5] s and any lifetime, "
    "the other of fixed ones, looked at any moment within the first 2 (quick) / 3 (thorough) "
    "creations of each",
    "stop after 1, 2 or 3 retired tags, one or two generators",
    "350 (quick) / 600 (thorough) tags at any interval in [0.5, 2] s, up to 41 present at once",
    "lifetime: any positive distance over any positive velocity",
]
OUTSIDE = ["other intervals with more tags in one run"]
ASSUME = ["the moment looked at is not itself a creation or retirement (that order is the "
          "kernel's, K01); real arithmetic"]


def generator(intervals, life, limit=-1, velocity=2.0):
    g = Generator()
    g.pos0 = np.array([0.0, 0.0, 0.0])
    g.tag_antenna_direction = np.array([0, 0, 1])
    g.velocity = velocity
    g.travel_distance = life * velocity
    g.max_tags_generated = limit
    g.asked = []

    def nxt(*args):
        g.asked.append(args)
        v = intervals[min(len(g.asked), len(intervals)) - 1]
        return v
    g.set_interval(nxt, g, "x")
    return g


def quiet_world(ctx, gens, limit=None):
    """The reader is on for a moment only, so what happens is tags coming and going."""
    w = World(ctx, puppets=0, power_control_mode=Reader.PowerControlMode.PERIODIC,
              power_on_duration=1e-9, power_off_duration=LONG)
    w.model.generators = gens
    w.model.max_tags_num = limit
    return w


def times(ctx, g, intervals, limit, most):
    """Creation times as configured, at most `most` of them."""
    out, t = [], 0.0
    for k in range(most):
        if 0 <= limit <= k:
            break
        t = t + intervals[min(k, len(intervals) - 1)]
        out.append(t)
    return out


def accounts(ctx, w, born, died, gens, label):
    """born, died: per generator the number so far; all tags in order of creation are known
    through the statistics."""
    m, st = w.model, w.model.statistics
    nb, nd = sum(born), sum(died)
    ctx.check(st.num_tags_created == nb, "created as configured",
              f"{label}: {st.num_tags_created} for {nb}")
    ctx.check(m.num_tags_simulated == nd, "retired as configured",
              f"{label}: {m.num_tags_simulated} for {nd}")
    ctx.check(len(m.tags) == nb - nd, "present as configured",
              f"{label}: {len(m.tags)} for {nb - nd}")
    ctx.check(len(st.tags_history) == nd, "one history record per retired tag",
              f"{label}: {len(st.tags_history)} for {nd}")
    ctx.check(len({id(t) for t in m.tags}) == len(m.tags), "present once")
    old = [r.tag for r in st.tags_history]
    ctx.check(len({id(t) for t in old}) == len(old), "retired once")
    for t in old:
        ctx.check(not any(t is x for x in m.tags), "either present or retired")
        ctx.check(st.get_tag_record(t) is None, "no current record of a retired tag")
    recs = [st.get_tag_record(t) for t in m.tags]
    ctx.check(all(r is not None and r.tag is t for r, t in zip(recs, m.tags)),
              "a current record of each present tag")
    ctx.check(len({id(r) for r in recs + st.tags_history}) == nb, "records are distinct")
    for g, b in zip(gens, born):
        ctx.check(g.num_tags_generated == b, "created by each generator",
                  f"{label}: {g.num_tags_generated} for {b}")


def one(n):
    def fn(ctx):
        iv = [ctx.real(f"interval{k}", 0, 10, lo_open=True) for k in range(n)]
        life = ctx.real("lifetime", 0, 30, lo_open=True)
        g = generator(iv + [LONG], life)
        w = quiet_world(ctx, [g])
        at = ctx.real("moment", 0, 10.0 * n)
        c = times(ctx, g, iv, -1, n)
        ctx.assume(ctx.and_(*[ctx.or_(at < x - 1e-9, at > x + 1e-9)
                              for x in c + [x + life for x in c]]))

        def look(k):
            born = sum(1 for x in c if x < at)
            died = sum(1 for x in c if x + life < at)
            accounts(ctx, w, [born], [died], [g], "moment")
            st = w.model.statistics
            tags = [r.tag for r in st.tags_history] + list(w.model.tags)
            ids = [t.tag_id for t in tags]
            ctx.check(ids == sorted(ids), "first created, first retired", f"{ids}")
            for x in tags:
                ctx.check(x.kernel is k, "tags know their model")
            ctx.reach("looked")
            k.stop()
        w.run(before=lambda k: k.schedule(at, look))
        ctx.check(all(a == (g, "x") for a in g.asked), "interval arguments")
    return fn


def two(n):
    def fn(ctx):
        a = ctx.real("interval a", 0.5, 5)
        b = 1.5
        la = ctx.real("lifetime a", 0, 20, lo_open=True)
        lb = ctx.choose("lifetime b", [0.7, 2.0])
        lim = ctx.choose("limits", [(-1, 0), (0, 1), (1, 2), (2, -1), (1, 1)])
        ga, gb = generator([a], la, lim[0]), generator([b], lb, lim[1], velocity=0.5)
        w = quiet_world(ctx, [ga, gb])
        at = ctx.real("moment", 0, 1.5 * n)
        ca, cb = times(ctx, ga, [a], lim[0], n), times(ctx, gb, [b], lim[1], n)
        ctx.assume(ctx.and_(*[ctx.or_(at < x - 1e-9, at > x + 1e-9)
                              for x in ca + [x + la for x in ca] + cb + [x + lb for x in cb]]))
        # the look falls within the creations counted
        ctx.assume(ctx.and_(*([at < n * a] if lim[0] < 0 else [])))

        def look(k):
            accounts(ctx, w, [sum(1 for x in ca if x < at), sum(1 for x in cb if x < at)],
                     [sum(1 for x in ca if x + la < at), sum(1 for x in cb if x + lb < at)],
                     [ga, gb], "moment")
            ctx.reach("looked")
            k.stop()
        w.run(before=lambda k: k.schedule(at, look))
    return fn


def stop(ctx):
    a = ctx.real("interval a", 0, 10, lo_open=True)
    la = ctx.real("lifetime a", 0, 20, lo_open=True)
    most = ctx.choose("most", [1, 2, 3])
    pair = ctx.choose("generators", [False, True])
    ga = generator([a], la)
    gens, deaths = [ga], [k * a + la for k in range(1, most + 1)]
    if pair:
        lb = ctx.real("lifetime b", 0, 20, lo_open=True)
        gens.append(generator([1.0, LONG], lb))
        deaths.append(1.0 + lb)
        ctx.assume(ctx.and_(*[ctx.or_(x < deaths[-1] - 1e-9, x > deaths[-1] + 1e-9)
                              for x in deaths[:-1]]))
        # keep the number of tags created before the end small
    ctx.assume(la < 3 * a)
    w = quiet_world(ctx, gens, most)
    r = w.run()
    stats = r[0]
    # the moment of the most-th retirement
    for x in deaths:
        if sum(1 for y in deaths if y <= x) == most:
            ctx.eq(stats.sim_time, x, "the run stops with the last tag to retire")
    ctx.check(w.model.num_tags_simulated == most, "as many as configured",
              f"{w.model.num_tags_simulated} for {most}")
    ctx.check(len(w.model.statistics.tags_history) == most, "as many as configured",
              f"{len(w.model.statistics.tags_history)} records for {most}")
    from pysim.sim import ExitReason
    ctx.check(stats.exit_reason is ExitReason.STOPPED, "stopped by the model",
              f"{stats.exit_reason}")


def many(n):
    """A long run: the n-th retirement still ends it, every tag has come and gone once."""
    def fn(ctx):
        a = ctx.real("interval", 0.5, 2)
        stay = ctx.choose("stay", [0.5, 2.5, 40.5])
        ends = ctx.choose("ends", ["run's limit", "generator's limit"])
        g = generator([a], a * stay, n if ends != "run's limit" else -1)
        w = quiet_world(ctx, [g], n if ends == "run's limit" else None)
        w.model.update_interval = LONG
        if ends != "run's limit":
            def finish(k):
                accounts(ctx, w, [n], [n], [g], "end")
                k.stop()
            r = w.run(before=lambda k: k.schedule(a * (n + 60), finish))
        else:
            r = w.run()
            ctx.eq(r[0].sim_time, n * a + a * stay,
                   "the run stops with the last tag to retire")
            born = n + int(stay + 0.5)
            g_n = g.num_tags_generated
            ctx.check(g_n in (born, born - 1), "created as configured", f"{g_n} for {born}")
        st = w.model.statistics
        ctx.check(len(st.tags_history) == n and w.model.num_tags_simulated == n,
                  "as many as configured",
                  f"{len(st.tags_history)} and {w.model.num_tags_simulated}, not {n}")
        ids = [x.tag.tag_id for x in st.tags_history]
        ctx.check(len(set(ids)) == n and ids == sorted(ids), "first created, first retired")
    return fn


def unlimited(ctx):
    life = ctx.real("lifetime", 0, 30, lo_open=True)
    w = quiet_world(ctx, [generator([1.0], life, limit=3)], None)
    w.model.update_interval = 1e6
    w.reader.power_off_duration = 1e6
    w.run(sim_time=100.0, before=lambda k: k.schedule(90.0, lambda kk: seen.append(
        w.model.num_tags_simulated)) if (seen := []) is not None else None)
    ctx.check(len(w.model.statistics.tags_history) == 3, "all retire without a limit of the run")


def lifetime(ctx):
    v = ctx.real("velocity", 0, 100, lo_open=True)
    d = ctx.real("distance", 0, 1000, lo_open=True)
    g = Generator()
    g.velocity, g.travel_distance = v, d
    ctx.eq(g.lifetime * v, d, "lifetime is distance over velocity")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("one generator", one(3 if q else 4),
                 reach=["looked", "created as configured", "present as configured",
                        "retired as configured", "first created, first retired"]),
        Scenario("two generators", two(2 if q else 3),
                 reach=["looked", "created by each generator"]),
        Scenario("stop", stop, reach=["the run stops with the last tag to retire",
                                      "as many as configured"]),
        Scenario("many tags", many(350 if q else 600), warm=0, path_s=300, max_steps=200000,
                 reach=["as many as configured", "the run stops with the last tag to retire"]),
        Scenario("unlimited", unlimited, reach=["all retire without a limit of the run"]),
        Scenario("lifetime", lifetime, reach=["lifetime is distance over velocity"]),
    ]
