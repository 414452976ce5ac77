"""K03: cancelling removes exactly the named pending event."""
from harness.kern import Book, Long, run
from symx.runner import Scenario

BOUNDS = [
    "up to 4 (quick) / 5 (thorough) events with symbolic delays in [0, 8]; before the run and "
    "in every handler one cancellation of any identifier ever issued (pending, executed, "
    "cancelled, the running one), of an unknown one, of None, or none at all; handlers may "
    "schedule one more event",
    "a crowd of 70 / 200 events of which all but a few are cancelled at a symbolic moment",
    "a run of 1100 / 5000 ticks of any period with a cancellation in every fourth",
]
OUTSIDE = ["identifiers that are not integers or None"]
ASSUME = []


def try_cancel(ctx, book, sim, name):
    opts = ["no"] + [r.seq for r in book.recs] + ["unknown", "none"]
    what = ctx.choose(name, opts)
    if what == "no":
        return
    if what == "unknown":
        n = sim.cancel(10 ** 6 + 3)
        ctx.check(n == 0, "unknown or empty identifier reports zero", f"{n!r}")
        n = sim.cancel(-1)
        ctx.check(n == 0, "unknown or empty identifier reports zero", f"{n!r}")
        return
    if what == "none":
        n = sim.cancel(None)
        ctx.check(n == 0, "unknown or empty identifier reports zero", f"{n!r}")
        return
    rec = book.recs[what]
    n = sim.cancel(rec.id)
    if rec.state == "pending":
        ctx.check(n == 1, "pending event reports one", f"{n!r}")
        rec.state = "cancelled"
    else:
        ctx.check(n == 0, "event no longer pending reports zero", f"{n!r} for {rec.state}")


def program(n, first, ncancel):
    def fn(ctx):
        book = Book(ctx)
        budget = [ncancel]
        extra = [n - first]

        def plan(sim):
            cell = []
            d = ctx.real("d", 0, 8)
            eid = sim.schedule(d, handler, (cell,))
            cell.append(book.add(sim.time + d, eid))

        def handler(sim, cell):
            rec = cell[0]
            book.ran(rec, once="a cancelled or executed event does not run")
            if budget[0]:
                budget[0] -= 1
                try_cancel(ctx, book, sim, "cancel")
            if extra[0]:
                extra[0] -= 1
                plan(sim)

        def init(sim):
            for _ in range(first):
                plan(sim)
            if budget[0]:
                budget[0] -= 1
                try_cancel(ctx, book, sim, "cancel")

        stats, _, _ = run(init)
        for r in book.recs:
            ctx.check(r.state != "pending", "every other pending event runs",
                      f"event {r.seq} never ran")
        ctx.check(stats.num_events_processed == len(book.log), "event count")
        ctx.observe(book.log, [r.state for r in book.recs])
    return fn


def crowd(n):
    def fn(ctx):
        book = Book(ctx)
        keep = ctx.choose("keep", [0, 1, 3, n // 2])
        twice = ctx.choose("twice", [False, True])

        def init(sim):
            for i in range(n):
                cell = []
                d = float((i * 37 + 5) % (n // 2 + 1)) * 0.25
                eid = sim.schedule(d, handler, (cell,))
                cell.append(book.add(d, eid))
            sim.schedule(ctx.real("when", 0, n * 0.125 + 1), wipe)

        def handler(sim, cell):
            book.ran(cell[0], once="a cancelled or executed event does not run")

        def wipe(sim):
            stay = 0
            for r in book.recs:
                if r.state == "pending" and stay < keep and r.seq % 3 == 1:
                    stay += 1
                    continue
                m = sim.cancel(r.id)
                ctx.check(m == (1 if r.state == "pending" else 0), "crowd cancel count")
                if r.state == "pending":
                    r.state = "cancelled"
                if twice:
                    ctx.check(sim.cancel(r.id) == 0, "crowd cancel count")
            cell = []
            eid = sim.schedule(0.125, handler, (cell,))
            cell.append(book.add(sim.time + 0.125, eid))

        run(init)
        for r in book.recs:
            ctx.check(r.state != "pending", "every other pending event runs")
        ctx.observe(book.log)
    return fn


def long_run(n):
    """Very many cancellations, each of the one event named."""
    def fn(ctx):
        r = Long(ctx, n).go()
        for k, (said, pending) in enumerate(r.cancels):
            ctx.check(said == pending, "pending event reports one" if pending else
                      "event no longer pending reports zero", f"cancellation {k}: {said}")
        ctx.check(len(r.cancels) == 2 * ((n - 1) // 4), "all cancellations made",
                  f"{len(r.cancels)}")
        ctx.check(len(r.ticks) == n and len(r.halves) == n // 3,
                  "every other pending event runs", f"{len(r.ticks)} {len(r.halves)}")
    return fn


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("programs", program(4 if q else 5, 3 if q else 4, 2),
                 reach=["pending event reports one", "event no longer pending reports zero",
                        "unknown or empty identifier reports zero",
                        "every other pending event runs",
                        "a cancelled or executed event does not run", "order"]),
        Scenario("three cancellations", program(3 if q else 4, 3, 3),
                 reach=["pending event reports one", "event no longer pending reports zero"]),
        Scenario("long run", long_run(1100 if q else 5000), path_s=300, max_steps=200000, warm=0,
                 reach=["pending event reports one", "event no longer pending reports zero",
                        "every other pending event runs"]),
        Scenario("crowd", crowd(70 if q else 200), path_s=120,
                 reach=["crowd cancel count", "every other pending event runs"]),
    ]
