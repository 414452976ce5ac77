"""K01: every event once, in time order, first scheduled first on ties."""
from harness.kern import Book, Long, args_as, handler_as, run
from symx.runner import Scenario

BOUNDS = [
    "programs: up to 5 (quick) / 6 (thorough) events, every split between those scheduled by "
    "the initializer and those scheduled by running handlers (up to two each), all delays "
    "symbolic reals in [0, 8] with every pattern of ties",
    "call() instead of schedule() at any of up to 4 / 5 events",
    "a crowd of 70 / 150 concrete events and one (quick) or two (thorough) events with "
    "symbolic delays scheduled before, in the middle or from inside a running handler",
    "a run of 1100 / 2500 ticks of any period with events in between, one of them at any moment",
    "handlers: function, lambda, bound method, callable object, partial; arguments: tuple, "
    "list, generator, dictionary view, 0 to 3 of them",
]
OUTSIDE = ["not-a-number or infinite delays", "more than 6 events with symbolic delays"]
ASSUME = ["delays are exact reals in the encoding; rounding is covered by K02's float lemma"]


def program(n, use_call):
    def fn(ctx):
        book = Book(ctx)
        left = [n]

        def spawn(sim, by, k):
            for _ in range(k):
                left[0] -= 1
                cell = []
                if use_call and ctx.choose("call", [False, True]):
                    due = sim.time
                    eid = sim.call(handler, (cell,))
                else:
                    d = ctx.real("d", 0, 8)
                    due = sim.time + d
                    eid = sim.schedule(d, handler, (cell,))
                cell.append(book.add(due, eid, by=by))

        def handler(sim, cell):
            rec = cell[0]
            book.ran(rec)
            k = ctx.choose("spawn", list(range(min(2, left[0]) + 1)))
            spawn(sim, rec.seq, k)

        def init(sim):
            spawn(sim, None, ctx.choose("first", list(range(1, n + 1))))

        stats, _, _ = run(init)
        for r in book.recs:
            ctx.check(r.state == "done", "executed", f"event {r.seq} never ran")
        ctx.reach("finished")
        ctx.observe(book.log, stats.num_events_processed)
    return fn


def crowd(n, nsym):
    def fn(ctx):
        book = Book(ctx)

        def plan(sim, d):
            cell = []
            eid = sim.schedule(d, handler, (cell,))
            cell.append(book.add(sim.time + d, eid))

        where = ctx.choose("when", ["first", "middle", "inside"])

        def symbolic(sim):
            for _ in range(nsym):
                plan(sim, ctx.real("d", 0, 20))

        def init(sim):
            for i in range(n):
                if (i == 0 and where == "first") or (i == n // 2 and where == "middle"):
                    symbolic(sim)
                plan(sim, float((i * 37 + 11) % (n // 2 + 1)) * 0.25)

        state = {"done": False}

        def handler(sim, cell):
            book.ran(cell[0])
            if where == "inside" and len(book.log) == n // 3:
                symbolic(sim)

        run(init)
        for r in book.recs:
            ctx.check(r.state == "done", "executed", f"event {r.seq} never ran")
        ctx.observe(book.log)
    return fn


def long_run(n):
    """Every one of very many events, once each and in order, with one at any moment in between."""
    def fn(ctx):
        r = Long(ctx, n)
        r.when = r.d * ctx.choose("at", [1, n // 2, n - 1]) + ctx.real("off", 0, 0.125)
        r.go()
        ctx.check([i for i, _ in r.ticks] == list(range(1, n + 1)), "executed, once, in order",
                  f"{len(r.ticks)} of {n}")
        ctx.check([i for i, _ in r.halves] == list(range(3, n + 1, 3)),
                  "executed, once, in order", f"{len(r.halves)}")
        ctx.check(len(r.lone) == 1, "executed, once, in order", f"{len(r.lone)}")
        for j in list(range(0, len(r.times) - 1, 97)) + [len(r.times) - 2]:
            ctx.check(r.times[j] <= r.times[j + 1], "in time order", f"event {j}")
        k = r.ran.index(r.other)
        ctx.check(ctx.and_(r.times[k - 1] <= r.times[k], r.times[k] <= r.times[k + 1]),
                  "in time order", f"event {k}")
    return fn


def shapes(ctx):
    """Handlers and arguments of every kind arrive unchanged."""
    seen = []

    class Mark:
        pass
    vals = [Mark(), 7, "text"][:ctx.choose("nargs", [0, 1, 2, 3])]
    hk = ctx.choose("handler", ["function", "lambda", "method", "functor", "partial"])
    ak = ctx.choose("args", ["tuple", "list", "generator", "dict keys"])
    via = ctx.choose("via", ["schedule", "call"])
    d = ctx.real("d", 0, 4)
    d2 = ctx.real("d2", 0, 4)
    other = []
    h = handler_as(hk, lambda sim, *a: seen.append(a))

    def init(sim):
        sim.schedule(d2, lambda s, *a: other.append(a), ("other",))
        if via == "schedule":
            sim.schedule(d, h, args_as(ak, vals), "message")
        else:
            sim.call(h, args_as(ak, vals), "message")

    run(init)
    ctx.check(len(seen) == 1, "executed once", f"ran {len(seen)} times")
    ctx.check(len(seen[0]) == len(vals) and all(a is b for a, b in zip(seen[0], vals)),
              "arguments", f"{seen} instead of {vals}")
    ctx.check(other == [("other",)], "other event")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("programs", program(5 if q else 6, False),
                 reach=["order", "once", "executed", "finished"]),
        Scenario("programs with call", program(4 if q else 5, True),
                 reach=["order", "once", "executed", "finished"]),
        Scenario("crowd", crowd(70 if q else 150, 1 if q else 2), path_s=120,
                 reach=["order", "once", "executed"]),
        Scenario("long run", long_run(1100 if q else 2500), path_s=300, max_steps=200000, warm=0,
                 reach=["executed, once, in order", "in time order"]),
        Scenario("shapes", shapes, reach=["executed once", "arguments", "other event"]),
    ]
