"""F02: which simulations a command line starts."""
import pysim.models.pingpong.cli as ppcli
import pysim.models.rfid.cli as rfcli
import pysim.models.rfid.configurator as conf
import pysim.models.rfid.epcstd as std
import pysim.models.tag_time.cli as ttcli
from harness.pp import near
from harness.runs import quiet, replaced
from symx.runner import Scenario

BOUNDS = [
    "every parameter that can be given several times, with 1 to 4 symbolic values (thorough: 5) "
    "in any order and with any equalities, the others one symbolic value each",
    "numbers of different lengths as text (a table of concrete values)",
    "every pair of parameters both given twice",
    "tag-time: 1 to 3 pairs of vectors of symbolic numbers, unequal numbers, scenarios 0 to 4, "
    "symbolic number of chunks",
]
OUTSIDE = ["parsing of the command line by click", "values that are not finite numbers"]
ASSUME = ["the process pool runs every job once and returns the results in order (replaced by a "
          "stand-in that does)", "the simulations themselves (replaced by stand-ins that record "
          "their parameters)"]

RF = ("speed", "tid_word_size", "altitude", "reader_offset", "tag_offset", "power")
PPN = ("interval", "channel_delay", "service_delay", "loss_prob", "max_pings")
INT = ("speed", "tid_word_size", "power", "max_pings")


def value(ctx, name):
    if name in INT:
        return ctx.int(name, 0, 1000)
    return ctx.real(name, 0, 1 if name == "loss_prob" else 1000)


class Stats:
    def __init__(self, k):
        self.k = k

    def average_rounds_per_tag(self): return ("rounds", self.k)
    def inventory_probability(self): return ("inventory", self.k)
    def read_tid_probability(self): return ("tid", self.k)
    def average_changing_q(self): return 0


class FakeModel:
    def __init__(self, k):
        self.statistics = Stats(k)


class Rfid:
    """The RFID command line with a recorder instead of the simulation."""
    names = RF
    cli = rfcli

    def __init__(self, ctx):
        self.calls, self.reports, self.runs = [], [], []
        self.enc = ctx.choose("encoding", ["1", "2", "4", "8"])
        self.tari = ctx.choose("tari", ["6.25", "12.5", "18.75", "25"])
        self.fixed = {"num_tags": ctx.int("num_tags", 1, 1000), "verbose": False,
                      "useadjust": ctx.choose("useadjust", [False, True]),
                      "delta": ctx.real("delta", 0, 10), "encoding": self.enc,
                      "tari": self.tari}

    def run(self, kw):
        def create(settings=None, verbose=False, **k):
            self.calls.append(k)
            return FakeModel(len(self.calls) - 1)

        def runm(model, *a, **k):
            self.runs.append(model.statistics.k)
        with quiet(rfcli), replaced((conf, "create_model", create), (conf, "run_model", runm),
                                    (rfcli, "result_processing",
                                     lambda *a: self.reports.append(a))):
            rfcli.cli_run.callback(**dict(self.fixed, **kw))

    def got(self, call, name):
        v = call[name]
        return v * 3.6 if name == "speed" else v

    def rest(self, ctx, call):
        want = {"1": "FM0", "2": "M2", "4": "M4", "8": "M8"}[self.enc]
        ctx.check(call["encoding"] is std.TagEncoding[want], "encoding as given")
        ctx.eq(call["tari"] * 1e6, float(self.tari), "tari in seconds")
        ctx.check(call["useadjust"] == self.fixed["useadjust"], "QueryAdjust as given")
        ctx.eq(call["delta"], self.fixed["delta"], "QueryAdjust coefficient as given")
        ctx.check(near(ctx, call["num_tags"], self.fixed["num_tags"]), "tags as given")

    def results(self, ctx, n):
        ctx.check(self.runs == list(range(n)), "each model is run once", f"{self.runs}")
        ctx.check(len(self.reports) == 1, "reported once")
        res = self.reports[0][1]
        if n == 1 and isinstance(res, tuple):
            res = [res]
        ctx.check([r[0]["read_tid_prob"] for r in res] == [("tid", k) for k in range(n)]
                  and [r[0]["inventory_prob"] for r in res] == [("inventory", k)
                                                                for k in range(n)]
                  and [r[0]["rounds_per_tag"] for r in res] == [("rounds", k)
                                                                for k in range(n)],
                  "each simulation's own statistics", f"{res}")


class PingPong:
    names = PPN
    cli = ppcli

    def __init__(self, ctx):
        self.calls, self.reports = [], []

    def run(self, kw):
        def runm(c, *a, **k):
            self.calls.append(c)
            return ("result", len(self.calls) - 1)
        with quiet(ppcli), replaced((ppcli, "run_model", runm),
                                    (ppcli, "result_processing",
                                     lambda *a: self.reports.append(a))):
            ppcli.cli_run.callback(**kw)

    def got(self, call, name):
        return getattr(call, name)

    def rest(self, ctx, call):
        pass

    def results(self, ctx, n):
        ctx.check(len(self.reports) == 1, "reported once")
        res = self.reports[0][1]
        if n == 1 and not isinstance(res, list):
            res = [res]
        ctx.check(res == [("result", k) for k in range(n)], "each simulation's own result",
                  f"{res}")


DIGITS = [(10, 9), (100, 20, 3), (1000, 999, 0, 10), (9, 10, 9, 1, 10)]


def several(kind, top, table=None):
    def scenario(ctx):
        if ctx.symbolic:
            ctx.ex.hash_mode = "constant"
        m = kind(ctx)
        name = ctx.choose("varied", kind.names)
        k = ctx.choose("values", list(range(1, top + 1)) if table is None else table)
        kw = {n: (value(ctx, n),) for n in kind.names}
        if table is None:
            kw[name] = tuple(value(ctx, name) for _ in range(k))
        else:
            # numbers of different lengths, so that their order as text is another one
            scale = 1 if name in INT else ctx.choose("scale", [1.0, 0.01, 1e-5])
            kw[name], k = tuple(v * scale for v in k), len(k)
        given = dict(kw)
        m.run(kw)
        n = len(m.calls)
        ctx.check(1 <= n <= k, "no more simulations than values", f"{n} for {k}")
        vals = [m.got(c, name) for c in m.calls]
        for a, b in zip(vals, vals[1:]):
            ctx.check(a < b, "distinct values in increasing order", f"{vals}")
        for v in given[name]:
            ctx.check(ctx.or_(*[near(ctx, v, x) for x in vals]), "every value is simulated",
                      f"{v} not in {vals}")
        for x in vals:
            ctx.check(ctx.or_(*[near(ctx, v, x) for v in given[name]]), "only given values",
                      f"{x}")
        for c in m.calls:
            for other in kind.names:
                if other != name:
                    ctx.check(near(ctx, m.got(c, other), given[other][0]),
                              "other parameters unchanged", f"{other}: {m.got(c, other)}")
            m.rest(ctx, c)
        m.results(ctx, n)
        ctx.observe(n)
    return scenario


def refused(kind):
    def scenario(ctx):
        if ctx.symbolic:
            ctx.ex.hash_mode = "constant"
        m = kind(ctx)
        a = ctx.choose("first", kind.names)
        b = ctx.choose("second", [n for n in kind.names if n != a])
        three = ctx.choose("third", [False, True])
        kw = {n: (value(ctx, n),) for n in kind.names}
        for n in (a, b) + (tuple(x for x in kind.names if x not in (a, b))[:1] if three else ()):
            kw[n] = (value(ctx, n), value(ctx, n))
        try:
            m.run(kw)
        except Exception as e:
            ctx.check(not m.calls, "nothing is simulated", f"{len(m.calls)} after {e!r}")
            ctx.reach("refused")
            return
        ctx.fail("two parameters with several values are refused", f"{a} and {b}")
    return scenario


def tagtime(ctx):
    m = ctx.choose("probability vectors", [1, 2, 3])
    k = ctx.choose("time vectors", [1, 2, 3])
    s = ctx.choose("scenario", [0, 1, 2, 3, 4])
    probs = tuple(tuple(ctx.real("p", 0, 1) for _ in range(4)) for _ in range(m))
    times = tuple(tuple(ctx.real("t", 0, 100) for _ in range(4)) for _ in range(k))
    chunks = ctx.int("chunks", -2, 50)
    n = ctx.int("transmissions", 0, 1000)
    bad = ctx.or_(m != k, s not in (1, 2, 3), ctx.and_(s == 3, chunks < 1))
    calls = []

    def runm(c, *a, **kk):
        calls.append(c)
        return ("result", len(calls) - 1)
    try:
        with quiet(ttcli), replaced((ttcli, "run_model", runm)):
            res = ttcli.cli_run.callback(probability=probs, processing_time=times,
                                         max_transmisions=n, chunks_number=chunks, scenario=s)
    except Exception as e:
        ctx.check(bad, "only bad input is refused", f"{e!r}")
        ctx.check(not calls, "nothing is simulated")
        ctx.reach("refused")
        return
    ctx.check(ctx.not_(bad), "bad input is refused", f"{m} and {k} vectors, scenario {s}")
    ctx.check(len(calls) == m, "one simulation per pair", f"{len(calls)}")
    for i, c in enumerate(calls):
        for j in range(4):
            ctx.check(near(ctx, c.probability[j], probs[i][j]), "pairs in the given order")
            ctx.check(near(ctx, c.processing_time[j], times[i][j]), "pairs in the given order")
        ctx.check(ctx.and_(near(ctx, c.chunks_number, chunks),
                           near(ctx, c.max_transmisions, n), c.scenario == s),
                  "other parameters unchanged")
    if m == 1 and not isinstance(res, list):
        res = [res]
    ctx.check(res == [("result", i) for i in range(m)], "each simulation's own result",
              f"{res}")


def scenarios(tier):
    top = 5 if tier == "thorough" else 4
    r = ["every value is simulated", "distinct values in increasing order",
         "other parameters unchanged"]
    return [
        Scenario("RFID", several(Rfid, top), reach=r),
        Scenario("Ping-Pong", several(PingPong, top), reach=r),
        Scenario("RFID digits", several(Rfid, 0, DIGITS), reach=r),
        Scenario("Ping-Pong digits", several(PingPong, 0, DIGITS), reach=r),
        Scenario("RFID refusal", refused(Rfid), reach=["refused"]),
        Scenario("Ping-Pong refusal", refused(PingPong), reach=["refused"]),
        Scenario("tag-time", tagtime, reach=["refused", "pairs in the given order"]),
    ]
