"""L01: log destinations, levels, file names, time and run identifier."""
import contextlib
import io
import itertools
import logging
import os
import sys

from pysim.sim.logger import ModelLogger, ModelLoggerConfig
from harness.kern import run
from symx.runner import Scenario

BOUNDS = [
    "common, console and file level each absent (where allowed) or symbolic in [1, 60], record "
    "level symbolic in [1, 60], every combination of destinations, plain and coloured console",
    "file names: 11 shapes (with, without .log, upper case, several dots, spaces around, other "
    "extensions, nothing but the extension, directories), 4 separators, 4 run identifiers, with "
    "and without run identifier in the name",
    "1500 (quick) / 20000 (thorough) records of one run, of any two levels",
    "setup called once, twice, twice with force; model time and run identifier read at the time "
    "of each record",
]
OUTSIDE = ["handlers added by the user", "asynchronous writing", "levels of zero"]
ASSUME = ["Python's logging package runs as it is, except that its level cache and its table of "
          "level names are bypassed for symbolic levels"]

FMT = "{simTime}|{runId}|{name}|{message}"
_n = itertools.count()


@contextlib.contextmanager
def logging_on(ctx):
    saved = (logging.Logger.isEnabledFor, logging.getLevelName, sys.stderr)
    logging.disable(logging.NOTSET)
    if ctx.symbolic:
        logging.Logger.isEnabledFor = lambda self, level: (
            level > self.manager.disable and level >= self.getEffectiveLevel())
        logging.getLevelName = lambda level: "LEVEL"
    sys.stderr = io.StringIO()
    raise_, logging.raiseExceptions = logging.raiseExceptions, False
    try:
        yield sys.stderr
    finally:
        logging.raiseExceptions = raise_
        logging.Logger.isEnabledFor, logging.getLevelName, sys.stderr = saved
        logging.disable(logging.CRITICAL)
        for name, lg in list(logging.Logger.manager.loggerDict.items()):
            if name.startswith("symx") or name == "model":
                for h in list(getattr(lg, "handlers", [])):
                    with contextlib.suppress(Exception):
                        h.close()
                    lg.removeHandler(h)
                logging.Logger.manager.loggerDict.pop(name, None)


def fresh():
    return f"symx{next(_n)}"


def lines(path):
    if not os.path.exists(path):
        return None
    with open(path) as f:
        return [x for x in f.read().split("\n") if x]


def wipe():
    for root, dirs, files in os.walk(".", topdown=False):
        for f in files:
            os.unlink(os.path.join(root, f))


def levels(ctx):
    wipe()
    with logging_on(ctx) as err:
        dest = ctx.choose("destinations", ["none", "console", "file", "both"])
        common = ctx.int("level", 1, 60)
        clevel = ctx.int("console level", 1, 60) if ctx.choose(
            "own console level", [False, True]) else None
        flevel = ctx.int("file level", 1, 60) if ctx.choose(
            "own file level", [False, True]) else ctx.choose("no file level", [0, None])
        rec = ctx.int("record", 1, 60)
        kw = {"use_console": dest in ("console", "both"), "colored_console": False,
              "fmt": FMT, "level": common}
        if clevel is not None:
            kw["console_level"] = clevel
        if flevel is not None:
            kw["file_level"] = flevel
        if dest in ("file", "both"):
            kw["file_name"] = "out.txt"
        name = fresh()
        lg = ModelLogger(name, time_getter=lambda: 12, run_id=5)
        lg.setup(ModelLoggerConfig(**kw))
        lg.log(rec, "hello %s", "there")
        got_console = err.getvalue().count("hello there")
        got_file = "".join(lines("out.txt") or []).count("hello there")
        own_c = common if clevel is None else clevel
        own_f = common if flevel in (None, 0) else flevel
        if kw["use_console"]:
            ctx.check(ctx.iff(rec >= own_c, got_console == 1), "console iff level reached")
        else:
            ctx.check(got_console == 0, "no console unless enabled", err.getvalue())
        ctx.check(got_console <= 1 and got_file <= 1, "written once")
        if "file_name" in kw:
            ctx.check(ctx.iff(rec >= own_f, got_file == 1), "file iff level reached")
        else:
            ctx.check(lines("out.txt") is None, "no file unless enabled")
        ctx.observe(got_console, got_file)


def methods(ctx):
    """Each level method writes at its level, coloured or not, and the record is complete."""
    wipe()
    with logging_on(ctx) as err:
        which = ctx.choose("method", ["debug", "info", "warning", "error", "critical",
                                      "exception", "custom"])
        colored = ctx.choose("coloured", [False, True])
        level = ctx.choose("level", [1, 10, 11, 20, 30, 40, 41, 50])
        rid = ctx.choose("run id", [0, 7, 123456])
        via = ctx.choose("run id given", ["constructor", "setter"])
        now = ctx.choose("time", [0, 2.5, 1000000])
        num = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50,
               "exception": 40, "custom": 25}[which]
        lg = ModelLogger(fresh(), run_id=rid if via == "constructor" else 99)
        clock = [5]
        lg.set_time_getter(lambda: clock[0])
        if via == "setter":
            lg.set_run_id(rid)
        lg.setup(ModelLoggerConfig(fmt="{simTime}|{runId}|{message}", use_console=True,
                                   colored_console=colored, level=level,
                                   file_name="m.txt"))
        clock[0] = now
        if which == "custom":
            lg.log(25, "note %d", 3)
        else:
            getattr(lg, which)("note %d", 3)
        want = f"{now}|{rid}|note 3"
        text = err.getvalue()
        ctx.check((want in text) == (num >= level), "console iff level reached",
                  f"{text!r} with {want}")
        got = lines("m.txt")
        ctx.check((bool(got) and got[0] == want) == (num >= level), "file iff level reached",
                  f"{got}")
        if num >= level:
            ctx.reach("time and run identifier")


def expected_name(name, rid, sep):
    name = name.strip()
    i = name.rfind(".")
    if i >= 0 and name[i:].lower() == ".log":
        return name[:i] + sep + str(rid) + name[i:]
    return name + sep + str(rid)


NAMES = ["run.log", "run", "run.txt", "a.b.log", "run.LOG", " run.log ", "log", "run.logs",
         "d/run.log", "d.log/run", "run.log.old"]


def names(ctx):
    wipe()
    name = ctx.choose("name", NAMES)
    rid = ctx.choose("run id", [0, 7, 123456, 999999])
    sep = ctx.choose("separator", ["_", "-", "", ".run"])
    ids = ctx.choose("with run id", [False, True])
    default = ctx.choose("separator given", [True, False])
    for d in ("d", "d.log"):
        os.makedirs(d, exist_ok=True)
    with logging_on(ctx):
        kw = {} if default is False else {"file_name_sep": sep}
        if default is False:
            sep = "_"
        lg = ModelLogger(fresh(), run_id=rid)
        lg.setup(ModelLoggerConfig(fmt=FMT, level=10, file_name=name,
                                   file_name_no_run_id=not ids, **kw))
        lg.info("hello")
        want = expected_name(name, rid, sep) if ids else name
        found = [os.path.relpath(os.path.join(r, f)) for r, _, fs in os.walk(".") for f in fs]
        ctx.check(found == [os.path.normpath(want)] or found == [want], "file name",
                  f"{found} instead of {want!r}")


def setup(ctx):
    """Setup applies once unless forced; each file is written from its beginning."""
    wipe()
    with logging_on(ctx):
        force = ctx.choose("second setup", ["none", "ignored", "forced", "default config"])
        rec = ctx.int("record", 1, 60)
        l1, l2 = ctx.int("level 1", 1, 60), ctx.int("level 2", 1, 60)
        name = fresh()
        lg = ModelLogger(name, run_id=1)
        lg.setup(ModelLoggerConfig(fmt="{message}", level=l1, file_name="one.txt"))
        if force == "ignored":
            lg.setup(ModelLoggerConfig(fmt="{message}", level=l2, file_name="two.txt"))
        elif force == "default config":
            lg.setup()
        elif force == "forced":
            lg.setup(ModelLoggerConfig(fmt="{message}", level=l2, file_name="two.txt"),
                     force_run=True)
        lg.log(rec, "hello")
        one, two = lines("one.txt") or [], lines("two.txt")
        if force == "forced":
            ctx.check(not one, "forced setup replaces the first")
            ctx.check(ctx.iff(rec >= l2, two == ["hello"]), "forced setup applies")
        else:
            ctx.check(two is None, "second setup ignored")
            ctx.check(ctx.iff(rec >= l1, one == ["hello"]), "first setup applies")


def in_a_run(ctx):
    """Records written by handlers carry the time of the handler."""
    wipe()
    with logging_on(ctx):
        delays = [ctx.choose("d", [0.0, 0.5, 2.0]) for _ in range(3)]
        how = ctx.choose("order", ["chain", "fan"])
        log = []

        def handler(sim, i):
            log.append(f"{sim.time}|event {i}")
            sim.logger.info("event %d", i)
            if how == "chain" and i + 1 < 3:
                sim.schedule(delays[i + 1], handler, (i + 1,))

        def init(sim):
            for i, d in enumerate(delays[:1 if how == "chain" else 3]):
                sim.schedule(d, handler, (i,))
        run(init, logger_config=ModelLoggerConfig(fmt="{simTime}|{message}", level=20,
                                                  file_name="run.txt"))
        got = [x for x in lines("run.txt") or [] if "event" in x]
        ctx.check(got == log, "records carry the model time", f"{got} instead of {log}")


def many(n):
    """Very many records: none is lost, each with its own time, above and below the level."""
    def fn(ctx):
        wipe()
        with logging_on(ctx) as err:
            dest = ctx.choose("destinations", ["file", "console", "both"])
            level = ctx.int("level", 1, 60)
            rare = ctx.int("rare", 1, 60)
            log = []

            def handler(sim, i):
                own = i % 100 == 99
                sim.logger.log(rare if own else 60, "event %d", i)
                log.append((f"{sim.time}|event {i}", own))
                if i + 1 < n:
                    sim.schedule(0.5, handler, (i + 1,))
            kw = {"file_name": "run.txt"} if dest != "console" else {}
            run(lambda sim: sim.schedule(0.5, handler, (0,)), logger_config=ModelLoggerConfig(
                fmt="{simTime}|{message}", level=level, use_console=dest != "file",
                colored_console=False, **kw))
            heard = bool(rare >= level)
            want = [x for x, own in log if heard or not own]
            if dest != "console":
                got = [x for x in lines("run.txt") or [] if "event" in x]
                ctx.check(got == want, "every record in the file", f"{len(got)} of {len(want)}")
            if dest != "file":
                got = [x for x in err.getvalue().split("\n") if "event" in x]
                ctx.check(got == want, "every record on the console",
                          f"{len(got)} of {len(want)}")
    return fn


def scenarios(tier):
    return [
        Scenario("levels", levels, reach=["console iff level reached", "file iff level reached",
                                          "no console unless enabled"]),
        Scenario("methods", methods, reach=["console iff level reached",
                                            "time and run identifier"]),
        Scenario("names", names, reach=["file name"]),
        Scenario("setup", setup, reach=["forced setup applies", "first setup applies",
                                        "second setup ignored"]),
        Scenario("in a run", in_a_run, reach=["records carry the model time"]),
        Scenario("many records", many(1500 if tier == "quick" else 20000), warm=0, path_s=300,
                 max_steps=200000, reach=["every record in the file",
                                          "every record on the console"]),
    ]
