"""M01: the command line offers exactly the models it finds."""
import contextlib
import importlib
import io
import os
import shutil
import sys
import tempfile

from click.testing import CliRunner

import pysim.models
from symx.runner import Scenario

BOUNDS = [
    "0 to 3 (thorough: 4) packages, each of every kind: a proper model, a group of commands, no "
    "cli module, a cli module without cli_run, a cli_run that is no command, a cli module that "
    "needs something not installed; each model run with its own options",
    "the three models of the repository",
]
OUTSIDE = ["cli modules that fail for any other reason than a missing module"]
ASSUME = ["click parses the command line and calls the command it names"]

CLI = {
    "command": '''
import click
@click.command()
@click.option('-n', '--number', default=1)
def cli_run(number):
    print(f"ran {name} with {{number}}")
''',
    "group": '''
import click
@click.group()
def cli_run():
    pass
@cli_run.command('start')
@click.option('-n', '--number', default=1)
def start(number):
    print(f"ran {name} with {{number}}")
''',
    "no cli_run": 'import click\ndef other():\n    pass\n',
    "not a command": 'def cli_run(**kwargs):\n    print("ran {name}")\n',
    "missing dependency": 'import surely_not_installed_zz\ndef cli_run():\n    pass\n',
}


@contextlib.contextmanager
def packages(kinds):
    """A package pysim.models made of these packages, and the command line over it."""
    root = tempfile.mkdtemp()
    for name, kind in kinds.items():
        d = os.path.join(root, name)
        os.makedirs(d)
        with open(os.path.join(d, "__init__.py"), "w"):
            pass
        if kind != "no cli":
            with open(os.path.join(d, "cli.py"), "w") as f:
                f.write(CLI[kind].replace("{name}", name).replace("{{", "{").replace("}}", "}"))
    held, path = dict(sys.modules), pysim.models.__path__
    pysim.models.__path__ = [root]
    for m in list(sys.modules):
        if m == "pysim.main" or m.startswith("pysim.models."):
            del sys.modules[m]
    importlib.invalidate_caches()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            main = importlib.import_module("pysim.main")
        yield main
    finally:
        pysim.models.__path__ = path
        for m in list(sys.modules):
            if m not in held or m == "pysim.main" or m.startswith("pysim.models."):
                del sys.modules[m]
        sys.modules.update({k: v for k, v in held.items() if k not in sys.modules})
        shutil.rmtree(root)


def found(most):
    def fn(ctx):
        k = ctx.choose("packages", list(range(most + 1)))
        kinds = {f"m{i}": ctx.choose("kind", ["command", "group", "no cli", *list(CLI)[2:]])
                 for i in range(k)}
        good = [n for n, kd in kinds.items() if kd in ("command", "group")]
        with packages(kinds) as main:
            out = CliRunner().invoke(main.cli, ["list"])
            ctx.check(out.exit_code == 0 and out.output.split("\n")[:-1] ==
                      [f"* {n}" for n in good], "the list names the models found",
                      f"{out.output!r} for {kinds}")
            ctx.check(sorted(main.run.commands) == good, "each model can be run",
                      f"{sorted(main.run.commands)} for {kinds}")
            for i, n in enumerate(good):
                args = ["run", n] + (["start"] if kinds[n] == "group" else [])
                for extra, v in (([], 1), (["-n", str(7 + i)], 7 + i)):
                    out = CliRunner().invoke(main.cli, args + extra)
                    ctx.check(out.exit_code == 0 and out.output == f"ran {n} with {v}\n",
                              "the named model runs with its options", f"{n}: {out.output!r}")
            for n in set(kinds) - set(good):
                out = CliRunner().invoke(main.cli, ["run", n])
                ctx.check(out.exit_code != 0 and "ran" not in out.output,
                          "nothing else is run", f"{n}: {out.output!r}")
    return fn


def real(ctx):
    """The models of the repository."""
    main = importlib.import_module("pysim.main")
    out = CliRunner().invoke(main.cli, ["list"])
    want = ctx.choose("model", ["pingpong", "rfid", "tag_time"])
    ctx.check(f"* {want}\n" in out.output and out.output.count(want) == 1,
              "the list names the models found", out.output)
    mod = importlib.import_module(f"pysim.models.{want}.cli")
    ctx.check(main.run.commands[want] is mod.cli_run, "each model can be run", want)


def scenarios(tier):
    return [
        Scenario("found", found(3 if tier == "quick" else 4), reach=[
            "the list names the models found", "each model can be run",
            "the named model runs with its options", "nothing else is run"]),
        Scenario("repository", real, reach=["each model can be run"]),
    ]
