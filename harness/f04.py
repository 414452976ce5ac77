"""F04: the helpers for figures."""
import os
import platform

import matplotlib
import matplotlib.figure
import matplotlib.pyplot as plt

import pysim.experiments.utility.graphs_style as gs
from harness.runs import replaced
from symx.runner import Scenario

BOUNDS = [
    "saving: names missing, empty, blank, plain, padded and with dots; 0 to 3 extensions or the "
    "default ones, any directory of a list or the default one",
    "axes: 1 to 3 plots, given one by one, as lists or as tuples; every choice of axes and of "
    "platforms; tick values from a list of integers and fractions",
    "colours: positions symbolic in [0, 1] in steps of 1/1024",
]
OUTSIDE = ["how figures look", "locales other than the current one", "integers above six digits"]
ASSUME = ["matplotlib.pyplot.savefig writes the file it is given"]

NAMES = [None, "", "   ", "plot", "  padded ", "with.dots", "a b"]


def saving(ctx):
    name = ctx.choose("name", NAMES)
    exts = ctx.choose("extensions", [None, (), ("png",), ["svg", "pdf"], ("png", "pdf", "eps")])
    where = ctx.choose("directory", [None, "out", "out/deep", ""])
    files = []

    def record(*a, **k):
        fname = a[0] if a and isinstance(a[0], (str, os.PathLike)) else a[1]
        files.append(os.fspath(fname))

    kw = {}
    if exts is not None:
        kw["exts"] = exts
    if where is not None:
        kw["directory"] = where
    with replaced((plt, "savefig", record), (matplotlib.figure.Figure, "savefig", record)):
        gs.savefig(name, **kw)
    if name is None or not name.strip():
        ctx.check(files == [], "nothing is saved without a name", f"{name!r}: {files}")
        return
    want = [os.path.join("images" if where is None else where, f"{name.strip()}.{e}")
            for e in (("pdf", "png") if exts is None else exts)]
    ctx.check(sorted(os.path.normpath(f) for f in files)
              == sorted(os.path.normpath(f) for f in want),
              "one file per extension, in the directory", f"{files} for {want}")
    ctx.observe(len(files))


class Axis:
    def __init__(self):
        self.set = []

    def set_major_formatter(self, f):
        self.set.append(f)


class Ax:
    def __init__(self):
        self.xaxis, self.yaxis = Axis(), Axis()


TICKS = [(0, "0"), (7, "7"), (-3, "-3"), (12000, "12000"), (999999, "999999"), (4.0, "4"),
         (25000.0, "25000"), (-2.0, "-2"), (0.5, "0.5"), (-1.25, "-1.25")]


def axes(ctx):
    n = ctx.choose("plots", [1, 2, 3])
    ax = [Ax() for _ in range(n)]
    given = {"one by one": tuple(ax), "list": (list(ax),), "tuple": (tuple(ax),),
             "mixed": (ax[0], list(ax[1:]))}[
        ctx.choose("given as", ["one by one", "list", "tuple", "mixed"])]
    x, y = ctx.choose("x", [None, False, True]), ctx.choose("y", [None, False, True])
    here = ctx.choose("platform", ["Linux", "Windows"])
    named = ctx.choose("platforms", [None, (), ("Linux",), ["Windows", "Darwin"],
                                     ("Linux", "Windows")])
    kw = {}
    if x is not None:
        kw["use_x"] = x
    if y is not None:
        kw["use_y"] = y
    if named is not None:
        kw["platforms"] = named
    with replaced((platform, "system", lambda: here)):
        gs.set_axes_formatter(*given, **kw)
    applies = here in ("Linux",) if named is None else (not named or here in named)
    for a in ax:
        for axis, use in ((a.xaxis, x), (a.yaxis, y)):
            if applies and use:
                ctx.check(len(axis.set) > 0, "the axes asked for are formatted")
                for v, text in TICKS:
                    got = axis.set[-1](v, 0)
                    ctx.check(got == text, "a tick shows its value, without separators",
                              f"{v!r} as {got!r}")
            else:
                ctx.check(axis.set == [], "other axes are left alone")


def colours(ctx):
    k = ctx.int("position", 0, 1024)
    step = 0
    for i in range(11):           # which of the 1025 positions, by halving
        bit = 1 << (10 - i)
        if k >= step + bit:
            step += bit
    x = step / 1024
    got = gs.get_color(x)
    want = matplotlib.colormaps["inferno"](x)
    ctx.check(tuple(got) == tuple(want), "the colour of the configured map", f"{x}: {got}")


def scenarios(tier):
    return [
        Scenario("saving", saving, reach=["nothing is saved without a name",
                                          "one file per extension, in the directory"]),
        Scenario("axes", axes, reach=["the axes asked for are formatted",
                                      "a tick shows its value, without separators",
                                      "other axes are left alone"]),
        Scenario("colours", colours, reach=["the colour of the configured map"]),
    ]
