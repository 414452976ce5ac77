"""F01: a model built from settings and overrides."""
import contextlib
import dataclasses
import enum
import io

import numpy as np

import pysim.models.rfid.configurator as conf
import pysim.models.rfid.epcstd as std
from pysim.models.rfid.objects import Reader
from harness.pp import near
from symx.runner import Scenario

BOUNDS = [
    "every numeric setting a symbolic real or integer, every enumerated setting each of its "
    "values in turn; every subset of the eleven overrides, each with a symbolic value "
    "(zero included)",
    "default settings with every single override and with none; two models of one settings "
    "object",
]
OUTSIDE = ["keyword arguments create_model does not know", "antennas beyond the first"]
ASSUME = []

REALS = {  # settings field -> where the model keeps it
    "delim": "reader.delim", "speed": "generator.velocity",
    "travel_distance": "generator.travel_distance", "update_interval": "model.update_interval",
    "reader_power": "reader.max_power", "reader_antenna_gain": "antenna.gain",
    "reader_cable_loss": "antenna.cable_loss", "tag_antenna_gain": "generator.antenna_gain",
    "tag_modulation_loss": "generator.modulation_loss",
    "tag_sensitivity": "generator.sensitivity", "reader_noise": "reader.noise",
    "frequency": "medium.frequency", "permittivity": "medium.permittivity",
    "conductivity": "medium.conductivity", "polarization_loss": "medium.polarization_loss",
    "reader_power_on_duration": "reader.power_on_duration",
    "reader_power_off_duration": "reader.power_off_duration",
    "reader_antenna_switching_interval": "reader.antenna_switch_interval",
    "adjust_delta": "reader.adjust_delta", "s1_persistence": "generator.s1_persistence",
    "s2_persistence": "generator.s2_persistence", "s3_persistence": "generator.s3_persistence",
}
INTS = {"q": "reader.q", "rounds_per_target": "reader.rounds_per_target",
        "epc_bitlen": "generator.epc_bitlen", "tid_word_size": "reader.read_tid_words_num",
        "num_tags": "model.max_tags_num"}
ENUMS = {
    "temp": ("reader.temp", list(std.TempRange)), "dr": ("reader.dr", list(std.DivideRatio)),
    "encoding": ("reader.tag_encoding", list(std.TagEncoding)),
    "sel": ("reader.sel", list(std.SelFlag)), "session": ("reader.session", list(std.Session)),
    "trext": ("reader.trext", [False, True]),
    "target": ("reader.target", [std.InventoryFlag.A, std.InventoryFlag.B]),
    "target_strategy": ("reader.target_strategy", ["const", "switch"]),
    "ber_distribution": ("medium.ber_distribution", ["rayleigh", "awgn"]),
    "ground_reflection_type": ("medium.ground_reflection_type", ["reflection", "const"]),
    "use_doppler": ("medium.use_doppler", [False, True]),
    "use_query_adjust": ("reader.use_query_adjust", [False, True]),
    "collect_power_statistics": ("model.statistics.use_power_statistics", [False, True]),
    "reader_always_start_with_first_antenna": ("reader.always_start_with_first_antenna",
                                               [False, True]),
}
OVER = {  # override -> the setting it stands for
    "speed": "speed", "encoding": "encoding", "tari": "tari", "tid_word_size": "tid_word_size",
    "reader_offset": "reader_antenna_x", "tag_offset": "tag_antenna_x",
    "altitude": "reader_antenna_z", "power": "reader_power", "num_tags": "num_tags",
    "useadjust": "use_query_adjust", "delta": "adjust_delta",
}
GEO = ("tari", "rtcal_tari_mul", "trcal_rtcal_mul", "initial_distance_to_reader",
       "reader_antenna_x", "reader_antenna_z", "tag_antenna_x", "tag_antenna_z")


def look(model, path):
    root, _, rest = path.partition(".")
    o = {"model": model, "reader": model.reader, "medium": model.medium,
         "generator": model.generators[0], "antenna": model.reader.antenna}[root]
    for a in rest.split("."):
        o = getattr(o, a)
    return o


def same(ctx, got, want):
    if isinstance(want, (bool, str, enum.Enum)):
        return got is want or (type(got) is type(want) and got == want)
    return near(ctx, got, want)


def draw(ctx, field):
    if field in INTS:
        return ctx.int(field, 0, 1000)
    if field in ENUMS:
        return ctx.choose(field, ENUMS[field][1])
    return ctx.real(field, -1000 if field.endswith(("loss", "gain", "noise", "x", "z")) else 0,
                    1000)


def judge(ctx, model, eff):
    """eff: effective value of every setting."""
    for table in (REALS, INTS):
        for f, path in table.items():
            ctx.check(same(ctx, look(model, path), eff[f]), "effective value used",
                      f"{f}: {look(model, path)}")
    for f, (path, _) in ENUMS.items():
        ctx.check(same(ctx, look(model, path), eff[f]), "effective value used",
                  f"{f}: {look(model, path)}")
    r, g = model.reader, model.generators[0]
    ctx.check(near(ctx, r.tari, eff["tari"]), "effective value used", "tari")
    rtcal = eff["tari"] * eff["rtcal_tari_mul"]
    ctx.eq(r.rtcal, rtcal, "RTcal follows Tari")
    ctx.eq(r.trcal, rtcal * eff["trcal_rtcal_mul"], "TRcal follows RTcal")
    words = eff["tid_word_size"]
    ctx.check(near(ctx, g.tid_bitlen, 16 * words), "TID holds the words asked for",
              f"{g.tid_bitlen}")
    ctx.check(ctx.iff(bool(r.read_tid_bank) if not ctx.symbolic else r.read_tid_bank,
                      ctx.and_(eff["read_tid_bank"], words > 0)),
              "TID is read when asked for and not empty", f"{r.read_tid_bank}")
    ctx.check(near(ctx, g.max_tags_generated, eff["num_tags"]), "generator limit is the "
              "number of tags", f"{g.max_tags_generated}")
    pos, p0 = list(r.antenna.pos), list(g.pos0)
    for a, b in zip(pos, (eff["reader_antenna_x"], 0, eff["reader_antenna_z"])):
        ctx.check(near(ctx, a, b), "position of the reader antenna", f"{pos}")
    for a, b in zip(p0, (eff["tag_antenna_x"], -eff["initial_distance_to_reader"],
                         eff["tag_antenna_z"])):
        ctx.check(near(ctx, a, b), "starting position of the tags", f"{p0}")
    ctx.check(list(g.direction) == [0, 1, 0], "tags move along the road")
    ctx.check(list(r.antenna.direction_theta) == list(eff["reader_antenna_direction"])
              and list(g.tag_antenna_direction) == list(eff["tag_antenna_direction"]),
              "antenna directions")
    mode = Reader.PowerControlMode.PERIODIC if eff["reader_switch_power"] else \
        Reader.PowerControlMode.ALWAYS_ON
    ctx.check(r.power_control_mode is mode, "power control mode")
    ctx.check(near(ctx, r.q_fp, eff["q"] if eff["q_fp"] is None else eff["q_fp"]),
              "fractional Q starts from the configured one", f"{r.q_fp}")
    fn, *args = eff["generation_interval"]
    ctx.check(near(ctx, g.interval, fn(*args)), "interval of the generator")
    ctx.check(len(model.generators) == 1 and r.num_antennas == 1, "one generator, one antenna")


def build(settings, **over):
    with contextlib.redirect_stdout(io.StringIO()):
        return conf.create_model(settings, **over)


def effective(settings, over):
    eff = {f.name: getattr(settings, f.name) for f in dataclasses.fields(settings)}
    for k, v in over.items():
        eff[OVER[k]] = v
    return eff


def make(ctx, enums):
    kw = {f: draw(ctx, f) for f in list(REALS) + list(INTS) + list(GEO)}
    for f in enums:
        kw[f] = draw(ctx, f)
    kw["read_tid_bank"] = ctx.choose("read_tid_bank", [True, False])
    return kw


def overrides(names, values=draw):
    def scenario(ctx):
        kw = make(ctx, [])
        s = conf.Settings(**kw)
        before = {f.name: getattr(s, f.name) for f in dataclasses.fields(s)}
        over = {}
        for k in names:
            if ctx.choose("override " + k, [False, True]):
                if OVER[k] in ENUMS:
                    over[k] = [v for v in ENUMS[OVER[k]][1]
                               if v is not getattr(s, OVER[k])][0]
                else:
                    over[k] = values(ctx, OVER[k])
        m = build(s, **over)
        judge(ctx, m, effective(s, over))
        for f, v in before.items():
            ctx.check(getattr(s, f) is v, "settings are not modified", f)
    return scenario


def enumerated(ctx):
    """Each enumerated setting with each of its values, and the less usual settings."""
    which = ctx.choose("setting", sorted(ENUMS) + ["reader_switch_power", "q_fp", "directions",
                                                   "generation_interval"])
    kw = make(ctx, [which] if which in ENUMS else [])
    if which == "reader_switch_power":
        kw[which] = ctx.choose("switch", [True, False])
    elif which == "q_fp":
        kw[which] = ctx.real("q_fp", 0, 15)
    elif which == "directions":
        kw["reader_antenna_direction"] = np.asarray([1, 0, 0])
        kw["tag_antenna_direction"] = np.asarray([0, 1, 0])
    elif which == "generation_interval":
        a, b = ctx.real("a", 0, 10), ctx.real("b", 0, 10)
        kw[which] = ctx.choose("interval", [
            (lambda: 3.0,), (lambda x: x, a), (lambda x, y: x + 2 * y, a, b)])
    s = conf.Settings(**kw)
    judge(ctx, build(s), effective(s, {}))


def defaults(ctx):
    """No settings given: the defaults, with one override or none."""
    k = ctx.choose("override", [None] + sorted(OVER))
    given = ctx.choose("settings", ["None", "absent", "default"])
    over = {}
    if k is not None:
        f = OVER[k]
        over[k] = ENUMS[f][1][0] if f in ENUMS else ctx.int(k, 0, 100) if f in INTS else \
            ctx.real(k, 0, 100)
    ref = conf.Settings()
    if given == "absent":
        with contextlib.redirect_stdout(io.StringIO()):
            m = conf.create_model(**over)
    else:
        m = build(None if given == "None" else ref, **over)
    judge(ctx, m, effective(ref, over))


def parts(o, seen, skip):
    if id(o) in seen or id(o) in skip or isinstance(o, (enum.Enum, type, str, bytes)):
        return
    mod = getattr(type(o), "__module__", "")
    if isinstance(o, (list, tuple, set)):
        if not isinstance(o, tuple):
            seen[id(o)] = o
        for x in o:
            parts(x, seen, skip)
    elif isinstance(o, dict):
        seen[id(o)] = o
        for x in o.values():
            parts(x, seen, skip)
    elif isinstance(o, np.ndarray):
        seen[id(o)] = o
    elif mod.startswith("pysim"):
        seen[id(o)] = o
        for x in vars(o).values() if hasattr(o, "__dict__") else ():
            parts(x, seen, skip)


def independent(ctx):
    kw = make(ctx, [])
    s = conf.Settings(**kw)
    ctx.eq(s.rtcal, kw["tari"] * kw["rtcal_tari_mul"], "RTcal of the settings")
    ctx.eq(s.trcal, kw["tari"] * kw["rtcal_tari_mul"] * kw["trcal_rtcal_mul"],
           "TRcal of the settings")
    ctx.check(near(ctx, s.tid_bitlen, 16 * kw["tid_word_size"]), "TID bits of the settings")
    over = {k: draw(ctx, OVER[k]) for k in OVER if OVER[k] not in ENUMS} \
        if ctx.choose("with overrides", [False, True]) else {}
    other = {k: draw(ctx, OVER[k]) for k in OVER if OVER[k] not in ENUMS}
    m1 = build(s, **over)
    m2 = build(s, **other)
    judge(ctx, m1, effective(s, over))
    judge(ctx, m2, effective(s, other))
    a, b, skip = {}, {}, {}
    parts([getattr(s, f.name) for f in dataclasses.fields(s)], skip, {})
    parts(m1, a, skip)
    parts(m2, b, skip)
    both = [type(o).__name__ for i, o in a.items() if i in b]
    ctx.check(not both, "two models share nothing", f"{both}")


def scenarios(tier):
    return [
        Scenario("single overrides", defaults, reach=["effective value used"]),
        Scenario("enumerated settings", enumerated, reach=["power control mode"]),
        Scenario("two models", independent, reach=[
            "two models share nothing", "RTcal of the settings", "TRcal of the settings",
            "TID bits of the settings"]),
        Scenario("all subsets of overrides", overrides(sorted(OVER)),
                 reach=["effective value used", "settings are not modified",
                        "RTcal follows Tari"]),
    ]
