"""S06: generated tags are distinct and have the configured memory and properties."""
import numpy as np

import pysim.models.rfid.epcstd as std
import pysim.models.rfid.handlers as handlers
import pysim.models.rfid.objects as objects
from harness.s04 import generator, quiet_world
from pysim.models.rfid.objects import Generator, Model
from symx import strings
from symx.runner import Scenario

BOUNDS = [
    "the suffix counter: any suffix of 1..5 (quick) / 1..24 (thorough) hexadecimal digits",
    "prefixes of 0..8 digits, EPC lengths 8..128 bits, TID lengths 8..96 bits (whole digits, "
    "not shorter than the prefix); 40 tags in a row, 300 (whole 8-bit suffix space and beyond) "
    "for one combination",
    "any velocity, gains, losses, sensitivity, persistences and coordinates; three tags",
]
OUTSIDE = ["bit lengths that are not whole hexadecimal digits or shorter than the prefix",
           "tags of different generators with the same prefix"]
ASSUME = []


def counter(most):
    def fn(ctx):
        n = ctx.choose("digits", list(range(1, most + 1)))
        s = "".join(strings.free_digit(ctx, f"d{k}") for k in range(n))
        inc = getattr(objects, "inc_hex_string", None)
        ctx.reach("counter")
        if inc is None:             # the counter has no function of its own any more
            return
        r = inc(s)
        ctx.check(len(r) == n, "length kept", f"{len(r)} for {n}")
        old = strings.value_of(s, 16)
        ctx.check(strings.value_of(r, 16) == (old + 1) % 16 ** n, "next number",
                  f"{r!r} after {s!r}")
    return fn


def memory(ctx):
    group = ctx.choose("group", ["epc", "tid"])
    prefix = ctx.choose("prefix", ["", "0", "A", "AB", "00FF", "AAAA", "12345678"])
    bits = ctx.choose("bits", [len(prefix) * 4 + 8, 16, 36, 64, 96, 128])
    if bits - len(prefix) * 4 < 8:
        bits = len(prefix) * 4 + 12
    g = generator([1.0], 5.0)
    setattr(g, group + "_prefix", prefix)
    setattr(g, group + "_bitlen", bits)
    model = Model()
    tags = [g.create_tag(model) for _ in range(40)]
    for what in ("epc", "tid"):
        vals = [getattr(t, what) for t in tags]
        p, b = getattr(g, what + "_prefix"), getattr(g, what + "_bitlen")
        ctx.check(all(v.startswith(p) for v in vals), "prefix", f"{what} {p} {vals[0]}")
        ctx.check(all(len(v) * 4 == b for v in vals), "length", f"{what} {b} {vals[:3]}")
        ctx.check(all(c in "0123456789ABCDEF" for v in vals for c in v), "hexadecimal")
        ctx.check(len(set(vals)) == 40, "distinct", f"{what}: {len(set(vals))} of 40")
    ctx.check(len({t.tag_id for t in tags}) == 40, "distinct identifiers")


def exhausted(ctx):
    g = generator([1.0], 5.0)
    g.epc_prefix, g.epc_bitlen = "ABCD", 24
    g.tid_prefix, g.tid_bitlen = "00", 20
    model = Model()
    tags = [g.create_tag(model) for _ in range(300)]
    ctx.check(len({t.epc for t in tags[:256]}) == 256, "whole suffix space",
              f"{len({t.epc for t in tags[:256]})} of 256")
    ctx.check(len({t.tid for t in tags}) == 300, "whole suffix space")
    ctx.check(all(len(t.epc) == 6 and t.epc[:4] == "ABCD" for t in tags), "length at the end")


def configured(ctx, how):
    g = generator([1.0, 1e6], 5.0)
    val = {}
    names = ["antenna_gain", "cable_loss", "sensitivity", "modulation_loss",
             "s1_persistence", "s2_persistence", "s3_persistence"]
    for x in names:
        val[x] = ctx.real(x, -200, 200)
        setattr(g, x, val[x])
    v = ctx.real("velocity", 0, 100, lo_open=True)
    g.velocity = v
    g.travel_distance = 100.0
    pos = [ctx.real(f"pos{k}", -1000, 1000) for k in range(3)]
    g.pos0 = np.array(pos, dtype=object if ctx.symbolic else float)
    d = ctx.choose("direction", [(0.0, 1.0, 0.0), (1.0, 0.0, 0.0), (3.0, -4.0, 0.0)])
    g.direction = np.array(d)
    th = ctx.choose("antenna", [(0, 0, 1), (1, 0, 0)])
    g.tag_antenna_direction = np.array(th)
    if how == "create":
        model = Model()
        tags = [g.create_tag(model) for _ in range(3)]
    else:
        w = quiet_world(ctx, [g])
        w.run(before=lambda k: k.schedule(1.5, lambda kk: kk.stop()))
        tags = list(w.model.tags)
        model = w.model
        ctx.check(len(tags) == 1, "one tag")
    return g, val, v, pos, d, th, tags, model


def attributes(ctx):
    how = ctx.choose("how", ["create", "model"])
    g, val, v, pos, d, th, tags, _ = configured(ctx, how)
    for t in tags:
        ctx.check(t.velocity == v, "velocity")
        ctx.check(all(a == b for a, b in zip(t.direction, d)), "direction")
        ctx.check(all(a == b for a, b in zip(t.antenna.direction_theta, th)),
                  "antenna direction")
        ctx.check(ctx.and_(*[a == b for a, b in zip(t.pos, pos)]), "start position",
                  f"{t.pos} for {pos}")
        ctx.check(t.antenna.gain == val["antenna_gain"], "antenna gain")
        ctx.check(t.antenna.cable_loss == val["cable_loss"], "cable loss")
        ctx.check(t.sensitivity == val["sensitivity"], "sensitivity")
        ctx.check(t.modulation_loss == val["modulation_loss"], "modulation loss")
        for s in ("S1", "S2", "S3"):
            ctx.check(t.persistence(std.Session[s]) == val[s.lower() + "_persistence"],
                      "persistence", s)
        ctx.check(t.user_mem is None and t.state is t.State.OFF, "as new")


def isolation(ctx):
    g, val, v, pos, d, th, tags, model = configured(ctx, "create")
    a, b, c = tags
    a.setup(0.0)
    b.setup(0.0)
    # change everything about one tag ...
    a.pos = a.pos + np.array([1.0, 2.0, 3.0])
    a.pos[0] = 77.0
    a.direction[0] = 9.0
    a.antenna.direction_theta[1] = 5
    a.antenna.gain = 99.0
    a.antenna.cable_loss = 98.0
    a.velocity = 97.0
    a.sensitivity = 96.0
    a.modulation_loss = 95.0
    a.s1_persistence = a.s2_persistence = a.s3_persistence = 94.0
    a.epc = a.tid = "FF"
    a.sessions[std.Session.S1] = std.InventoryFlag.B
    a.q = 3
    # ... and of the generator
    if ctx.choose("generator too", [True, False]):
        g.pos0[0] = 55.0
        g.direction[1] = 8.0
        g.tag_antenna_direction[0] = 4
        g.velocity = 1234.0
        g.antenna_gain = 1234.0
        g.sensitivity = 1234.0
    else:
        ctx.check(ctx.and_(*[x == y for x, y in zip(g.pos0, pos)]), "generator untouched")
        ctx.check(all(x == y for x, y in zip(g.direction, d)), "generator untouched")
        ctx.check(all(x == y for x, y in zip(g.tag_antenna_direction, th)),
                  "generator untouched")
        ctx.check(g.velocity == v and g.antenna_gain == val["antenna_gain"],
                  "generator untouched")
        n = g.create_tag(model)
        ctx.check(ctx.and_(*[x == y for x, y in zip(n.pos, pos)]), "next tag as configured")
        ctx.check(n.velocity == v, "next tag as configured")
        ctx.check(len({b.epc, c.epc, n.epc}) == 3, "next tag distinct")
    for t in (b, c):
        ctx.check(ctx.and_(*[x == y for x, y in zip(t.pos, pos)]), "others untouched", "pos")
        ctx.check(all(x == y for x, y in zip(t.direction, d)), "others untouched", "direction")
        ctx.check(all(x == y for x, y in zip(t.antenna.direction_theta, th)),
                  "others untouched", "antenna direction")
        ctx.check(ctx.and_(t.velocity == v, t.antenna.gain == val["antenna_gain"],
                           t.antenna.cable_loss == val["cable_loss"],
                           t.sensitivity == val["sensitivity"],
                           t.modulation_loss == val["modulation_loss"]), "others untouched",
                  "numbers")
        ctx.check(ctx.and_(*[t.persistence(std.Session[s]) == val[s.lower() + "_persistence"]
                             for s in ("S1", "S2", "S3")]), "others untouched", "persistence")
        ctx.check(t.epc != "FF" and t.tid != "FF" and t.q is None, "others untouched", "memory")
    ctx.check(b.sessions[std.Session.S1] is std.InventoryFlag.A, "others untouched", "flags")


def two_generators(ctx):
    """The counters of generators are their own, and so is a new generator's."""
    model = Model()
    a, b = generator([1.0], 5.0), generator([1.0], 5.0)
    a.epc_prefix, b.epc_prefix = "AA", "BB"
    order = ctx.choose("order", ["aabb", "abab", "baab", "bbaa"])
    made = {"a": [], "b": []}
    for x in order:
        made[x].append((a if x == "a" else b).create_tag(model))
    for x, p in (("a", "AA"), ("b", "BB")):
        alone = generator([1.0], 5.0)
        alone.epc_prefix = p
        vals = [t.epc for t in made[x]]
        want = [alone.create_tag(model).epc for _ in range(2)]
        ctx.check(vals == want, "as without the other generator", f"{vals} for {want}")
        ctx.check(len(set(vals)) == 2, "distinct")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("counter", counter(5 if q else 24), reach=["counter"]),
        Scenario("memory", memory, reach=["prefix", "length", "distinct"]),
        Scenario("exhausted", exhausted, reach=["whole suffix space"]),
        Scenario("attributes", attributes, reach=["start position", "persistence",
                                                  "sensitivity"]),
        Scenario("isolation", isolation, reach=["others untouched", "generator untouched",
                                                "next tag as configured"]),
        Scenario("two generators", two_generators, reach=["as without the other generator"]),
    ]
