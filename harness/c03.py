"""C03: the two-ray path loss as a function of the geometry."""
import math

import pysim.models.rfid.channel as chan
from harness.c01 import np_
from harness.radio import vec
from symx.runner import Scenario

BOUNDS = [
    "geometry: every pair of places 0.1 to 100 m in front of the wall, within 100 m along and "
    "across it and at least 0.1 m apart; every direction of both antennas",
    "sum: every such pair, every wave length in [0.03, 3] m, gains in [0, 2], complex wall "
    "coefficients in the unit square, time in [0, 10] s and velocities up to 50 m/s per axis",
    "both ways: every such pair, all directions, arbitrary radiation patterns and wall (any "
    "function of what they are asked)",
    "standing still: every common velocity and every two moments",
    "dipole: every direction cosine in [-1 - 1e-12, 1 + 1e-12]",
    "patch: every pair of direction cosines in [-1, 1] (1e-8 away from the axes), sizes in "
    "[0.01, 1] m, every wave length in [0.03, 3] m",
    "wall: every angle, permittivity in [1, 100], conductivity in [0, 10], wave length in "
    "[0.03, 3] m, polarization 0, 1/2, 1 and any in between",
]
OUTSIDE = ["places on the wall or behind it", "which angle the coefficient of the wall has to "
           "be taken for (see DESIGN.md)"]
ASSUME = ["cos and sin: parity and cos^2 + sin^2 = 1, otherwise uninterpreted; roots and "
          "quotients exact",
          "real arithmetic instead of doubles; polynomials equal up to relative 1e-12 per "
          "coefficient (rounded constants) count as equal"]


def exact(ctx):
    if ctx.symbolic:
        ctx.ex.recip = True


def point(ctx, name):
    """A place in front of the wall."""
    return [ctx.real(name + " x", 0.1, 100)] + [ctx.real(f"{name} {c}", -100, 100) for c in "yz"]


def places(ctx):
    tx, rx = point(ctx, "tx"), point(ctx, "rx")
    d = minus(rx, tx)
    ctx.assume(dot(d, d) >= 0.01)
    return tx, rx


def direction(ctx, name):
    return [ctx.real(f"{name} {c}", -1, 1) for c in "xyz"]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def minus(a, b):
    return [x - y for x, y in zip(a, b)]


def mirrored(a):
    return [-a[0], a[1], a[2]]


def alike(ctx, x, y):
    """The same value, provably (or, in a replay, up to rounding)."""
    if ctx.symbolic:
        from symx.values import _num
        return ctx.ex.polys.same(_num(x), _num(y))
    return abs(x - y) <= 1e-9


class Answers:
    """An arbitrary function: one answer per distinct argument, in order of appearance."""

    def __init__(self, ctx, answers):
        self.ctx, self.answers, self.known, self.asked = ctx, answers, [], []

    def of(self, x):
        for y, v in self.known:
            if alike(self.ctx, x, y):
                return v
        v = self.answers[min(len(self.known), len(self.answers) - 1)]
        self.known.append((x, v))
        return v


class Pattern(Answers):
    """Radiation pattern."""

    def __call__(self, *, azimuth, **kw):
        self.asked.append(azimuth)
        return self.of(azimuth)


class Wall(Answers):
    """Coefficient of the wall; angles on both sides of its normal are the same to it."""

    def __call__(self, **kw):
        self.asked.append(kw)
        return self.of(kw["cosine"] * kw["cosine"])


def loss(tx, rx, td, rd, tp, rp, wall, time=0.0, lam=0.25, tv=(0.0,) * 3, rv=(0.0,) * 3, **kw):
    return chan.two_ray_pathloss(
        time=time, ground_reflection=wall, wavelen=lam, tx_pos=vec(tx), tx_dir_theta=vec(td),
        tx_dir_phi=vec([1.0, 0.0, 0.0]), tx_velocity=vec(list(tv)), tx_rp=tp, rx_pos=vec(rx),
        rx_dir_theta=vec(rd), rx_dir_phi=vec([1.0, 0.0, 0.0]), rx_velocity=vec(list(rv)),
        rx_rp=rp, polarization=0.5, permittivity=15.0, conductivity=0.03, **kw)


UP, DOWN = [0.0, 0.0, 1.0], [0.0, 0.0, -1.0]


def geometry(which):
    """What the patterns and the wall are asked for."""
    def scenario(ctx):
        exact(ctx)
        tx, rx = places(ctx)
        td = direction(ctx, "tx dir") if which == "tx" else UP
        rd = direction(ctx, "rx dir") if which == "rx" else DOWN
        d = minus(rx, tx)
        a, b = Pattern(ctx, [0.5, 0.25]), Pattern(ctx, [0.75, 1.5])
        w = Wall(ctx, [-0.5 + 0.25j])
        loss(tx, rx, td, rd, a, b, w, log=False)
        ctx.check(len(a.asked) == len(b.asked) == 2 and len(w.asked) == 1, "two rays")
        # unfolded: the mirrored receiver seen from the transmitter and the other way round
        u, v = minus(mirrored(rx), tx), minus(mirrored(tx), rx)
        n0, n1 = dot(d, d) ** 0.5, dot(u, u) ** 0.5
        ctx.eq(a.asked[0] * n0, dot(d, td), "direct ray leaves towards the receiver")
        ctx.eq(b.asked[0] * n0, -dot(d, rd), "direct ray arrives from the transmitter")
        ctx.eq(a.asked[1] * n1, dot(u, td), "reflected ray leaves towards the mirror image")
        ctx.eq(b.asked[1] * n1, dot(v, rd), "reflected ray arrives from the mirror image")
        c = w.asked[0]
        ctx.eq(c["cosine"] * c["cosine"] * dot(u, u), u[0] * u[0], "angle at the wall")
        for k, x in (("wavelen", 0.25), ("polarization", 0.5), ("permittivity", 15.0),
                     ("conductivity", 0.03)):
            ctx.eq(c[k], x, f"{k} at the wall")
        ctx.reach("asked")
    return scenario


def cis(ctx, phase):
    return np_(ctx, "cos", phase), np_(ctx, "sin", phase)


def power_of(z):
    return z.real * z.real + z.imag * z.imag


def rays(ctx, tx, rx, vel, t, k, g0, g1, r):
    """Squared magnitude of the sum of both rays, in units of (wave length / 4 pi)^2."""
    d, u = minus(rx, tx), minus(mirrored(rx), tx)
    n0, n1 = dot(d, d) ** 0.5, dot(u, u) ** 0.5
    c0, s0 = cis(ctx, k * (n0 - t * (dot(d, vel) / n0)))
    c1, s1 = cis(ctx, k * (n1 - t * (dot(u, vel) / n1)))
    a0, a1 = g0 / n0, g1 / n1
    re = a0 * c0 + a1 * (r.real * c1 + r.imag * s1)
    im = -a0 * s0 + a1 * (r.imag * c1 - r.real * s1)
    return re * re + im * im


def cpx(ctx, re, im):
    if ctx.symbolic:
        from symx.cplx import SymComplex
        return SymComplex(re, im)
    return complex(re, im)


def coefficient(ctx, name="wall"):
    return cpx(ctx, ctx.real(name + " re", -1, 1), ctx.real(name + " im", -1, 1))


def coherent(which):
    def scenario(ctx):
        exact(ctx)
        tx, rx = places(ctx)
        lam = ctx.real("wave length", 0.03, 3)
        t, tv, rv = 0.0, [0.0] * 3, [0.0] * 3
        if which == "doppler":
            t = ctx.real("time", 0, 10)
            tv = [ctx.real("tx v" + c, -50, 50) for c in "xyz"]
            rv = [ctx.real("rx v" + c, -50, 50) for c in "xyz"]
        g = [ctx.real(f"gain{i}", 0, 2) for i in range(4)]
        r = coefficient(ctx)
        a, b = Pattern(ctx, g[:2]), Pattern(ctx, g[2:])
        kw = {"crutch": True} if which == "crutch" else {}
        z = loss(tx, rx, UP, DOWN, a, b, Wall(ctx, [r]), t, lam, tv, rv, log=False, **kw)
        k = 2 * math.pi / lam
        g0 = a.of(a.asked[0]) * b.of(b.asked[0])
        g1 = a.of(a.asked[1]) * b.of(b.asked[1])
        want = rays(ctx, tx, rx, minus(rv, tv), t, k, g0, g1, r)
        got = z if which == "crutch" else power_of(z)
        ctx.eq(got * (4 * k * k), want, "power of the sum of both rays")
        ctx.reach("summed")
    return scenario


def both_ways(ctx):
    exact(ctx)
    tx, rx = places(ctx)
    td, rd = direction(ctx, "tx dir"), direction(ctx, "rx dir")
    a = Pattern(ctx, [ctx.real(f"a{i}", 0, 2) for i in range(4)])
    b = Pattern(ctx, [ctx.real(f"b{i}", 0, 2) for i in range(4)])
    w = Wall(ctx, [coefficient(ctx, "wall"), coefficient(ctx, "other")])
    there = loss(tx, rx, td, rd, a, b, w, log=False)
    back = loss(rx, tx, rd, td, b, a, w, log=False)
    ctx.eq(power_of(there), power_of(back), "the same in both directions")
    ctx.reach("both")


def standing(ctx):
    exact(ctx)
    tx, rx = places(ctx)
    v = [ctx.real("v" + c, -50, 50) for c in "xyz"]
    t, s = ctx.real("early", 0, 10), ctx.real("late", 0, 10)
    g = [ctx.real(f"gain{i}", 0, 2) for i in range(4)]
    a, b, w = Pattern(ctx, g[:2]), Pattern(ctx, g[2:]), Wall(ctx, [coefficient(ctx)])
    x = loss(tx, rx, UP, DOWN, a, b, w, t, tv=v, rv=v, log=False)
    y = loss(tx, rx, UP, DOWN, a, b, w, s, tv=v, rv=v, log=False)
    ctx.eq(power_of(x), power_of(y), "the same at all times")
    ctx.reach("compared")


PLACES = [([5.0, 0.0, 5.0], [5.0, -3.0, 0.0]), ([0.5, 1.0, 6.0], [4.0, 9.0, 0.0]),
          ([2.0, 0.0, 0.25], [1.0, 40.0, 3.0])]


def decibels(ctx):
    """The same as a level: in decibels of the squared magnitude."""
    tx, rx = ctx.choose("places", PLACES)
    a, b = Pattern(ctx, [0.5, 1.0]), Pattern(ctx, [1.5, 0.75])
    r = cpx(ctx, ctx.real("wall re", -1, 1), ctx.real("wall im", -1, 1))
    w = Wall(ctx, [r])
    z = loss(tx, rx, UP, [0.0, 0.6, -0.8], a, b, w, lam=0.35, log=False)
    p = power_of(z)
    ctx.assume(p >= 1e-14)
    got = loss(tx, rx, UP, [0.0, 0.6, -0.8], a, b, w, lam=0.35, log=True)
    ctx.eq(got, 10 * np_(ctx, "log10", p), "level of the power")
    ctx.reach("level")


def dipole(ctx):
    x = ctx.real("azimuth", -1 - 1e-12, 1 + 1e-12)
    g = chan.rp_dipole(azimuth=x)
    if x <= 0:
        ctx.eq(g, 0.0, "nothing behind")
        ctx.reach("behind")
    elif x >= 1:
        ctx.check(ctx.and_(g >= 1 - 1e-9, g <= 1 + 1e-9), "full on the axis")
        ctx.reach("axis")
    elif x >= 1e-8:
        y = np_(ctx, "cos", math.pi / 2 * (1 - x * x) ** 0.5)
        ctx.eq(g * x, abs(y), "pattern of a dipole")
        ctx.reach("front")
    ctx.check(chan.rp_isotropic(azimuth=x) == 1.0, "isotropic")


def patch(ctx):
    """Pattern of a patch antenna: width and length as two slots."""
    exact(ctx)
    a, t = ctx.real("a", -1, 1), ctx.real("t", -1, 1)
    lam = ctx.real("wave length", 0.03, 3)
    w, n = ctx.real("width", 0.01, 1), ctx.real("length", 0.01, 1)
    g = chan.rp_patch(a_cos=a, t_cos=t, wavelen=lam, width=w, length=n)
    if a <= 0:
        ctx.eq(g, 0.0, "nothing behind")
        ctx.reach("behind")
    elif ctx.and_(a >= 1e-8, a <= 1 - 1e-8, t * t <= 1 - 1e-8):
        sa, st = (1 - a * a) ** 0.5, (1 - t * t) ** 0.5
        k = math.pi / lam
        x = k * w * sa * st
        f = np_(ctx, "sin", x) / x * np_(ctx, "cos", k * n * sa * t)
        ctx.eq(g * g, f * f * (t * t + a * a * (1 - t * t)), "pattern of a patch")
        ctx.check(g >= 0, "an amplitude is not negative")
        ctx.reach("front")


def wall(pols):
    def scenario(ctx):
        exact(ctx)
        if ctx.symbolic:
            ctx.ex.complex_div = "assume"
        x = ctx.real("cosine", -1 - 1e-12, 1 + 1e-12)
        if x * x <= 1:
            sine = (1 - x * x) ** 0.5
            ctx.reach("oblique")
        else:
            sine = 0.0
            ctx.reach("along the normal")
        e = ctx.real("permittivity", 1.01, 100)
        s = ctx.real("conductivity", 0, 10)
        lam = ctx.real("wave length", 0.03, 3)
        p = ctx.choose("polarization", pols)
        if p is None:
            p = ctx.real("share", 0, 1, lo_open=True, hi_open=True)
        r = chan.reflection(cosine=x, polarization=p, permittivity=e, conductivity=s,
                            wavelen=lam)
        one = ctx.symbolic
        if one:
            from symx.cplx import SymComplex
            eta = SymComplex(e, -60 * lam * s)
        else:
            eta = complex(e, -60 * lam * s)
        c = (eta - x * x) ** 0.5
        par = (sine - c) / (sine + c)
        per = (sine - c / eta) / (sine + c / eta)
        want = p * par + (1 - p) * per
        ctx.eq(r.real, want.real, "Fresnel coefficient")
        ctx.eq(r.imag, want.imag, "Fresnel coefficient")
        q = chan.reflection(cosine=-x, polarization=p, permittivity=e, conductivity=s,
                            wavelen=lam)
        ctx.eq(r.real, q.real, "the same on both sides of the normal")
        ctx.eq(r.imag, q.imag, "the same on both sides of the normal")
        k = chan.reflection_constant(cosine=x, polarization=p, permittivity=e, conductivity=s,
                                     wavelen=lam)
        ctx.check(k == -1, "the constant wall turns the phase")
    return scenario


def scenarios(tier):
    def S(*a, **k):
        return Scenario(*a, query_ms=8000, **k)
    return [S("geometry-tx", geometry("tx"), reach=("asked",)),
            S("geometry-rx", geometry("rx"), reach=("asked",)),
            S("sum", coherent("plain"), reach=("summed",)),
            S("sum-doppler", coherent("doppler"), reach=("summed",)),
            S("sum-squared", coherent("crutch"), reach=("summed",)),
            S("both-ways", both_ways, reach=("both",)),
            S("standing", standing, reach=("compared",)),
            S("decibels", decibels, reach=("level",)),
            S("dipole", dipole, reach=("behind", "axis", "front")),
            S("patch", patch, reach=("behind", "front")),
            S("wall", wall([0, 1, 0.5]), reach=("oblique", "along the normal")),
            S("wall-any", wall([None]), reach=("oblique", "along the normal"))]
