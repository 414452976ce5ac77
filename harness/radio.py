"""A reader and a tag in a medium whose path loss the harness provides."""
import numpy as np

import pysim.models.rfid.channel as chan
import pysim.models.rfid.epcstd as std
import pysim.models.rfid.objects as obj
from harness.runs import replaced
from harness.tags import Kernel


def norm(ctx, v):
    return (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) ** 0.5


def vec(xs):
    plain = all(type(x) in (int, float) for x in xs)
    return np.array(xs, dtype=float if plain else object)


class Link:
    """Everything switched off until told otherwise; two_ray_pathloss is a recorder."""

    def __init__(self, ctx, loss=-40.0):
        self.ctx, self.loss, self.calls = ctx, loss, []
        self.kernel = Kernel()
        self.medium = obj.Medium()
        self.reader = obj.Reader(self.kernel)
        self.tag = obj.Tag(1, self.kernel)
        a = obj.Antenna()
        a.pos, a.direction_theta = vec([5.0, 0.0, 5.0]), vec([0.0, 0.0, -1.0])
        self.reader.attach_antenna(a)
        self.tag.pos = vec([5.0, -3.0, 0.0])
        self.tag.antenna.direction_theta = vec([0.0, 0.0, 1.0])
        self.tag.velocity, self.tag.direction = 3.0, vec([0.0, 1.0, 0.0])
        self.tag.setup(0.0)

    def path_loss(self, **kw):
        self.calls.append(kw)
        return self.loss

    def stub(self):
        return replaced((chan, "two_ray_pathloss", self.path_loss))

    def turn_on(self, time=0.0):
        self.kernel.time = time
        self.reader.turn_on()

    def query(self, dr="DR_8", m="FM0", trext=False, trcal=None, q=0):
        """The tag hears a Query; the channel's settings are those of its answer."""
        self.ctx.rt.on_int = lambda lo, hi: lo
        cmd = std.Query(std.DivideRatio[dr], std.TagEncoding[m], trext, std.SelFlag.ALL,
                        std.Session.S0, std.InventoryFlag.A, q, 0x15)
        trcal = trcal if trcal is not None else 46.875e-6
        return self.tag.receive(std.ReaderFrame(
            std.ReaderPreamble(6.25e-6, 18.75e-6, trcal, 12.5e-6), cmd))
