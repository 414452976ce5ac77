"""The whole inventory model under the real kernel, with tags whose answers, powers and the
channel between them are under the control of the harness."""
import numpy as np

import pysim.models.rfid.epcstd as std
import pysim.models.rfid.handlers as handlers
from harness import bits
from harness.e04 import SYM, preamble_bits
from harness.e05 import DR, limits
from pysim.models.rfid.objects import Antenna, Generator, Medium, Model, Reader, Tag
from pysim.sim import build_simulation, run_simulation

US = 1e-6
LONG = 1000.0                       # "never" for periods a scenario is not about


class Ether(Medium):
    """A channel that answers what the harness says."""

    def __init__(self, world):
        super().__init__()
        self.w = world

    def get_forward_path_loss(self, reader, tag, time):
        return -30.0

    def get_backward_path_loss(self, reader, tag, time):
        return -30.0

    def estimate_tag_rx_power(self, reader, tag, time):
        self.w.asked_forward.append((time, tag, reader.antenna_index))
        return None if reader.power is None else self.w.forward(tag, time)

    def estimate_reader_rx_power(self, reader, tag, time):
        self.w.asked_backward.append((time, tag))
        return self.w.backward(tag, time)

    def estimate_reader_rx_snr(self, reader, tag, tags, time):
        return self.w.snr

    def estimate_reader_rx_ber(self, reader, tag, tags, snr):
        return self.w.ber


class Puppet(Tag):
    """A tag that hears everything and says what the harness tells it to say."""

    def __init__(self, tag_id, kernel, world):
        super().__init__(tag_id, kernel)
        self.w = world
        self.heard = []
        self.powers = []

    blf = property(lambda self: self.w.tag_blf)
    power = property(lambda self: 0.0)

    def receive(self, frame):
        self.heard.append((self.w.kernel.time, frame))
        return self.w.answer(self, frame)

    def set_power(self, time, power):
        self.powers.append((time, power))


def place(tag, pos=(0.0, 0.0, 0.0), velocity=1.0, direction=(0.0, 1.0, 0.0), now=0.0):
    tag.antenna.pos = np.array(pos, dtype=object if any(type(x) is not float for x in pos)
                               else float)
    tag.velocity = velocity
    tag.direction = np.array(direction)
    tag.antenna.direction_theta = np.array([0, 0, 1])
    tag.last_pos_update = now


class World:
    def __init__(self, ctx, puppets=2, antennas=1, **kw):
        self.ctx = ctx
        self.kernel = None
        self.snr, self.ber = 100.0, 0.0
        self.tag_blf = None
        self.asked_forward, self.asked_backward = [], []
        self.forward = lambda tag, time: 0.0
        self.backward = lambda tag, time: -50.0
        self.script = lambda frame, n: [None] * len(self.puppets)
        self.plan = []
        self.commands = []              # (time, frame, reader state, answers)
        self.model = Model()
        self.model.medium = Ether(self)
        self.model.statistics.use_power_statistics = False
        self.model.update_interval = LONG
        self.model.max_tags_num = None
        r = self.reader = self.model.reader = Reader()
        s = dict(tari=6.25 * US, rtcal=18.75 * US, trcal=46.875 * US, delim=12.5 * US, q=1,
                 tag_encoding=std.TagEncoding.FM0, trext=False, dr=std.DivideRatio.DR_8,
                 read_tid_bank=False, read_tid_words_num=4, max_power=30.0,
                 use_query_adjust=False, adjust_delta=0.1, q_fp=1.0,
                 power_control_mode=Reader.PowerControlMode.ALWAYS_ON,
                 antenna_switch_interval=LONG)
        s.update(kw)
        for k, v in s.items():
            setattr(r, k, v)
        for i in range(antennas):
            a = Antenna()
            a.pos = np.array([float(i), 0.0, 5.0])
            a.direction_theta = np.array([0, 0, -1])
            r.attach_antenna(a)
        self.log = []                   # (what, time, ...)
        note = self.log.append
        r.power_on_listeners.add(lambda: note(("on", self.kernel.time)))
        r.power_off_listeners.add(lambda: note(("off", self.kernel.time)))
        self.puppets = []
        for i in range(puppets):
            t = Puppet(i, None, self)
            place(t)
            self.add(t)
            self.puppets.append(t)
        if ctx is not None:
            ctx.rt.on_unit = lambda: 0.5

    def add(self, tag):
        self.model.tags.append(tag)
        self.model.statistics.create_tag_record(tag)

    @property
    def timing(self):
        r = self.reader
        return dict(tari=r.tari, rtcal=r.rtcal, trcal=r.trcal, delim=r.delim)

    # -- answers of the puppets: decided once per command, by the script
    def answer(self, puppet, frame):
        if puppet is self.puppets[0]:
            n = len(self.commands)
            self.plan = self.script(frame, n)
            self.commands.append((self.kernel.time, frame, self.reader.state, list(self.plan)))
        return self.plan[self.puppets.index(puppet)]

    def reply(self, rep, m="FM0", trext=False):
        return std.TagFrame(std.create_tag_preamble(std.TagEncoding[m], trext), rep)

    def run(self, events=None, sim_time=None, before=None):
        def init(kernel):
            self.kernel = kernel
            for t in self.model.tags:
                t.kernel = kernel
            if before is not None:
                before(kernel)
            handlers.start_simulation(kernel)
        return run_simulation(build_simulation("RFID", init, context=self.model,
                                               max_num_events=events, max_sim_time=sim_time))

    def at(self, delay, fn):
        """Have the harness do something at a moment of the model time."""
        return lambda kernel: kernel.schedule(delay, lambda k: fn())


# ---------------------------------------------------------------- reference durations
def name_of(fr):
    return {std.Query: "QUERY", std.QueryRep: "QREP", std.QueryAdjust: "QADJ", std.Ack: "ACK",
            std.ReqRN: "REQRN", std.Read: "READ"}[type(fr.command)]


def encode(cmd):
    """The bits of a command, independently of the code under test."""
    if isinstance(cmd, std.Query):
        return bits.enc_query(cmd.dr.name, cmd.m.name, cmd.trext, cmd.sel.name,
                              cmd.session.name, cmd.target.name, cmd.q, cmd.crc)
    if isinstance(cmd, std.QueryRep):
        return bits.enc_rep(cmd.session.name)
    if isinstance(cmd, std.QueryAdjust):
        return bits.enc_adjust(cmd.session.name, getattr(cmd.updn, "value", cmd.updn))
    if isinstance(cmd, std.Ack):
        return bits.enc_ack(cmd.rn)
    if isinstance(cmd, std.ReqRN):
        return bits.enc_req(cmd.rn, cmd.crc)
    return bits.enc_read(cmd.bank.name, cmd.word_ptr, cmd.word_count, cmd.rn, cmd.crc)


def command_time(fr, t):
    return bits.frame_time(encode(fr.command), **t)


def reply_bits(rep):
    if isinstance(rep, std.QueryReply):
        return 16
    if isinstance(rep, std.AckReply):
        return 32 + 8 * len(rep.epc)
    if isinstance(rep, std.ReqRNReply):
        return 32
    return 33 + 8 * len(rep.memory)


def reply_time(fr, m, trext, blf):
    return (preamble_bits(m, trext) + reply_bits(fr.reply) + 1) * SYM[m] / blf


def exchange(ctx, cmd, reply_times, t, dr, temp):
    """command end, reply start, reply end, duration - relative to the start."""
    lo, hi = limits(ctx, t["rtcal"], t["trcal"], dr, temp)
    if not reply_times:
        return cmd, None, None, cmd + hi[0]
    longest = reply_times[0]
    for x in reply_times[1:]:
        longest = ctx.ite(x > longest, x, longest)
    start = cmd + lo[0]
    end = start + longest
    a, b = end + hi[1], cmd + lo[3]
    return cmd, start, end, ctx.ite(a > b, a, b)
