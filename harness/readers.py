"""A reader on the bench: its notifications recorded, its settings known to the harness."""
import pysim.models.rfid.epcstd as std
from harness.tags import Kernel
from pysim.models.rfid.objects import Antenna, Reader

TARI = 6.25e-6


def antenna():
    a = Antenna()
    return a


class Bench:
    def __init__(self, ctx, antennas=1, **kw):
        self.ctx = ctx
        self.kernel = Kernel()
        r = self.reader = Reader(self.kernel)
        self.events = []
        s = dict(q=1, tag_encoding=std.TagEncoding.FM0, read_tid_bank=False,
                 read_tid_words_num=4, max_power=30.0, use_query_adjust=False,
                 adjust_delta=0.1, q_fp=1.0)
        s.update(kw)
        self.settings = s
        for k, v in s.items():
            setattr(r, k, v)
        for _ in range(antennas):
            r.attach_antenna(antenna())
        log = self.events.append
        r.round_start_listeners.add(lambda i: log(("round start", i)))
        r.round_finish_listeners.add(lambda i: log(("round finish", i)))
        r.slot_start_listeners.add(lambda i, j: log(("slot start", i, j)))
        r.slot_finish_listeners.add(lambda i, j: log(("slot finish", i, j)))
        r.power_on_listeners.add(lambda: log(("on",)))
        r.power_off_listeners.add(lambda: log(("off",)))

    def rn16(self, rn):
        return self.reader.receive(frame(std.QueryReply(rn)))

    def epc(self, epc="AABB"):
        return self.reader.receive(frame(std.AckReply(epc)))

    def handle(self, rn):
        return self.reader.receive(frame(std.ReqRNReply(rn)))

    def data(self, rn, data="00112233"):
        return self.reader.receive(frame(std.ReadReply(data, rn)))


def frame(reply):
    return std.TagFrame(std.create_tag_preamble(std.TagEncoding.FM0, False), reply)


def kind(fr):
    if fr is None:
        return None
    return {std.Query: "QUERY", std.QueryRep: "QREP", std.QueryAdjust: "QADJ", std.Ack: "ACK",
            std.ReqRN: "REQRN", std.Read: "READ"}[type(fr.command)]


class Rounds:
    """Nesting and numbering of the notifications, checked as they come."""

    def __init__(self, ctx, events):
        self.ctx, self.events, self.seen = ctx, events, 0
        self.round = self.slot = None
        self.rounds = 0
        self.last_round = None
        self.slots = []         # (round, slot) started
        self.finished_rounds = []

    def catch_up(self):
        ctx = self.ctx
        while self.seen < len(self.events):
            e = self.events[self.seen]
            self.seen += 1
            if e[0] == "round start":
                ctx.check(self.round is None and self.slot is None, "one round at a time", e)
                ctx.check(self.last_round is None or e[1] == self.last_round + 1,
                          "rounds numbered in order", f"{e} after {self.last_round}")
                self.round = self.last_round = e[1]
                self.expected = 0
                self.rounds += 1
            elif e[0] == "round finish":
                ctx.check(self.round == e[1] and self.slot is None,
                          "round finish matches its start", f"{e} in {self.round},{self.slot}")
                self.round = None
                self.finished_rounds.append(e[1])
            elif e[0] == "slot start":
                ctx.check(self.slot is None and self.round == e[1], "one slot at a time", e)
                ctx.check(e[2] == self.expected, "slots numbered in order",
                          f"{e}, expected {self.expected}")
                self.slot = e[2]
                self.expected += 1
                self.slots.append((e[1], e[2]))
            elif e[0] == "slot finish":
                ctx.check((self.round, self.slot) == (e[1], e[2]),
                          "slot finish matches its start", f"{e} in {self.round},{self.slot}")
                self.slot = None
