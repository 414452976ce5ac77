"""A tag on the bench and, next to it, the inventory state machine it has to follow.

The machine is written from the air protocol: it never looks into the tag, it only takes
over the random numbers the tag drew."""
import pysim.models.rfid.epcstd as std
from pysim.models.rfid.objects import Model, Tag

S = std.Session
F = std.InventoryFlag
NAMES = ("S0", "S1", "S2", "S3")
TARI, DELIM = 6.25e-6, 12.5e-6
RTCAL = 3 * TARI


class Quiet:
    def __getattr__(self, name):
        return lambda *a, **k: None


class Kernel:
    """What tags and readers ask of the kernel."""

    def __init__(self, model=None):
        self.logger = Quiet()
        self.context = model if model is not None else Model()
        self.time = 0.0
        self.scheduled = []


def flip(f):
    return {"A": "B", "B": "A"}[f]


class Machine:
    """Reference: state, registers and answers of one tag."""

    def __init__(self, bench):
        self.b = bench
        self.state = "OFF"
        self.flags = dict.fromkeys(NAMES)
        self.session = self.slot = self.rn = self.q = None
        self.off_since = 0.0
        self.link = None

    # -- power
    def power(self, time, p):
        b, ctx = self.b, self.b.ctx
        if self.state == "OFF":
            if p is not None and p > b.sensitivity:
                gap = time - self.off_since
                for s in NAMES:
                    f = self.flags[s] or "A"
                    if s == "S0":
                        f = "A"
                    elif f == "B" and gap > b.persistence[s]:
                        f = "A"
                    self.flags[s] = f
                self.state = "READY"
                self.session = self.slot = self.rn = None
                self.p = p
        elif p is None or p < b.sensitivity:
            self.state, self.off_since, self.session, self.p = "OFF", time, None, None
        else:
            self.p = p

    # -- commands; each returns the expected answer or None
    def join(self):
        """Draw a slot; answer when it is the first one."""
        b = self.b
        n = 2 ** self.q
        draws = b.new_draws()
        slots = [v for lo, hi, v in draws if (lo, hi) == (0, n - 1)]
        if n == 1 and not slots:
            slots = [0]
        b.check("slots", len(slots) == 1,
                f"drew {[(lo, hi) for lo, hi, _ in draws]} for Q={self.q}")
        self.slot = slots[0]
        if self.slot == 0:
            return self.answer(draws)
        b.check("slots", len(draws) <= 1, "a draw too many")
        self.state = "ARBITRATE"
        return None

    def answer(self, draws=None):
        draws = self.b.new_draws() if draws is None else draws
        rns = [v for lo, hi, v in draws if (lo, hi) == (0, 65535)]
        self.b.check("rn", len(rns) == 1, "an answer carries one fresh RN16")
        self.rn = rns[0]
        self.state = "REPLY"
        return ("RN16", self.rn)

    def query(self, session, target, sel, q, link):
        if self.state == "OFF":
            return None
        if self.session == session and self.state in ("ACKNOWLEDGED", "SECURED"):
            self.flags[session] = flip(self.flags[session])
        chosen = {"ALL": True, "SEL": self.b.sl, "NOT_SEL": not self.b.sl}[sel]
        if self.flags[session] != target or not chosen:
            self.state = "READY"
            return None
        self.session, self.q, self.link = session, q, link
        return self.join()

    def rep(self, session):
        if self.state in ("OFF", "READY") or session != self.session:
            return None
        if self.state == "ARBITRATE":
            if self.slot is not None:
                self.slot = self.slot - 1
                if self.slot == 0:
                    return self.answer()
        elif self.state == "REPLY":
            self.state, self.slot = "ARBITRATE", None
        else:
            self.flags[session] = flip(self.flags[session])
            self.state = "READY"
        return None

    def adjust(self, session, updn):
        if self.state in ("OFF", "READY") or session != self.session:
            return None
        if self.state in ("ARBITRATE", "REPLY"):
            self.q = max(0, min(15, self.q + updn))
            return self.join()
        self.flags[session] = flip(self.flags[session])
        self.state = "READY"
        return None

    def ack(self, rn):
        if self.state != "REPLY":
            return None
        if rn == self.rn:
            self.state = "ACKNOWLEDGED"
            return ("EPC", self.b.epc)
        self.state, self.slot = "ARBITRATE", None
        return None

    def req(self, rn):
        if self.state in ("ACKNOWLEDGED", "SECURED") and rn == self.rn:
            draws = self.b.new_draws()
            rns = [v for lo, hi, v in draws if (lo, hi) == (0, 65535)]
            self.b.check("rn", len(rns) == 1, "a handle is one fresh 16-bit number")
            self.rn = rns[0]
            self.state = "SECURED"
            return ("HANDLE", self.rn)
        return None

    def read(self, bank, ptr, count, rn):
        if self.state == "SECURED" and rn == self.rn:
            data = self.b.memory[bank] or ""
            return ("DATA", data[4 * ptr:4 * (ptr + count)], self.rn)
        return None


class Bench:
    """One tag, its reference machine and the means to talk to both."""

    def __init__(self, ctx, aspects, epc="AAAA0001", tid="E2000011AABBCCDD",
                 user="00112233445566", sl=False, sensitivity=-18.0, loss=-12.0,
                 persistence=None, model=None, kernel=None):
        self.ctx, self.aspects, self.sl = ctx, set(aspects), sl
        self.kernel = kernel or Kernel(model)
        self.time = 0.0
        self.sensitivity, self.loss = sensitivity, loss
        self.epc = epc
        self.memory = {"EPC": epc, "TID": tid, "USER": user, "RESERVED": None}
        self.persistence = persistence or {"S1": 2.0, "S2": 2.0, "S3": 2.0}
        cls = type("SelectedTag", (Tag,), {"sl": property(lambda s: sl)}) if sl else Tag
        t = self.tag = cls(7, self.kernel)
        t.epc, t.tid, t.user_mem = epc, tid, user
        t.sensitivity, t.modulation_loss = sensitivity, loss
        t.s1_persistence = self.persistence["S1"]
        t.s2_persistence = self.persistence["S2"]
        t.s3_persistence = self.persistence["S3"]
        self.record = self.kernel.context.statistics.create_tag_record(t)
        self.ref = Machine(self)
        self.ref.p = None
        self.seen = 0
        self.ints = []
        self.want_blf = None
        ctx.rt.on_int = self.on_int
        self.forced = []

    def on_int(self, lo, hi):
        v = self.forced.pop(0) if self.forced else self.ctx.int("draw", lo, hi)
        self.ints.append((lo, hi, v))
        return v

    def new_draws(self):
        out = self.ints[self.seen:]
        self.seen = len(self.ints)
        return out

    def check(self, aspect, cond, detail=""):
        if aspect in self.aspects:
            self.ctx.check(cond, LABEL[aspect], detail)

    # -- talking to the tag
    def power(self, p, dt=0.0):
        self.time = self.time + dt
        self.kernel.time = self.time
        self.tag.set_power(self.time, p)
        self.ref.power(self.time, p)
        self.settle(None, None, "power")

    def send(self, cmd, want, what, trcal=64.0 / 3 * 1e-6 * 4):
        """Give the tag a command; `want` computes the reference's answer afterwards."""
        if isinstance(cmd, std.Query):
            pre = std.ReaderPreamble(TARI, RTCAL, trcal, DELIM)
        else:
            pre = std.ReaderSync(TARI, RTCAL, DELIM)
        got = self.tag.receive(std.ReaderFrame(pre, cmd))
        self.settle(got, want(), what)
        return got

    def query(self, session, target="A", sel="ALL", q=0, m="FM0", trext=False, dr="DR_8",
              trcal=64.0 / 3 * 1e-6 * 4):
        cmd = std.Query(std.DivideRatio[dr], std.TagEncoding[m], trext, std.SelFlag[sel],
                        S[session], F[target], q)
        return self.send(cmd, lambda: self.ref.query(session, target, sel, q,
                                                     (m, trext, dr, trcal)), "Query", trcal)

    def rep(self, session):
        return self.send(std.QueryRep(S[session]), lambda: self.ref.rep(session), "QueryRep")

    def adjust(self, session, updn):
        return self.send(std.QueryAdjust(S[session], updn),
                         lambda: self.ref.adjust(session, updn), "QueryAdjust")

    def ack(self, rn):
        return self.send(std.Ack(rn), lambda: self.ref.ack(rn), "Ack")

    def req(self, rn):
        return self.send(std.ReqRN(rn), lambda: self.ref.req(rn), "ReqRN")

    def read(self, rn, bank="TID", ptr=0, count=2):
        return self.send(std.Read(std.MemoryBank[bank], ptr, count, rn),
                         lambda: self.ref.read(bank, ptr, count, rn), "Read")

    # -- judging
    def settle(self, got, want, what):
        ctx, tag, ref = self.ctx, self.tag, self.ref
        extra = self.new_draws()
        self.check("slots", not [d for d in extra if d[:2] != (0, 65535)],
                   f"{what}: a slot drawn without need")
        self.check("state", tag.state.name == ref.state,
                   f"{what}: {tag.state.name} instead of {ref.state}")
        self.check("silence", ref.state != "OFF" or got is None, f"{what}: an answer while off")
        if "reply" in self.aspects or "slots" in self.aspects:
            lab = LABEL["reply"] if "reply" in self.aspects else LABEL["slot reply"]
            ctx.check((got is None) == (want is None), lab,
                      f"{what}: {'an' if got is not None else 'no'} answer in {ref.state}")
            if got is not None and want is not None:
                self.judge_reply(got.reply, want, what, lab)
        if "link" in self.aspects and got is not None:
            self.judge_link(got)
        if "flags" in self.aspects:
            for s in NAMES:
                f = getattr(tag, s.lower())
                ctx.check((f.name if f is not None else None) == ref.flags[s], LABEL["flags"],
                          f"{what}: flag {s} is {f}, expected {ref.flags[s]}")
        if "power" in self.aspects:
            if ref.state == "OFF":
                ctx.check(tag.power is None and tag.tx_power is None, LABEL["power"],
                          "an unpowered tag reports power")
            else:
                ctx.check(tag.power is not None, LABEL["power"], "a tag that is on reports none")
                ctx.eq(tag.power, ref.p, LABEL["power"])
                ctx.eq(tag.tx_power, ref.p + self.loss, LABEL["transmit"])

    def judge_reply(self, reply, want, what, lab):
        ctx = self.ctx
        kind = {std.QueryReply: "RN16", std.AckReply: "EPC", std.ReqRNReply: "HANDLE",
                std.ReadReply: "DATA"}.get(type(reply))
        ctx.check(kind == want[0], lab, f"{what} answered with {kind}")
        if kind in ("RN16", "HANDLE"):
            ctx.check(reply.rn == want[1], LABEL["reply rn"], f"{what}: {reply.rn!r}")
        elif kind == "EPC":
            ctx.check(list(reply.epc) == list(bytes.fromhex(want[1])), LABEL["reply data"],
                      f"{list(reply.epc)}")
        elif kind == "DATA":
            ctx.check(list(reply.memory) == list(bytes.fromhex(want[1])), LABEL["reply data"],
                      f"{list(reply.memory)}")
            ctx.check(reply.rn == want[2], LABEL["reply rn"], f"{what}: {reply.rn!r}")

    def judge_link(self, got):
        from harness.e04 import preamble_bits
        from harness.e05 import DR
        ctx, tag = self.ctx, self.tag
        m, trext, dr, trcal = self.ref.link
        sym = {"FM0": 1, "M2": 2, "M4": 4, "M8": 8}[m]
        ctx.eq(tag.blf * trcal, DR[dr], LABEL["link"], "backscatter frequency")
        ctx.check(tag.encoding is std.TagEncoding[m], LABEL["link"], "encoding")
        n = got.reply.bitlen
        ctx.eq(got.get_duration(DR[dr] / trcal),
               (preamble_bits(m, trext) + n + 1) * sym * trcal / DR[dr], LABEL["link"],
               "duration of the answer")


LABEL = {
    "state": "state", "reply": "answers", "reply rn": "number carried", "reply data": "content",
    "silence": "silence while off", "slots": "draws", "slot reply": "slot of the answer",
    "rn": "fresh number", "flags": "inventoried flags", "power": "power", "transmit":
    "transmit power", "link": "link parameters of answers",
}


# ---------------------------------------------------------------- reaching a state
def reach(b, state, session="S1", target="A", q=2):
    """Bring a fresh tag into a state of the inventory of `session`, through its commands."""
    if state == "OFF":
        return
    b.power(0.0)
    if state == "READY":
        return
    if state == "ARBITRATE":
        b.forced = [3]
        b.query(session, target, q=q)
        return
    b.forced = [0]
    b.query(session, target, q=q)
    if state == "REPLY":
        return
    b.ack(b.ref.rn)
    if state == "ACKNOWLEDGED":
        return
    b.req(b.ref.rn)


STATES = ["OFF", "READY", "ARBITRATE", "REPLY", "ACKNOWLEDGED", "SECURED"]
