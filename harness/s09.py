"""S09: full inventory runs respect the protocol end to end."""
import pysim.models.rfid.epcstd as std
import pysim.models.rfid.handlers as handlers
from harness.system import LONG, World, name_of, place
from pysim.models.rfid.objects import Reader, Tag
from symx.runner import Scenario

MS = 1e-3
BOUNDS = [
    "the whole model (kernel, handlers, reader, tags, statistics) with the path loss and the bit "
    "error rate in the harness's hands; Q 0 and 1, with and without TID reading",
    "slots: 2 tags, every slot draw, the same or different RN16s, every loss of a lone reply, "
    "the first 7 (quick) / 9 (thorough) commands; 3 tags, 7 / 8 commands, no losses",
    "power: any on-duration in [0.2, 2.5] ms, two off-durations, session S2, 2 tags, every slot "
    "draw of the first two rounds (fixed later ones), the first 8 / 11 commands",
    "coming and going: a tag leaves and another arrives at any two moments of the first 1.8 ms",
    "adaptation of Q with every slot draw, 8 / 10 commands; tags in or out of range at each of "
    "the first 10 / 12 evaluations of their power, 8 / 9 commands",
]
OUTSIDE = ["longer runs, more tags, larger Q", "capture of the stronger of two replies (the "
           "model has none)"]
ASSUME = ["RN16s from a small set (all alike, or all different): the frames carry them but no "
          "handler depends on their values beyond equality (T01, R02 decide that for all)"]


class Real(Tag):
    w = None

    def receive(self, frame):
        before = self.state
        out = super().receive(frame)
        self.w.events.append((len(self.w.commands) - 1, self, before, self.state, out))
        return out


def build(ctx, n, rns="different", lossy=False, free=100, **kw):
    w = World(ctx, puppets=1, **kw)     # the puppet keeps the log and never speaks
    w.events, w.reals, w.lost, w.reads, w.members = [], [], set(), [], []
    w.ber = 0.5 if lossy else 0.0

    def unit():
        if not lossy:
            return 0.5
        gone = ctx.choose("lost", [False, True])
        if gone:
            w.lost.add(len(w.commands) - 1)
        return 1.0 - 1e-9 if gone else 0.0
    ctx.rt.on_unit = unit
    if ctx.symbolic:
        ctx.ex.round_mode = "fork"
    counter, draws = [0x1000], [0]

    def draw(lo, hi):
        if hi - lo > 64:
            counter[0] += 1
            return 0x1001 if rns == "same" else counter[0]
        draws[0] += 1
        if draws[0] > free:
            return lo + draws[0] % (hi - lo + 1)
        return ctx.choose("slot", list(range(lo, hi + 1))) if hi > lo else lo
    ctx.rt.on_int = draw
    for i in range(n):
        enter(w, new_tag(w, i))
    return w


def new_tag(w, i):
    t = Real(100 + i)
    t.w = w
    place(t)
    t.epc, t.tid = "AAAA00000000000%d" % i, "BBBB00000000000%d" % i
    t.s1_persistence = t.s2_persistence = t.s3_persistence = 1e6
    w.reals.append(t)
    return t


def enter(w, t):
    w.add(t)
    t.setup(0.0)


def reads_of(w, t, records):
    r = records.get(t) or w.model.statistics.get_tag_record(t)
    if r is None:
        return 0
    records[t] = r
    return len(r.inventory_history) + (1 if r.tag_read_record is not None else 0)


def go(ctx, w, n, before=None):
    records = {}

    def script(f, k):
        w.members.append(list(w.model.tags))
        w.reads.append({t: reads_of(w, t, records) for t in w.reals})
        if k == n - 1:
            w.kernel.stop()
        return [None]
    w.script = script
    r = w.run(events=1000, before=before)
    ctx.check(len(w.commands) == n, "the run goes on", f"{len(w.commands)}")
    return records


SLOT = ("QUERY", "QREP", "QADJ")


def judge(ctx, w, n, again=False):
    """The log of the whole run against the protocol.  `again`: flags may be lost."""
    names = [name_of(c[1]) for c in w.commands]
    log = lambda: " ".join(names)
    by = {}
    for k, t, b, a, out in w.events:
        by.setdefault(k, []).append((t, b, a, out))
    offs = [t for what, t in w.log if what == "off"]
    ons = [t for what, t in w.log if what == "on"]
    flipped = {t: False for t in w.reals}
    acked = {t: False for t in w.reals}
    acks_in_slot = []
    slot_replies = []
    for k in range(n):
        t0, frame, _, _ = w.commands[k]
        here = by.get(k, [])
        replies = [(t, out) for t, b, a, out in here if out is not None]
        name = names[k]
        # -- tags that were acknowledged hear the next slot command
        if name in SLOT:
            for t, b, a, out in here:
                if b in (Tag.State.ACKNOWLEDGED, Tag.State.SECURED) and acked[t]:
                    flipped[t] = not flipped[t]
                    acked[t] = False
            acks_in_slot, slot_replies = [], [t for t, _ in replies]
        for t, b, a, out in here:
            if b is Tag.State.OFF:
                ctx.check(out is None and a is Tag.State.OFF, "an unpowered tag is silent")
            if a is Tag.State.ACKNOWLEDGED and b is not Tag.State.ACKNOWLEDGED:
                acks_in_slot.append(t)
                acked[t] = True
                ctx.check(name == "ACK", "acknowledged by an ACK")
                ctx.check(slot_replies == [t], "only the lone tag of a slot is acknowledged",
                          f"{len(slot_replies)} replies: {log()}")
        ctx.check(len(acks_in_slot) <= 1, "one acknowledgement per slot", log())
        if k + 1 == n:
            break
        t1, nxt, _, _ = w.commands[k + 1]
        ctx.check(t1 >= t0, "time goes on")
        cut = any(t0 <= x for x in offs) and any(x <= t1 for x in offs if x >= t0)
        received = replies[0] if len(replies) == 1 and k not in w.lost and not cut else None
        follow = names[k + 1]
        if cut:
            ctx.check(follow == "QUERY", "power comes back with a Query", log())
        elif received is None:
            ctx.check(follow in SLOT, "an unanswered exchange ends the slot", log())
        else:
            rep = received[1].reply
            if isinstance(rep, std.QueryReply):
                ctx.check(follow == "ACK" and nxt.command.rn == rep.rn, "acknowledge next",
                          log())
            elif isinstance(rep, std.AckReply) and w.reader.read_tid_bank:
                ctx.check(follow == "REQRN" and nxt.command.rn == frame.command.rn,
                          "request a handle next", log())
            elif isinstance(rep, std.ReqRNReply):
                ctx.check(follow == "READ" and nxt.command.rn == rep.rn, "read next", log())
            else:
                ctx.check(follow in SLOT, "next slot after the last exchange", log())
        # -- identifications
        for t in w.reals:
            new = w.reads[k + 1][t] - w.reads[k][t]
            is_ack = received is not None and received[0] is t and name == "ACK"
            if new:
                ctx.check(new == 1 and is_ack, "identified by its own received EPC",
                          f"{new} new reads: {log()}")
                ctx.check(t in w.members[k], "identified while present")
                ctx.check(slot_replies == [t], "identified alone in its slot", log())
                ctx.check(not flipped[t] or again, "not identified twice", log())
                ctx.reach("identified")
            elif is_ack and t in w.members[k + 1]:
                ctx.fail("every received EPC is an identification", log())
    # -- what was read is the tag's own
    for k, t, b, a, out in w.events:
        if out is not None and isinstance(out.reply, std.AckReply):
            ctx.check("".join("{:02X}".format(x) for x in out.reply.epc) == t.epc, "own EPC")
        if out is not None and isinstance(out.reply, std.ReadReply):
            ctx.check("".join("{:02X}".format(x) for x in out.reply.memory) == t.tid,
                      "own TID", f"{out.reply.memory}")


def slots(n, tags, lossy):
    def fn(ctx):
        rns = ctx.choose("RN16s", ["different", "same"])
        w = build(ctx, tags, rns, lossy, q=ctx.choose("q", [1, 0]),
                  read_tid_bank=ctx.choose("tid", [True, False]))
        go(ctx, w, n)
        judge(ctx, w, n)
    return fn


def power(n):
    def fn(ctx):
        on = ctx.real("on", 0.2 * MS, 2.5 * MS)
        off = ctx.choose("off", [0.1 * MS, 3 * MS])
        tid = ctx.choose("tid", [False, True])
        w = build(ctx, 2, free=4, session=std.Session.S2, q=1, read_tid_bank=tid,
                  power_control_mode=Reader.PowerControlMode.PERIODIC, power_on_duration=on,
                  power_off_duration=off)
        go(ctx, w, n)
        # off at the very moment an exchange ends or begins: the order is the kernel's
        ctx.assume(ctx.and_(*[ctx.or_(t < x - 1e-9, t > x + 1e-9)
                              for what, t in w.log if what == "off"
                              for x in [c[0] for c in w.commands]]))
        judge(ctx, w, n)
        if any(what == "off" for what, _ in w.log):
            ctx.reach("cut")
    return fn


def traffic(n):
    def fn(ctx):
        leave = ctx.real("leaves", 0, 1.8 * MS, lo_open=True)
        come = ctx.real("comes", 0, 1.8 * MS, lo_open=True)
        tid = ctx.choose("tid", [False, True])
        w = build(ctx, 1 if tid else 2, q=1, read_tid_bank=tid)
        extra = new_tag(w, 7)

        def arrive(kernel):
            extra.kernel = kernel
            extra.last_pos_update = kernel.time
            w.model.tags.append(extra)
            w.model.statistics.create_tag_record(extra)
            extra.setup(kernel.time)
            extra.set_power(kernel.time, 0.0)

        def before(kernel):
            kernel.schedule(leave, handlers.remove_tag, (w.reals[0],))
            kernel.schedule(come, arrive)
        go(ctx, w, n, before)
        judge(ctx, w, n)
        # an arrival in the middle of a round waits for the next Query
        first = [k for k, t, b, a, out in w.events if t is extra and out is not None]
        if first:
            k = first[0]
            heard = [name_of(w.commands[j][1]) for j, t, *_ in w.events if t is extra and j <= k]
            ctx.check("QUERY" in heard, "an arrival waits for the next Query", f"{heard}")
            ctx.reach("arrival engaged")
    return fn


def adaptive(n):
    def fn(ctx):
        rns = ctx.choose("RN16s", ["different", "same"])
        w = build(ctx, 2, rns, q=ctx.choose("q", [0, 1]), use_query_adjust=True,
                  adjust_delta=0.6, q_fp=0.5)
        w.reader.q_fp = float(w.reader.q)
        go(ctx, w, n)
        judge(ctx, w, n)
        if any(name_of(c[1]) == "QADJ" for c in w.commands):
            ctx.reach("adjusted")
    return fn


def fading(n, most):
    def fn(ctx):
        w = build(ctx, 2, session=std.Session[ctx.choose("session", ["S1", "S0"])], q=0,
                  read_tid_bank=ctx.choose("tid", [True, False]))
        w.model.update_interval = 0.45 * MS
        asked = [0]

        def forward(tag, time):
            if tag not in w.reals:
                return 0.0
            asked[0] += 1
            if asked[0] > most:
                return 0.0
            return ctx.choose("power", [0.0, -60.0])
        w.forward = forward
        go(ctx, w, n)
        # S0 does not outlive a loss of power
        judge(ctx, w, n, again=w.reader.session is std.Session.S0)
        if any(b is Tag.State.OFF for _, _, b, _, _ in w.events):
            ctx.reach("faded")
    return fn


def Once(*a, **k):
    """One preceding run is enough for these long ones."""
    return Scenario(*a, warm=1, **k)


def scenarios(tier):
    q = tier == "quick"
    common = ["identified", "one acknowledgement per slot", "own EPC",
              "only the lone tag of a slot is acknowledged"]
    return [
        Once("slots", slots(7 if q else 9, 2, True), reach=common + [
            "own TID", "read next", "request a handle next",
            "an unanswered exchange ends the slot"]),
        Once("three tags", slots(7 if q else 8, 3, False), reach=common),
        Once("power", power(8 if q else 11), reach=common + [
            "cut", "power comes back with a Query"]),
        Once("traffic", traffic(7 if q else 9), reach=common + ["arrival engaged"]),
        Once("adaptive", adaptive(8 if q else 10), reach=common + ["adjusted"]),
        Once("fading", fading(*((8, 10) if q else (9, 12))), reach=common + [
            "faded", "an unpowered tag is silent"]),
    ]
