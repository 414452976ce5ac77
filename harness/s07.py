"""S07: read statistics are the exact fractions and averages of the history."""
import pysim.models.rfid.epcstd as std
from harness.system import LONG, World, name_of, place
from pysim.models.rfid.objects import Reader, Statistics, Tag
from symx.runner import Scenario

MS = 1e-3
BOUNDS = [
    "1 to 3 (quick) / 4 (thorough) retired tags, each with no read or 1 to 3 reads any of which "
    "got the TID, and any numbers of rounds and Q adjustments up to 2^31; further tags present",
    "1100 / 5000 retired tags, one of them with any numbers of rounds and adjustments",
    "counting in the running model: two tags, every slot draw, Q 0 and 1 with and without Q "
    "adaptation, in range or not, power cycles; the first 9 (quick) / 12 (thorough) commands",
]
OUTSIDE = ["statistics asked for before any tag has retired (a fraction of nothing)"]
ASSUME = ["real arithmetic; equality up to relative 1e-9",
          "a tag takes part in a round when it is arbitrating or replying after the Query"]

KINDS = ["", "n", "t", "nt", "tn", "nn", "ntn"]


class Shelf:
    """What a record asks of a reader."""
    antenna_index = 0


def history(most):
    def fn(ctx):
        st = Statistics()
        n = ctx.choose("tags", list(range(1, most + 1)))
        kinds, rounds, adjusts = [], [], []
        order = ctx.choose("order", [False, True])
        recs = []
        for k in range(n):
            kinds.append(ctx.choose("kind", KINDS if k < 2 else ["", "n", "nt"]))
            rounds.append(ctx.int("rounds", 0, 2 ** 31))
            adjusts.append(ctx.int("adjusts", 0, 2 ** 31))
            tag = Tag(k)
            rec = st.create_tag_record(tag)
            recs.append((tag, rec))
            rec.num_rounds_attained = rec.num_rounds_attained + rounds[k]
            rec.num_qadjust_attained = rec.num_qadjust_attained + adjusts[k]
            for i, c in enumerate(kinds[k]):
                r = rec.new_tag_read_record(Shelf(), i)
                if c == "t":
                    r.read_tid = True
                # the last read may be cut short by the tag leaving
                if i < len(kinds[k]) - 1 or not order:
                    rec.close_tag_read_record()
        # tags that are still there do not count
        here = Tag(100)
        rec = st.create_tag_record(here)
        rec.num_rounds_attained += 1000
        rec.new_tag_read_record(Shelf(), 0).read_tid = True
        rec.close_tag_read_record()
        idx = list(reversed(range(n))) if order else list(range(n))
        for i in idx:
            st.close_tag_record(recs[i][0])
        inv, tid = st.inventory_probability(), st.read_tid_probability()
        ctx.eq(inv * n, sum(1 for k in kinds if k), "identified fraction", f"{inv} {kinds}")
        ctx.eq(tid * n, sum(1 for k in kinds if "t" in k), "TID fraction", f"{tid} {kinds}")
        ctx.check(tid <= inv and 0 <= tid and inv <= 1, "in range and order")
        ctx.eq(st.average_rounds_per_tag() * n, sum(rounds[1:], rounds[0]), "mean of rounds")
        q = list(st.average_changing_q())
        ctx.check(len(q) == n, "adjustments of each tag")
        for a, i in zip(q, idx):
            ctx.check(a == adjusts[i], "adjustments of each tag")
        ctx.check(len(st.tags_history) == n, "history is of the retired")
        for rec, i in zip(st.tags_history, idx):
            ctx.check(len(rec.inventory_history) == len(kinds[i]), "reads kept",
                      f"{len(rec.inventory_history)} for {kinds[i]!r}")
    return fn


def many(n):
    """Very many retired tags."""
    def fn(ctx):
        st = Statistics()
        period = ctx.choose("unread", [2, 3, 400])
        rounds, adjusts = ctx.int("rounds", 0, 2 ** 31), ctx.int("adjusts", 0, 2 ** 31)
        read = tids = 0
        odd = ctx.choose("odd one", [0, n // 2, n - 1])
        for k in range(n):
            tag = Tag(k)
            rec = st.create_tag_record(tag)
            rec.num_rounds_attained = rec.num_rounds_attained + (rounds if k == odd else k % 50)
            rec.num_qadjust_attained = rec.num_qadjust_attained + (adjusts if k == odd else k % 7)
            if k % period:
                read += 1
                r = rec.new_tag_read_record(Shelf(), 0)
                if k % 5 == 0:
                    r.read_tid = True
                    tids += 1
                rec.close_tag_read_record()
            st.close_tag_record(tag)
        ctx.eq(st.inventory_probability() * n, read, "identified fraction")
        ctx.eq(st.read_tid_probability() * n, tids, "TID fraction")
        ctx.eq(st.average_rounds_per_tag() * n,
               rounds + sum(k % 50 for k in range(n) if k != odd), "mean of rounds")
        q = list(st.average_changing_q())
        ctx.check(len(q) == n and len(st.tags_history) == n, "history is of the retired",
                  f"{len(q)} and {len(st.tags_history)} of {n}")
        for k in range(n):
            ctx.check(q[k] == (adjusts if k == odd else k % 7), "adjustments of each tag",
                      f"tag {k}")
    return fn


class Watched(Tag):
    def __init__(self, i, note):
        super().__init__(i)
        self.note = note

    def receive(self, frame):
        before = self.state
        out = super().receive(frame)
        self.note.append((self, name_of(frame), before, self.state, frame.command))
        return out


ENGAGED = (Tag.State.ARBITRATE, Tag.State.REPLY)


def counting(n):
    def fn(ctx):
        mode = ctx.choose("mode", ["plain", "adapting", "power"])
        kw = {}
        if mode == "power":
            kw = dict(power_control_mode=Reader.PowerControlMode.PERIODIC,
                      power_on_duration=0.9 * MS, power_off_duration=0.2 * MS)
        q = ctx.choose("q", [0, 1])
        w = World(ctx, puppets=0, q=q, q_fp=q + 0.3, adjust_delta=0.4,
                  use_query_adjust=mode == "adapting",
                  session=std.Session[ctx.choose("session", ["S0", "S1"])], **kw)
        w.ber = 0.0
        ctx.rt.on_unit = lambda: 0.5
        if ctx.symbolic:
            ctx.ex.round_mode = "fork"

        def draw(lo, hi):
            if hi - lo > 64:
                draw.n += 1
                return lo + draw.n          # RN16s: any distinct ones will do here
            return ctx.choose("slot", list(range(lo, hi + 1)))
        draw.n = 100
        ctx.rt.on_int = draw
        note = []
        tags = [Watched(i, note) for i in range(2)]
        far = ctx.choose("far", [False, True])
        for i, t in enumerate(tags):
            place(t)
            t.epc = "AAAA00000000000%d" % i
            w.model.tags.append(t)
            w.model.statistics.create_tag_record(t)
        w.forward = lambda tag, time: -50.0 if far and tag is tags[1] else 0.0
        count = [0]

        def before(kernel):
            for t in tags:
                t.setup(0.0)
            tags[0].receive, inner = None, tags[0].receive

            def first(frame):
                count[0] += 1
                if count[0] == n:
                    kernel.stop()
                return inner(frame)
            tags[0].receive = first
        w.run(events=300, before=before)
        st = w.model.statistics
        for t in tags:
            mine = [x for x in note if x[0] is t]
            rounds = sum(1 for _, name, _, s, _ in mine if name == "QUERY" and s in ENGAGED)
            adj = sum(1 for _, name, b, s, _ in mine if name == "QADJ" and b in ENGAGED)
            rec = st.get_tag_record(t)
            ctx.check(rec.num_rounds_attained == rounds, "rounds counted once each",
                      f"{rec.num_rounds_attained} for {rounds}: {[x[1] for x in mine]}")
            ctx.check(rec.num_qadjust_attained == adj, "adjustments counted once each",
                      f"{rec.num_qadjust_attained} for {adj}: {[x[1] for x in mine]}")
            if adj:
                ctx.reach("some adjustment")
            if t is tags[1] and far:
                ctx.check(rounds == 0, "none out of range")
        ctx.check(count[0] >= n, "run long enough")
    return fn


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("history", history(3 if q else 4),
                 reach=["identified fraction", "TID fraction", "mean of rounds",
                        "adjustments of each tag"]),
        Scenario("many tags", many(1100 if q else 5000), warm=0, path_s=300, max_steps=200000,
                 reach=["identified fraction", "mean of rounds", "adjustments of each tag"]),
        Scenario("counting", counting(9 if q else 12),
                 reach=["rounds counted once each", "some adjustment", "none out of range"]),
    ]
