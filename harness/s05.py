"""S05: a tag leaving the model at any moment."""
import pysim.models.rfid.epcstd as std
import pysim.models.rfid.handlers as handlers
from harness.s02 import answers
from harness.system import LONG, World, name_of
from pysim.models.rfid.objects import Reader
from symx.runner import Scenario

MS = 1e-3
BOUNDS = [
    "three tags; one leaves at any moment of the first 5 ms; the first 6 (quick) / 8 (thorough) "
    "commands, each slot answered by nobody, the leaving tag, a staying tag or both; each reply "
    "received or lost; with and without access to the TID",
    "the power being cut at any moment before or after the tag leaves",
    "two tags leaving at any two moments",
]
OUTSIDE = ["a tag leaving at the very moment an exchange ends or the power is switched (within "
           "1 ns), where the order of the two events is the kernel's (K01)"]
ASSUME = ["an acknowledged tag alone answers in the access phases (it is the one that sent the "
          "number acknowledged)"]


def expected(ctx, w, leaves, cuts):
    """Reads per puppet from the log of commands: list of (round, index of puppet, done)."""
    reads = {p: [] for p in w.puppets}
    rounds = -1
    now = {}
    n = len(w.commands)
    for k, (t, f, _, ans) in enumerate(w.commands):
        name = name_of(f)
        if name == "QUERY":
            rounds += 1
        if name in ("QUERY", "QREP"):
            for r in now.values():
                r["done"] = True
            now = {}
        given = [(p, a) for p, a in zip(w.puppets, ans) if a is not None
                 and w.present_at[k][p]]
        if len(given) != 1 or k in w.lost or k + 1 >= n or w.cut_after(k):
            continue
        end = w.commands[k + 1][0]
        p, a = given[0]
        gone = leaves.get(p)
        here = gone is None or gone > end
        if not here:
            continue
        if name == "ACK":
            r = dict(round=rounds, tid=False, done=False)
            # one metre per second along the second axis, moved at the last power update
            r["pos"] = [x for x, _ in p.powers if x <= end][-1]
            reads[p].append(r)
            now = {p: r}
        elif name == "READ":
            ctx.check(p in now, "data only from the tag acknowledged")
            now[p]["tid"] = True
    for p, t in leaves.items():
        for r in reads[p]:
            r["done"] = True
    return reads


def run(ctx, n, tid, script_who, leavers, power=None, setup=None):
    kw = {}
    if power:
        kw = dict(power_control_mode=Reader.PowerControlMode.PERIODIC,
                  power_on_duration=power[0], power_off_duration=power[1])
    w = World(ctx, puppets=4, q=2, read_tid_bank=tid, read_tid_words_num=2, **kw)
    w.tag_blf = 2e5
    w.lost = set()
    w.present_at = []
    if setup is not None:
        setup(w)
    last = [1]
    records = {}

    def cut_after(k):
        """The power was cut before exchange k finished."""
        return any(len_at == k + 1 for what, _, len_at in w.cuts if what == "off")
    w.cuts = []
    w.cut_after = cut_after
    w.reader.power_off_listeners.add(lambda: w.cuts.append(("off", w.kernel.time,
                                                            len(w.commands))))

    def script(f, k):
        name = name_of(f)
        w.present_at.append({p: p in w.model.tags for p in w.puppets})
        if k == n - 1:
            w.kernel.stop()
            return [None] * 4
        who = script_who(name, k)
        reps = answers(ctx, w, f, "first")
        rep = reps[0]
        give = [None] * 4
        if name in ("QUERY", "QREP"):
            sel = {"none": [], "leaver": [1], "stayer": [2], "both": [1, 2]}[who]
            if len(sel) == 1:
                last[0] = sel[0]
        else:
            sel = [last[0]] if who == "answer" else []
        for i in sel:
            if w.present_at[-1][w.puppets[i]]:
                give[i] = rep
        return give
    w.script = script
    # (the first puppet only keeps the log: it never leaves and never answers)
    for p in w.puppets:
        records[p] = w.model.statistics.get_tag_record(p)
    leaves = {}

    def plan(kernel):
        for i, t in leavers:
            p = w.puppets[i]
            leaves[p] = t
            kernel.schedule(t, handlers.remove_tag, (p,))
    w.run(events=600, before=plan)
    ctx.check(len(w.commands) == n, "the run goes on", f"{len(w.commands)} of {n} commands")
    # the ties are left out
    ties = [c[0] for c in w.commands] + [t for _, t, _ in w.cuts]
    for t in leaves.values():
        ctx.assume(ctx.and_(*[ctx.or_(t < x - 1e-9, t > x + 1e-9) for x in ties[1:]]))
    end = w.commands[-1][0]
    st = w.model.statistics
    gone = {p: t for p, t in leaves.items() if t < end}
    want = expected(ctx, w, gone, None)
    for p in w.puppets:
        rec = records[p]
        if p in gone:
            ctx.check(st.get_tag_record(p) is None and rec in st.tags_history,
                      "record goes to the history")
            ctx.check(p not in w.model.tags, "gone")
            for t, _ in p.heard:
                ctx.check(t <= gone[p], "hears nothing after leaving")
            for t, _ in p.powers:
                ctx.check(t <= gone[p], "no power after leaving")
        else:
            ctx.check(st.get_tag_record(p) is rec and rec not in st.tags_history,
                      "others keep their record")
            ctx.check(len(p.heard) == len(w.commands), "others hear every command")
        got = rec.inventory_history
        exp = [r for r in want[p] if r["done"]]
        ctx.check(len(got) == len(exp), "identifications recorded",
                  f"{len(got)} for {len(exp)}: {[name_of(c[1]) for c in w.commands]}")
        for a, b in zip(got, exp):
            ctx.check(bool(a.read_tid) == b["tid"], "TID read as received",
                      f"{a.read_tid} for {b['tid']}")
            ctx.check(a.round_index == b["round"], "round of the identification",
                      f"{a.round_index} for {b['round']}")
            ctx.check(a.antenna_index == 0, "antenna of the identification")
            ctx.check(a.tag_pos[0] == 0 and a.tag_pos[2] == 0, "position of the identification")
            ctx.eq(a.tag_pos[1], b["pos"], "position of the identification")
    ctx.check(len(st.tags_history) == len(gone), "one record per tag gone")
    ctx.check(w.model.num_tags_simulated == len(gone), "count of the tags gone")
    # the commands still follow the exchanges: ends of the slots are on the clock
    for a, b in zip(w.commands, w.commands[1:]):
        ctx.check(b[0] > a[0], "time goes on")
    for p in gone:
        ctx.reach("somebody left")
    return w


def leaving(n):
    def fn(ctx):
        tid = ctx.choose("tid", [True, False])
        t = ctx.real("leaves", 0, 5 * MS, lo_open=True)

        def who(name, k):
            if name in ("QUERY", "QREP"):
                c = ctx.choose("slot", ["leaver", "stayer", "both", "none"])
            else:
                c = ctx.choose("access", ["answer", "none"])
            return c
        run(ctx, n, tid, who, [(1, t)])
        ctx.reach("leaving")
    return fn


def losing(n):
    """With losses: the draw of the k-th reply received or not."""
    def fn(ctx):
        t = ctx.real("leaves", 0, 5 * MS, lo_open=True)

        def who(name, k):
            return "leaver" if name in ("QUERY", "QREP") else "answer"

        def setup(w):
            def unit():
                lost = ctx.choose("lost", [False, True])
                if lost:
                    w.lost.add(len(w.commands) - 1)
                return 1.0 - 1e-9 if lost else 0.0
            w.ber = 0.5
            ctx.rt.on_unit = unit
        run(ctx, n, True, who, [(1, t)], setup=setup)
        ctx.reach("losing")
    return fn


def powered(n):
    def fn(ctx):
        t = ctx.real("leaves", 0, 4 * MS, lo_open=True)
        on = ctx.real("on", 0.2 * MS, 3 * MS)
        off = ctx.choose("off", [0.1 * MS, 1.0 * MS])
        turn = ctx.choose("order", ["leaver", "stayer"])

        def who(name, k):
            if name in ("QUERY", "QREP"):
                return turn
            return "answer"
        run(ctx, n, True, who, [(1, t)], power=(on, off))
        ctx.reach("powered")
    return fn


def two_leave(n):
    def fn(ctx):
        a = ctx.real("first leaves", 0, 3 * MS, lo_open=True)
        b = ctx.real("second leaves", 0, 3 * MS, lo_open=True)
        turn = ctx.choose("order", [["leaver", "stayer"], ["stayer", "leaver"], ["both", "leaver"]])
        count = [0]

        def who(name, k):
            if name in ("QUERY", "QREP"):
                count[0] += 1
                return turn[(count[0] - 1) % 2]
            return "answer"
        run(ctx, n, True, who, [(1, a), (2, b)])
        ctx.reach("two leave")
    return fn


def Once(*a, **k):
    """One preceding run is enough for these long ones."""
    return Scenario(*a, warm=1, **k)


def scenarios(tier):
    q = tier == "quick"
    labels = ["somebody left", "identifications recorded", "TID read as received",
              "record goes to the history", "others hear every command"]
    return [
        Once("leaving", leaving(6 if q else 8), reach=["leaving"] + labels),
        Once("losing", losing(6 if q else 8), reach=["losing"] + labels),
        Once("powered", powered(6 if q else 10), reach=["powered"] + labels),
        Once("two leave", two_leave(8 if q else 11), reach=["two leave"] + labels),
    ]
