"""Runs the scenarios of one property: explores them with the solver on worker processes,
replays every counterexample on the real code, writes the evidence file."""
import contextlib
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("SYMX_PROCS", "8"))


class Scenario:
    """One bounded exploration.

    fn(ctx) is the harness; opts are engine options; reach lists check labels that must
    have been evaluated at least once (guards against vacuous passes)."""

    def __init__(self, name, fn, bounds="", reach=(), tiers=("quick", "thorough"),
                 path_s=60.0, query_ms=20000, max_steps=20000, max_values=300,
                 finding=None, witness=6, replay_s=30, warm=2,
                 narrow=None, narrow_s=60):
        # narrow: what to explore instead where this takes too long (evidence says so)
        self.narrow, self.narrow_s = narrow, narrow_s
        self.narrowed, self.stands_for = False, None
        self.name, self.bounds = name, bounds
        self.fn = _after(fn, warm) if warm else fn
        self.reach, self.tiers = tuple(reach), tiers
        self.path_s, self.query_ms = path_s, query_ms
        self.max_steps, self.max_values = max_steps, max_values
        self.finding, self.witness, self.replay_s = finding, witness, replay_s


def _after(fn, warm):
    """fn, preceded by runs on fixed values in the same process."""
    def scenario(ctx):
        from . import env
        for v in reversed(range(warm)):
            env.warm_up(ctx, fn, v)
        return fn(ctx)
    return scenario


def load(pid):
    return importlib.import_module(f"harness.{pid.lower()}")


# ---------------------------------------------------------------- small IPC
def _send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<Q", len(b)) + b
    mv = memoryview(b)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


def _recv(fd):
    def rd(n):
        out = bytearray()
        while len(out) < n:
            c = os.read(fd, min(n - len(out), 1 << 20))
            if not c:
                raise EOFError
            out += c
        return bytes(out)
    (n,) = struct.unpack("<Q", rd(8))
    return pickle.loads(rd(n))


def _quiet():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("SYMX_DEBUG"):
        os.dup2(dn, 2)
    os.close(dn)


# ---------------------------------------------------------------- worker
SCRATCH = None


class _Alarm(BaseException):
    pass


def _worker(mod, scenarios, rfd, wfd, tier):
    from . import core, env
    _quiet()
    scratch = os.path.join(SCRATCH, f"w{os.getpid()}")
    os.mkdir(scratch)
    os.chdir(scratch)
    env.install(symbolic=True)
    cover = Coverage()
    cover.start()
    try:
        while True:
            task = _recv(rfd)
            if task is None:
                break
            sid, prefixes, budget = task
            sc = scenarios[sid]
            out = _explore(core, env, sc, prefixes, budget)
            out["sid"] = sid
            out["functions"] = cover.drain()
            _send(wfd, out)
    except (EOFError, BrokenPipeError, KeyboardInterrupt):
        pass
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(0)


def _explore(core, env, sc, prefixes, budget):
    stack = list(prefixes)
    stats = core.Stats()
    opts = {"env": env.run_env, "path_s": sc.path_s, "query_ms": sc.query_ms,
            "max_steps": sc.max_steps, "max_values": sc.max_values,
            "debug": bool(os.environ.get("SYMX_DEBUG"))}
    violations, inconclusive, witnesses = [], [], []
    t0 = time.time()
    npaths = 0

    def on_alarm(sig, frm):
        raise core.PathLimit("no answer within the path's time limit")
    signal.signal(signal.SIGALRM, on_alarm)
    while stack:
        p = stack.pop()
        ex = core.Explorer(opts, stats)
        signal.setitimer(signal.ITIMER_REAL, sc.path_s * 1.5 + 5)
        try:
            outcome, alts = ex.run_path(sc.fn, p)
            if outcome == "done" and not ex.violations and not ex.inconclusive \
                    and (npaths % 17 == 0) and len(witnesses) < 2:
                with contextlib.suppress(core.Control):
                    w = _witness(core, ex)
                    if w is not None:
                        witnesses.append(w)
        except core.Control as e:
            outcome, alts = "inconclusive", ex.alts
            ex.inconclusive.append(f"{type(e).__name__}: {e}")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        npaths += 1
        for v in ex.violations:
            d = {"label": v.label, "detail": str(v.detail)[:1500], "values": v.values,
                 "prefix": len(p), "crash": v.label == "no-unexpected-exception"}
            if getattr(v, "alts", None):
                d["alts"] = v.alts
            violations.append(d)
        for m in ex.inconclusive:
            item = {"msg": m[:400]}
            with contextlib.suppress(BaseException):
                prev, core.EX = core.EX, ex
                try:
                    md = ex.nice_model([])
                    if md is None and ex.recip:
                        md = ex.discrete_model()
                    if md is not None:
                        item["values"] = ex.values_of(md)
                        if ex.recip:
                            item["alts"] = ex.points(item["values"])
                finally:
                    core.EX = prev
            inconclusive.append(item)
        stack.extend(alts)
        if len(violations) >= 4 or len(inconclusive) >= 16:
            break
        if time.time() - t0 > budget:
            break
    return {"leftover": stack, "stats": stats.as_dict(), "violations": violations,
            "inconclusive": inconclusive, "witnesses": witnesses}


def _plain(core, m, v):
    import z3
    from . import values
    if isinstance(v, values.Sym) and hasattr(v, "e"):
        x = core.num_of(m.eval(v.e, model_completion=True))
        from fractions import Fraction
        return float(x) if isinstance(x, Fraction) else x
    if isinstance(v, (list, tuple)):
        return [_plain(core, m, x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(core, m, x) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)):
        from .strings import has_sym, is_sym_char, digit_expr
        if isinstance(v, str) and has_sym(v):
            out = []
            for c in v:
                if is_sym_char(c):
                    out.append("0123456789ABCDEF"[core.num_of(
                        m.eval(digit_expr(c), model_completion=True))])
                else:
                    out.append(c)
            return "".join(out)
        return v
    if hasattr(v, "item") and getattr(v, "shape", None) == ():
        return _plain(core, m, v.item())
    return repr(type(v).__name__)


def _witness(core, ex):
    prev, core.EX = core.EX, ex
    try:
        m = ex.nice_model([])
        if m is None and not ex.recip:
            m = ex.get_model()
        if m is None:
            return None
        return {"values": ex.values_of(m),
                "observed": [_plain(core, m, v) for v in ex.observed]}
    finally:
        core.EX = prev


# ---------------------------------------------------------------- coverage
class Coverage:
    TOOL = 3

    def __init__(self):
        self.new = set()

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "symx")
        except ValueError:
            return
        root = os.path.join(REPO, "pysim")

        def on_start(code, off):
            if code.co_filename.startswith(root):
                self.new.add(f"{os.path.relpath(code.co_filename, REPO)}:{code.co_qualname}")
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.PY_START, on_start)
        mon.set_events(self.TOOL, mon.events.PY_START)

    def drain(self):
        out, self.new = sorted(self.new), set()
        return out


# ---------------------------------------------------------------- concrete replay
def _concrete(sc, values, stop=True):
    """Run the harness on plain values against the real code (environment stubs only)."""
    from . import core, env
    ctx = core.ConcCtx(values, stop_at_failure=stop)
    res = {"failed": None, "observed": [], "labels": {}, "error": None}
    try:
        with env.run_env(ctx):
            sc.fn(ctx)
    except core.AssumptionFailed:
        res["error"] = "assumption"
    except core.CheckFailed as e:
        res["failed"] = {"label": e.label, "detail": str(e.detail)[:1500]}
    except core.Control as e:
        res["error"] = f"{type(e).__name__}: {e}"
    except _Alarm:
        res["failed"] = {"label": "terminates", "detail": "the run did not end in time"}
    except (KeyboardInterrupt, SystemExit) as e:
        res["error"] = repr(e)
    except BaseException as e:
        frames = traceback.extract_tb(e.__traceback__)
        inside = [f for f in frames if f.filename.startswith(os.path.join(REPO, "pysim"))]
        last = frames[-1] if frames else None
        own = last is not None and (os.path.join(VERIF, "harness") in last.filename)
        det = f"{type(e).__name__}: {str(e)[:300]}"
        if inside:
            det += f" at {os.path.relpath(inside[-1].filename, REPO)}:{inside[-1].lineno}" \
                   f" in {inside[-1].name}"
        if own or not inside:
            res["error"] = "harness error: " + det + (
                f" ({last.filename}:{last.lineno})" if last else "")
            res["trace"] = "".join(traceback.format_exception(e))
        else:
            res["failed"] = {"label": "no-unexpected-exception", "detail": det}
    res["labels"] = ctx.labels
    res["observed"] = [_conc_plain(v) for v in ctx.observed]
    res["missing"] = ctx.missing
    return res


def _conc_plain(v):
    if isinstance(v, (list, tuple)):
        return [_conc_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _conc_plain(x) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if hasattr(v, "item") and getattr(v, "shape", None) == ():
        return _conc_plain(v.item())
    return repr(type(v).__name__)


def concrete_batch(sc, jobs, timeout):
    """Run several concrete replays in one fresh process; a list of results."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            from . import env
            _quiet()
            scratch = tempfile.mkdtemp(prefix="symx_")
            os.chdir(scratch)
            env.install(symbolic=False)

            def on_alarm(sig, frm):
                raise _Alarm()
            signal.signal(signal.SIGALRM, on_alarm)
            for vals in jobs:
                signal.setitimer(signal.ITIMER_REAL, timeout)
                try:
                    res = _concrete(sc, vals)
                except _Alarm:
                    res = {"failed": {"label": "terminates",
                                      "detail": "the run did not end in time"},
                           "observed": [], "labels": {}, "error": None}
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                _send(w, res)
        except BaseException:
            traceback.print_exc()
        finally:
            import shutil
            with contextlib.suppress(BaseException):
                shutil.rmtree(scratch, ignore_errors=True)
            os._exit(0)
    os.close(w)
    out = []
    deadline = time.time() + timeout * len(jobs) + 30
    try:
        for _ in jobs:
            left = deadline - time.time()
            rd, _, _ = select.select([r], [], [], max(left, 0))
            if not rd:
                out.append({"failed": None, "error": "replay process timed out",
                            "observed": [], "labels": {}})
                break
            try:
                out.append(_recv(r))
            except EOFError:
                out.append({"failed": None, "error": "replay process died",
                            "observed": [], "labels": {}})
                break
    finally:
        with contextlib.suppress(ProcessLookupError):
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
    return out


def _same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)) or a == b
    return a == b


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


# ---------------------------------------------------------------- main
def run_check(pid, tier, seed=1, only=None, budget=None):
    mod = load(pid)
    scenarios = [s for s in mod.scenarios(tier) if only is None or s.name in only]
    for s in list(scenarios):
        if s.narrow is not None:
            s.narrow.stands_for = s
            scenarios.append(s.narrow)
    budget = budget or (600 if tier == "quick" else 7200)
    t_start = time.time()
    report = _run(mod, pid, scenarios, tier, seed, t_start, budget)
    return report


def _run(mod, pid, scenarios, tier, seed, t_start, budget):
    global SCRATCH
    from . import core
    SCRATCH = tempfile.mkdtemp(prefix="symx_")
    known = known_findings(pid)
    workers = []
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(NPROC):
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        wpid = os.fork()
        if wpid == 0:
            os.close(a_w)
            os.close(b_r)
            for w in workers:
                os.close(w["out"])
                os.close(w["in"])
            try:
                _worker(mod, scenarios, a_r, b_w, tier)
            except BaseException:
                traceback.print_exc()
            os._exit(1)
        os.close(a_r)
        os.close(b_w)
        workers.append({"pid": wpid, "out": a_w, "in": b_r, "busy": None})

    stacks = [[[]] if s.stands_for is None else [] for s in scenarios]
    running = [0] * len(scenarios)
    stats = [core.Stats() for _ in scenarios]
    wit = [[] for _ in scenarios]
    viol = [[] for _ in scenarios]
    inconc = [[] for _ in scenarios]
    functions = set()
    confirmed, unrepro, knownhits = [], [], []
    tried = {}
    stop = False
    died = None
    wall = [0.0] * len(scenarios)
    order = list(range(len(scenarios)))

    def dispatch():
        idle = [w for w in workers if w["busy"] is None]
        for w in idle:
            cand = [i for i in order if stacks[i]]
            if not cand:
                return
            # scenarios with the fewest running workers first
            i = min(cand, key=lambda j: (running[j], len(stacks[j])))
            st = stacks[i]
            n = max(1, min(64, len(st) // (2 * len(idle) + 1)))
            take = [st.pop(0) for _ in range(n)]
            b = 0.15 if len(st) < NPROC else 1.0
            w["busy"] = i
            w["t"] = time.time()
            running[i] += 1
            _send(w["out"], (i, take, b))

    def narrow():
        for i, s in enumerate(scenarios):
            if s.narrow is not None and not s.narrowed and (stacks[i] or running[i]) and \
                    time.time() - t_start > s.narrow_s:
                s.narrowed = True
                stacks[i] = []
                stacks[scenarios.index(s.narrow)] = [[]]
                inconc[i] = []
                unrepro[:] = [u for u in unrepro if u[0] != i]

    try:
        while not stop:
            narrow()
            dispatch()
            busy = [w for w in workers if w["busy"] is not None]
            if not busy:
                break
            if time.time() - t_start > budget:
                for i, s in enumerate(scenarios):
                    if stacks[i] or running[i]:
                        inconc[i].append({"msg": f"time budget of {budget:.0f} s used up with "
                                                 f"{len(stacks[i])} open branches"})
                break
            rd, _, _ = select.select([w["in"] for w in busy], [], [], 1.0)
            for w in busy:
                if w["in"] not in rd:
                    continue
                try:
                    res = _recv(w["in"])
                except EOFError:
                    died = f"worker died in scenario {scenarios[w['busy']].name}"
                    inconc[w["busy"]].append({"msg": died})
                    running[w["busy"]] -= 1
                    workers.remove(w)
                    os.close(w["in"])
                    os.close(w["out"])
                    with contextlib.suppress(ChildProcessError):
                        os.waitpid(w["pid"], 0)
                    continue
                i = res["sid"]
                sc = scenarios[i]
                wall[i] += time.time() - w["t"]
                w["busy"] = None
                running[i] -= 1
                stats[i].merge(res["stats"])
                functions.update(res["functions"])
                stacks[i].extend([] if sc.narrowed else res["leftover"])
                if len(wit[i]) < sc.witness * (1 if tier == "quick" else 4):
                    wit[i].extend(res["witnesses"])
                if sc.narrowed:
                    res["inconclusive"] = []
                inconc[i].extend(res["inconclusive"])
                for m in res["inconclusive"]:
                    if "values" in m and "PathLimit" in m["msg"]:
                        res["violations"].append({"label": "terminates", "detail": m["msg"],
                                                  "values": m["values"], "crash": False})
                for v in res["violations"]:
                    viol[i].append(v)
                    k = (i, v["label"])
                    if tried.get(k, 0) >= 6:
                        continue
                    tried[k] = tried.get(k, 0) + 1
                    jobs = [v["values"]] + v.get("alts", [])
                    ok = None
                    for vals, r in zip(jobs, concrete_batch(sc, jobs, sc.replay_s)):
                        if r["failed"]:
                            ok = (vals, r)
                            break
                    if ok is None:
                        if not sc.narrowed:
                            unrepro.append((i, v, r))
                        continue
                    vals, r = ok
                    kf = _match_known(known, sc, r["failed"])
                    if kf is not None:
                        if kf["id"] not in [x["id"] for x in knownhits]:
                            knownhits.append(kf)
                        continue
                    confirmed.append((i, r["failed"], vals))
                    stop = True
                    break
                if stop:
                    break
                # a scenario that keeps failing without reproducing is not worth finishing
                bad = len(inconc[i]) + sum(1 for u in unrepro if u[0] == i)
                if bad > 30 and bad > 0.2 * stats[i].paths:
                    stacks[i] = []
    finally:
        for w in workers:
            with contextlib.suppress(ProcessLookupError):
                os.kill(w["pid"], signal.SIGKILL)
        for w in workers:
            with contextlib.suppress(ChildProcessError):
                os.waitpid(w["pid"], 0)
            os.close(w["in"])
            os.close(w["out"])
        import shutil
        shutil.rmtree(SCRATCH, ignore_errors=True)

    # paths the solver could not finish: their own inputs, on the real code
    if not confirmed:
        for i, sc in enumerate(scenarios):
            jobs = [v for m in inconc[i] if "values" in m
                    for v in [m["values"]] + m.get("alts", [])][:48]
            if not jobs or confirmed:
                continue
            for vals, r in zip(jobs, concrete_batch(sc, jobs, sc.replay_s)):
                if r["failed"] and _match_known(known, sc, r["failed"]) is None:
                    confirmed.append((i, r["failed"], vals))
                    break

    # validate the encoding: sampled paths re-run on the real code
    validated = diverged = 0
    div_msgs = []
    if not confirmed:
        for i, sc in enumerate(scenarios):
            ws = wit[i][:sc.witness * (1 if tier == "quick" else 4)]
            if not ws:
                continue
            rs = concrete_batch(sc, [w["values"] for w in ws], sc.replay_s)
            for w, r in zip(ws, rs):
                if r["failed"]:
                    kf = _match_known(known, sc, r["failed"])
                    if kf is not None:
                        continue
                    diverged += 1
                    div_msgs.append(f"{sc.name}: a path the solver passed fails on the real "
                                    f"code: {r['failed']} with {w['values']}")
                    confirmed.append((i, r["failed"], w["values"]))
                elif r["error"]:
                    if r["error"] != "assumption":
                        diverged += 1
                        div_msgs.append(f"{sc.name}: {r['error']} with {w['values']}")
                elif not _same(w["observed"], r["observed"]):
                    diverged += 1
                    div_msgs.append(f"{sc.name}: observed {w['observed']} in the encoding, "
                                    f"{r['observed']} on the real code, {w['values']}")
                else:
                    validated += 1

    total = core.Stats()
    for s in stats:
        total.merge(s.as_dict())
    missing = []
    if not confirmed:
        for i, sc in enumerate(scenarios):
            if sc.narrowed or sc.stands_for is not None and not sc.stands_for.narrowed:
                continue
            for lab in sc.reach:
                if not stats[i].labels.get(lab):
                    missing.append(f"{sc.name}: check '{lab}' was never reached")
    problems = []
    for i, sc in enumerate(scenarios):
        for m in inconc[i][:5]:
            problems.append(f"{sc.name}: {m['msg']}")
    for i, v, r in unrepro[:5]:
        problems.append(f"{scenarios[i].name}: counterexample for '{v['label']}' "
                        f"({v['detail']}) did not reproduce on the real code "
                        f"({r.get('error')}); values {v['values']}")
    problems += missing
    # no answer only when a scenario was left mostly undecided
    noanswer = list(missing)
    for i, sc in enumerate(scenarios):
        bad = len(inconc[i]) + sum(1 for u in unrepro if u[0] == i)
        if bad and bad > 0.2 * (stats[i].paths + 1):
            noanswer.append(f"{sc.name}: {bad} undecided of {stats[i].paths} paths")
    # a finding listed as known must still be there, else the list is stale (not an error)
    wall_s = time.time() - t_start
    samples = []
    for i, sc in enumerate(scenarios):
        if wit[i]:
            samples.append({"scenario": sc.name, "inputs": wit[i][0]["values"],
                            "observed": wit[i][0]["observed"]})
    cov = {
        "states": total.paths,
        "transitions": total.decisions,
        "traces_validated_against_impl": validated,
        "samples": samples[:6] or [{"note": "no path completed"}],
        "exhaustive": not problems and not confirmed,
        "paths_pruned": total.pruned,
        "forks": total.forks,
        "checks_evaluated": total.checks,
        "obligations_decided": total.obligations,
        "solver_queries": total.queries,
        "solver_sat": total.sat,
        "solver_unsat": total.unsat,
        "solver_unknown": total.unknown,
        "solver_seconds": round(total.solver_s, 3),
        "functions_encoded": sorted(functions),
        "scenarios": {sc.name: {"bounds": sc.bounds, "paths": stats[i].paths,
                                "decisions": stats[i].decisions,
                                "queries": stats[i].queries,
                                "worker_seconds": round(wall[i], 2),
                                "labels": stats[i].labels,
                                **({"given_up_for": sc.narrow.name} if sc.narrowed else {})}
                      for i, sc in enumerate(scenarios)
                      if sc.stands_for is None or sc.stands_for.narrowed},
        "bounds": list(getattr(mod, "BOUNDS", [])),
        "outside_the_bounds": list(getattr(mod, "OUTSIDE", [])),
        "traces_diverged": diverged,
        "known_findings": [k["id"] for k in knownhits],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": list(getattr(mod, "ASSUME", [])),
          "wall_s": round(wall_s, 3), "violations": len(confirmed)}
    return {"evidence": ev, "confirmed": confirmed, "problems": problems,
            "diverged": div_msgs, "scenarios": scenarios, "known": knownhits,
            "noanswer": noanswer}


def _match_known(known, sc, failed):
    for k in known:
        m = k.get("match")
        if not m:
            continue
        if m.get("scenario") == sc.name and m.get("label") == failed["label"] \
                and m.get("detail", "") in failed["detail"]:
            return k
    return None


def _safe(o):
    import fractions
    if isinstance(o, fractions.Fraction):
        return [o.numerator, o.denominator]
    return str(o)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scenario", action="append")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        return replay(pid, a.replay)
    rep = run_check(pid, a.tier, seed, a.scenario, a.budget)
    ev = rep["evidence"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.no_evidence and not a.scenario:
        tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=_safe, ensure_ascii=False)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    c = ev["coverage"]
    for k in rep["known"]:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for m in rep["diverged"][:5]:
        print("note: encoding and code differ:", m[:800], file=sys.stderr)
    print(f"{pid} {ev['tier']}: {c['states']} paths, {c['transitions']} decisions, "
          f"{c['solver_queries']} queries ({c['solver_seconds']} s solver), "
          f"{c['obligations_decided']} obligations, "
          f"{c['traces_validated_against_impl']} traces validated, {ev['wall_s']} s")
    if rep["confirmed"]:
        for i, failed, vals in rep["confirmed"]:
            sc = rep["scenarios"][i]
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            body = {"property": pid, "scenario": sc.name, "tier": ev["tier"],
                    "failed": failed, "values": vals}
            txt = json.dumps(body, indent=1, default=_safe, ensure_ascii=False)
            h = hashlib.sha1(txt.encode()).hexdigest()[:10]
            path = os.path.join(d, f"{pid}-{h}.json")
            with open(path, "w") as f:
                f.write(txt)
            print(f"  scenario {sc.name}: {failed['label']}: {failed['detail'][:600]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    for m in rep["problems"]:
        print("undecided:", m[:1500], file=sys.stderr)
    if rep["noanswer"]:
        for m in rep["noanswer"]:
            print("no answer:", m[:1500], file=sys.stderr)
        return 2
    return 0


def replay(pid, path):
    mod = load(pid)
    with open(path) as f:
        body = json.load(f)
    scs = {s.name: s for t in ("quick", "thorough") for s in mod.scenarios(t)}
    scs.update({s.narrow.name: s.narrow for s in list(scs.values()) if s.narrow is not None})
    sc = scs[body["scenario"]]
    r = concrete_batch(sc, [body["values"]], sc.replay_s)[0]
    print(json.dumps({"failed": r["failed"], "error": r["error"],
                      "observed": r["observed"]}, indent=1, default=_safe))
    if r["failed"]:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0 if not r["error"] else 2
