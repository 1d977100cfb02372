"""Seeded batches, minimisation, replay and evidence."""
import copy
import gc
import json
import os
import random
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 60.0


class Result:
    def __init__(self):
        self.violations = []     # (class, message)
        self.digest = None
        self.stats = {}
        self.fired = Counter()
        self.probes = Counter()
        self.sim_time = 0.0
        self.sig = None
        self.trivial = True
        self.evals = 0
        self.tail = []


class Run:
    """What a property's execute() gets: the world, and a place for verdicts."""

    def __init__(self, plan):
        self.plan = plan
        self.world = core.World()
        self.violations = []
        self.evals = 0          # checks actually made (an oracle had something to judge)
        self.nontrivial = False

    def fail(self, cls, msg):
        self.violations.append((cls, msg))

    def check(self, cond, cls, msg):
        self.evals += 1
        if not cond:
            self.fail(cls, msg() if callable(msg) else msg)
        return cond


def run_plan(prop, plan):
    """Execute one plan deterministically."""
    plan = copy.deepcopy(plan)
    run = Run(plan)
    res = Result()
    world = run.world
    random.seed(plan.get("seed", 0))
    core.logging_mode(bool(plan.get("debug_log")))
    core.install(world)
    t0 = world.now
    try:
        with core.Watchdog(CPU_LIMIT):
            try:
                prop.execute(run)
            except core.SimLimit as e:
                run.fail("livelock", "the host never comes to rest: %s" % e)
            except core.CpuHang as e:
                run.fail("cpu-hang", str(e))
            except core.SimQuiescent as e:
                run.fail("deadlock", str(e))
            except Exception as e:
                # the driver made the scenario itself impossible (a device it forgot, a
                # call it refused ...): reported with the place where it showed
                where = traceback.extract_tb(e.__traceback__)[-1]
                run.fail("exception", "%r at %s:%s" % (
                    e, os.path.basename(where.filename), where.name))
        res.sim_time = world.now - t0
        for v in run.violations:
            world.log("violation", *v)
        res.digest = world.digest()
        res.tail = [list(map(str, x)) for x in world.trace[-400:]]
        res.sig = hash_sig(world)
    finally:
        try:
            core.teardown(world)
        finally:
            core.uninstall()
            core.logging_mode(False)
    res.violations = run.violations
    res.fired = world.fired
    res.probes = world.probes
    res.trivial = not run.nontrivial
    res.evals = run.evals
    return res


def hash_sig(world):
    """The interleaving of a run: the order of its external events, without times."""
    import hashlib
    h = hashlib.sha256()
    for item in world.trace:
        h.update(repr(item[1:]).encode())
    return h.hexdigest()[:16]


# ---------------------------------------------------------------------------
def plan_for(prop, seed, index, tier):
    r = core.rng_for("plan", prop.id, seed, index)
    plan = prop.gen(r, tier, index)
    plan.setdefault("seed", r.getrandbits(32))
    plan["property"] = prop.id
    if "debug_log" not in plan and r.random() < 0.15:
        plan["debug_log"] = True
    return json.loads(json.dumps(plan))


def _merge(agg, res, index, plan):
    agg["runs"] += 1
    agg["sim_time"] += res.sim_time
    agg["evals"] += res.evals
    for k, v in res.fired.items():
        agg["fired"][k] = agg["fired"].get(k, 0) + v
        agg["runs_with"][k] = agg["runs_with"].get(k, 0) + 1
    for k, v in res.probes.items():
        agg["probes"][k] = agg["probes"].get(k, 0) + v
    if not res.trivial:
        agg["sigs"].add(res.sig)
    if res.violations:
        agg["violations"].append([index, res.violations[0][0], res.violations[0][1]])


def new_agg():
    return {"runs": 0, "sim_time": 0.0, "evals": 0, "fired": {}, "runs_with": {},
            "probes": {}, "sigs": set(), "violations": [], "errors": [], "digests": {}}


def run_range(prop, seed, tier, indexes, deadline, agg, known, max_viol=3,
              keep_digest=lambda i: False):
    new = 0
    for n, i in enumerate(indexes):
        if core.REAL_MONO() > deadline:
            agg["cut"] = True
            break
        try:
            plan = plan_for(prop, seed, i, tier)
            res = run_plan(prop, plan)
        except Exception:
            agg["errors"].append([i, traceback.format_exc()])
            if len(agg["errors"]) > 3:
                break
            continue
        res.violations = filter_known(prop, res.violations, known, agg)
        _merge(agg, res, i, plan)
        if keep_digest(i):
            agg["digests"][str(i)] = res.digest
        if res.violations:
            new += 1
            if new >= max_viol:
                break
        if n % 200 == 199:
            gc.collect()


def worker(prop, seed, tier, indexes, deadline, fd, known, keep):
    agg = new_agg()
    try:
        run_range(prop, seed, tier, indexes, deadline, agg, known, keep_digest=keep)
    except BaseException:
        agg["errors"].append([-1, traceback.format_exc()])
    agg["sigs"] = sorted(agg["sigs"])
    data = json.dumps(agg).encode()
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    os._exit(0)


def merge_agg(a, b):
    for k in ("runs", "sim_time", "evals"):
        a[k] += b[k]
    for k in ("fired", "runs_with", "probes"):
        for n, v in b[k].items():
            a[k][n] = a[k].get(n, 0) + v
    a["sigs"] |= set(b["sigs"])
    a["violations"] += b["violations"]
    a["errors"] += b["errors"]
    a["digests"].update(b["digests"])
    for k in b.get("known", {}):
        a.setdefault("known", {})
        a["known"][k] = a["known"].get(k, 0) + b["known"][k]
    if b.get("cut"):
        a["cut"] = True


def batch(prop, seed, tier, total, wall, workers, known, start=0, keep=lambda i: False):
    """Run indexes start..start+total-1 over forked workers."""
    t_start = core.REAL_MONO()
    deadline = t_start + wall
    agg = new_agg()
    warm = list(range(start, start + min(6, total)))
    run_range(prop, seed, tier, warm, deadline, agg, known, keep_digest=keep)
    rest = range(start + len(warm), start + total)
    procs = []
    gc.collect()
    sys.stdout.flush()
    for w in range(workers):
        idx = rest[w::workers]
        if not len(idx):
            continue
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            worker(prop, seed, tier, idx, deadline, wfd, known, keep)
        os.close(wfd)
        procs.append((pid, rfd))
    for pid, rfd in procs:
        with os.fdopen(rfd, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status != 0 or not data:
            agg["errors"].append([-1, "worker died with status %d" % status])
            continue
        merge_agg(agg, json.loads(data))
    agg["wall"] = core.REAL_MONO() - t_start
    agg["violations"].sort(key=lambda v: v[0])
    return agg


# ---------------------------------------------------------------------------
# minimisation
# ---------------------------------------------------------------------------
def shrink(prop, plan, cls, budget=60.0, max_runs=600):
    deadline = core.REAL_MONO() + budget
    runs = [0]

    def fails(p):
        if core.REAL_MONO() > deadline or runs[0] >= max_runs:
            return False
        runs[0] += 1
        try:
            res = run_plan(prop, p)
        except Exception:
            return False
        return any(c == cls for c, _ in res.violations)

    lists = [k for k, v in plan.items() if isinstance(v, list)]
    changed = True
    while changed and core.REAL_MONO() < deadline and runs[0] < max_runs:
        changed = False
        for key in lists:
            n = 2
            while plan[key]:
                size = max(1, len(plan[key]) // n)
                hit = False
                for i in range(0, len(plan[key]), size):
                    cand = dict(plan)
                    cand[key] = plan[key][:i] + plan[key][i + size:]
                    if fails(cand):
                        plan, hit, changed = cand, True, True
                        break
                if not hit:
                    if size == 1:
                        break
                    n = min(len(plan[key]), n * 2)
        simple = getattr(prop, "SIMPLE", {})
        for k, v in simple.items():
            if k in plan.get("cfg", {}) and plan["cfg"][k] != v:
                cand = copy.deepcopy(plan)
                cand["cfg"][k] = v
                if fails(cand):
                    plan, changed = cand, True
        if plan.get("debug_log"):
            cand = dict(plan)
            cand["debug_log"] = False
            if fails(cand):
                plan, changed = cand, True
    return plan, runs[0]


# ---------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------
def load_known(pid):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = dict(p.split("=", 1) for p in line[8:].split(" | ")[0].split()
                             if "=" in p)
                if parts.get("property") == pid:
                    out.append({"class": parts.get("class"),
                                "text": line.split(" | ", 1)[1] if " | " in line else ""})
    return out


def filter_known(prop, violations, known, agg):
    if not known or not violations:
        return violations
    out = []
    for c, m in violations:
        hit = next((k for k in known if k["class"] == c), None)
        if hit:
            agg.setdefault("known", {})
            agg["known"][c] = agg["known"].get(c, 0) + 1
        else:
            out.append((c, m))
    return out


# ---------------------------------------------------------------------------
def replay_file(prop, path, quiet=False):
    doc = json.load(open(path))
    res = run_plan(prop, doc["plan"])
    same = any(c == doc["violation"]["class"] for c, _ in res.violations)
    exact = same and res.digest == doc["digest"]
    if not quiet:
        print("replay of %s: seed=%s run=%s" % (path, doc["verif_seed"], doc["run"]))
        for c, m in res.violations:
            print("  %s: %s" % (c, m))
        print("  same violation: %s, identical event log: %s" % (same, exact))
    return same, exact, res


def main(prop, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--show", type=int, help="run one index and print its plan and trace")
    ap.add_argument("--digests", action="store_true", help="print digests of all runs")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"

    if args.replay:
        same, exact, _ = replay_file(prop, args.replay)
        if same:
            print("VIOLATION property=%s replay=%s" % (prop.id, args.replay))
            return 1
        return 0
    if args.show is not None:
        plan = plan_for(prop, args.seed, args.show, tier)
        print(json.dumps(plan))
        res = run_plan(prop, plan)
        for t in res.tail:
            print(" ".join(t))
        print(res.violations, dict(res.fired), dict(res.probes), res.evals, res.trivial)
        return 0

    workers = args.workers or min(8, os.cpu_count() or 1)
    total = args.runs or prop.RUNS[tier]
    wall = prop.WALL.get(tier, 600) if hasattr(prop, "WALL") else (
        420 if tier == "quick" else 5400)
    known = load_known(prop.id)
    print("property=%s tier=%s VERIF_SEED=%d runs=%d workers=%d" % (
        prop.id, tier, args.seed, total, workers), flush=True)
    keep = (lambda i: True) if args.digests else (lambda i: i % 97 == 3)
    agg = batch(prop, args.seed, tier, total, wall, workers, known, args.start, keep)
    if args.digests:
        for i in sorted(agg["digests"], key=int):
            print("DIGEST", i, agg["digests"][i])
    # determinism spot check: the same runs again, in this process
    mismatch = 0
    rechecked = 0
    for i in sorted(agg["digests"], key=int)[:12]:
        try:
            r = run_plan(prop, plan_for(prop, args.seed, int(i), tier))
            rechecked += 1
            if r.digest != agg["digests"][i]:
                mismatch += 1
        except Exception:
            pass
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop.id, k["text"]))
    status = 0
    viol = agg["violations"]
    if viol:
        status = 1
        index, cls, msg = viol[0]
        plan = plan_for(prop, args.seed, index, tier)
        small, nruns = shrink(prop, plan, cls)
        res = run_plan(prop, small)
        vs = [m for c, m in res.violations if c == cls]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (prop.id, args.seed, index))
        with open(path, "w") as f:
            json.dump({"property": prop.id, "verif_seed": args.seed, "run": index,
                       "tier": tier,
                       "violation": {"class": cls, "message": vs[0] if vs else msg},
                       "digest": res.digest, "shrink_runs": nruns, "plan": small,
                       "trace": res.tail}, f, indent=1)
        print("violation class=%s run=%d seed=%d: %s" % (cls, index, args.seed,
                                                       vs[0] if vs else msg))
        print("  %d violating run(s); minimised in %d runs; ops=%s" % (
            len(viol), nruns, {k: len(v) for k, v in small.items() if isinstance(v, list)}))
        try:
            out = subprocess.run(
                [sys.executable, os.path.join(VERIF, "check.py"), "--property", prop.id,
                 "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                timeout=120).stdout.decode()
            print("  fresh-process replay: %s" % (
                "identical" if "identical event log: True" in out
                else "same violation" if "same violation: True" in out
                else "NOT reproduced"))
        except Exception as e:
            print("  fresh-process replay failed: %r" % e)
        print("VIOLATION property=%s replay=%s" % (prop.id, path), flush=True)
    if agg["errors"]:
        print("%d harness error(s); the first:\n%s" % (
            len(agg["errors"]), agg["errors"][0][1]), file=sys.stderr)
        if not viol:
            status = 2
    if not viol and agg["runs"] < total * 0.3:
        print("only %d of %d runs done in the time allowed" % (agg["runs"], total),
              file=sys.stderr)
        status = 2
    if not args.no_evidence:
        evidence(prop, args, tier, agg, total, workers, rechecked, mismatch)
    print("runs=%d distinct=%d checks=%d sim=%.0fs wall=%.1fs faults=%s probes=%s" % (
        agg["runs"], len(agg["sigs"]), agg["evals"], agg["sim_time"], agg["wall"],
        agg["fired"], agg["probes"]))
    if mismatch:
        print("warning: %d of %d re-executed runs differ" % (mismatch, rechecked))
    return status


def evidence(prop, args, tier, agg, total, workers, rechecked, mismatch):
    samples = []
    for i in (args.start, args.start + 7):
        try:
            samples.append(plan_for(prop, args.seed, i, tier))
        except Exception:
            pass
    per_h = agg["runs"] / max(agg["wall"], 1e-6) * 3600
    doc = {
        "property": prop.id, "tier": tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["sigs"]),
            "rule": prop.RULE + " Distinct: different order and content of the external "
                    "events of the run (bytes on the serial line, port opens and closes, "
                    "calls, returns, deliveries), times left out.",
            "samples": samples,
            "oracle_checks": agg["evals"],
            "planned_runs": total,
            "simulated_seconds": round(agg["sim_time"], 1),
            "runs_per_hour_each_its_own_seed": round(per_h),
            "simulated_seconds_per_wall_second": round(agg["sim_time"] / max(agg["wall"], 1e-6)),
            "workers": workers,
            "fault_kinds_fired": agg["fired"],
            "runs_in_which_each_fault_fired": agg["runs_with"],
            "rare_conditions_reached": agg["probes"],
            "reexecuted_for_determinism": rechecked,
            "reexecuted_and_different": mismatch,
            "real_components": prop.REAL,
            "stub_components": prop.STUB,
        },
        "assumptions": prop.ASSUME,
        "wall_s": round(agg["wall"], 2),
        "violations": len(agg["violations"]),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop.id + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, default=str)
    os.replace(path + ".tmp", path)
