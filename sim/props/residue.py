"""P07: nothing is left behind by requests that have ended."""
import asyncio
import collections
import contextvars
import functools
import logging
import sys
import types
import weakref

from .. import core
from . import ASSUME, REAL_ALL, STUB
from . import flow
from .appkit import gen_link

KINDS = ("stall", "short", "block", "noise", "noise", "hang")
LOSSES = ("unplug", "away", "drop", "openfail")
IDLE = 70.0
SLACK = 2        # the driver may remember its last few (a reconnection, say)


ATOMS = (str, bytes, bytearray, int, float, bool, type(None), type, types.ModuleType,
         types.BuiltinFunctionType, weakref.ref, logging.Logger, contextvars.Context)


def parts(o):
    """What an object holds, as the language sees it."""
    t = type(o)
    if isinstance(o, dict):
        yield from o.keys()
        yield from o.values()
    elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
        yield from o
    elif t is types.FunctionType:
        for c in o.__closure__ or ():
            try:
                yield c.cell_contents
            except ValueError:
                pass
        yield from o.__defaults__ or ()
    elif t is types.MethodType:
        yield o.__self__
        yield o.__func__
    elif t is types.CoroutineType:
        if o.cr_frame is not None:
            yield from o.cr_frame.f_locals.values()
        yield o.cr_await
    elif t is types.GeneratorType:
        if o.gi_frame is not None:
            yield from o.gi_frame.f_locals.values()
        yield o.gi_yieldfrom
    elif t is functools.partial:
        yield o.func
        yield o.args
        yield o.keywords
    if isinstance(o, BaseException):
        yield o.args
    d = getattr(o, "__dict__", None)
    if type(d) is dict:
        yield from d.values()
    for k in t.__mro__:
        slots = k.__dict__.get("__slots__", ())
        for name in (slots,) if isinstance(slots, str) else slots:
            if name not in ("__dict__", "__weakref__"):
                try:
                    yield getattr(o, name)
                except AttributeError:
                    pass


def reachable(*roots):
    """Futures (and tasks) that can still be reached from there."""
    seen, out = set(), []
    stack = list(roots)
    keep = []
    while stack:
        o = stack.pop()
        if isinstance(o, ATOMS) or id(o) in seen:
            continue
        mod = o.__module__ if type(o) is types.FunctionType else type(o).__module__
        if str(mod).startswith("sim.") and not isinstance(o, core.SimLoop):
            continue
        seen.add(id(o))
        if isinstance(o, asyncio.Future):
            out.append(o)
        if isinstance(o, core.SimLoop):
            inner = [o._ready, o._scheduled, list(o._readers.values()),
                     list(o._writers.values())]
        else:
            inner = list(parts(o))
        keep.append(inner)        # keeps the ids unique while we look
        stack += inner
    return out


def kept(f):
    mods = [vars(m) for n, m in sorted(sys.modules.items())
            if n == "zigpy_cc" or n.startswith("zigpy_cc.")]
    return reachable(f.app, f.h.loop, *mods)


class P07:
    id = "P07"
    RUNS = {"quick": 4000, "thorough": 120000}
    REAL, STUB, SIMPLE = REAL_ALL, STUB, flow.SIMPLE
    ASSUME = ASSUME + ["a wait is kept if its future can be reached from the application, the modules of the "
                       "driver or the event loop"]
    RULE = ("Seeded: 4 to 40 sends of all kinds with refusals, lost, late and hanging answers, "
            "lost confirmations and device replies, cancellations, unsolicited traffic; "
            "connection losses and restarts of the driver in part of the runs; then 70 idle "
            "seconds; then sends again. Non-trivial: some of them failed.")

    def gen(self, r, tier, i):
        n = r.choice((4, 10, 24, 40))
        kinds = r.choice((flow.SENDS_ALL, ("af",), tuple(flow.KINDS), ("group", "bcast", "ncp")))
        ops = flow.gen_sends(r, n, kinds, r.choice((0.0, 0.02, 0.3)), devices=3,
                             cancels=r.choice((0.0, 0.2, 0.5)), plain=0.15)
        top = max([o["t"] for o in ops] or [0]) + 2
        evs = flow.gen_faults(r, KINDS + LOSSES if r.random() < 0.35 else KINDS, top)
        return {"cfg": dict(gen_link(r), form=r.random() < 0.2, lose=r.choice((0, 0, 0.3, 1.0)),
                            restart=r.random() < 0.2, shutdown=r.random() < 0.15,
                            again=r.choice((3, 20, 60))),
                "ops": ops, "events": evs}

    def execute(self, run):
        plan, w = run.plan, run.world
        cfg = plan["cfg"]
        f = flow.Flow(run, devices=3)
        h, d, app = f.h, f.d, f.app
        d.lose_confirm = cfg["lose"]
        if not f.begin([], form=cfg["form"]):
            return
        h.run_until(w.now + IDLE)
        self.forget(f)
        base = kept(f)
        base_alive, base_pending = len(base), sum(1 for x in base if not x.done())
        del base
        base_timers, base_tasks = self.standing(h)
        f.t0 = w.now
        f.faults.events = plan["events"]
        f.faults.armed = []
        f.ops = {op["i"]: op for op in plan["ops"]}
        for op in plan["ops"]:
            f.by_key[flow.wire_key(op)] = op
            f._schedule(op)
        for ev in plan["events"]:
            if ev.get("on"):
                f.faults.base_frames = len(d.wire)
                f.faults.armed.append(ev)
            else:
                w.at(f.t0 + ev["t"], f.faults.fire, ev)
        f.finish()
        last = max([ev["t"] for ev in plan["events"] if "t" in ev] or [0])
        h.run_until(max(w.now, f.t0 + last + 0.1))
        f.faults.armed = []
        h.run_until(max(w.now, w.now + 0.5, f.faults.quiet_at))
        for i, rec in f.recs.items():
            run.check(rec.done, "no-end", lambda: "%s (op %d) never ended" % (rec.op["k"], i))
            run.nontrivial |= rec.exc is not None
        if f.faults.losses:
            end = max(w.now, f.faults.quiet_at) + 180
            while w.now < end and not self.recovered(d):
                h.run_until(w.now + 1)
            if not run.check(self.recovered(d), "unrecovered",
                             "the connection was not recovered"):
                return
        w.ports.fail_opens.clear()
        if cfg["restart"]:
            h.run_call({"k": "shutdown"}, lambda rec: app.shutdown(), 10)
            h.run_until(w.now + 1)
            if not run.check(f.startup(cfg["form"], limit=200).ok, "restart",
                             "the driver could not be started again"):
                return
        if cfg["shutdown"]:
            h.run_call({"k": "shutdown"}, lambda rec: app.shutdown(), 10)
            base_timers = base_tasks = 0
        h.run_until(w.now + IDLE)
        run.check(not w.loop_errors, "loop-error", lambda: "an error reached the event loop: "
                  "%s" % (w.loop_errors[:2],))
        timers, tasks = self.standing(h)
        run.check(timers <= base_timers, "timer", lambda: "%d timers are left (%d before): %s" % (
            timers, base_timers, [round(x._when, 3) for x in h.loop.live_timers()][:5]))
        run.check(tasks <= base_tasks, "task", lambda: "%d tasks are left (%d before): %s" % (
            tasks, base_tasks, [self.name(t) for t in h.loop.live_tasks()][:5]))
        failed = [(i, rec.outcome()) for i, rec in f.recs.items() if not rec.ok]
        self.forget(f)
        left = kept(f)
        new = len(left) - base_alive
        pending = sum(1 for x in left if not x.done())
        run.check(new <= SLACK and pending <= base_pending, "kept", lambda: "%d futures are still kept (%d pending), %d before; "
                  "calls that failed: %s" % (len(left), pending, base_alive, failed[:8]))
        w.probes["kept:%d" % new] += 1
        if cfg["shutdown"]:
            return
        del left
        # -- still of service
        d.directive = None
        d.lose_confirm = 0.0
        f.watching = False
        more = flow.gen_sends(core.rng_for(plan["seed"], "again"), cfg["again"], ("af", "bcast"),
                              0.05, devices=3, cancels=0, tries=0, plain=1.0)
        f.ops, f.recs = {}, {}
        f.t0 = w.now
        for op in more:
            f.ops[op["i"]] = op
            f._schedule(op)
        h.run_until(w.now + 3 + 0.05 * len(more) + 0.35 * len(more))
        for i, rec in f.recs.items():
            run.check(rec.ok and rec.res[0] == 0, "service", lambda: "after all that, %s (op %d) "
                      "ended with %s (%r)" % (rec.op["k"], i, rec.outcome(), rec.exc or rec.res))
        run.check(len(f.recs) == len(more), "service", "the loop stopped serving calls")

    @staticmethod
    def recovered(d):
        conn = d.conn
        if conn is None:
            return False
        return any(rec.get("kind") == "srsp" and rec["conn"] is conn and rec["read"] is not None
                   and rec["req"].name == "getDeviceInfo" for rec in d.sent)

    @staticmethod
    def name(task):
        return getattr(task.get_coro(), "__qualname__", "?")

    @staticmethod
    def standing(h):
        return len(h.loop.live_timers()), len(h.loop.live_tasks())

    @staticmethod
    def forget(f):
        """Let go of what this harness itself keeps alive."""
        for rec in f.h.recs:
            rec.task = rec.exc = rec.res = None
            rec.then = []
        f.h.recs.clear()
        f.h.loop.tasks = f.h.loop.live_tasks()


PROPS = {"P07": P07()}
