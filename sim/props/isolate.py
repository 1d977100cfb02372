"""P25: drivers of several adapters in one process do not influence each other.

The same plan for adapter A is executed twice, each time in a freshly forked process: once
with nothing else, once while other drivers and probes in the same event loop do other
things with other adapters. What A's driver did must be the same, to the byte and the
moment."""
import os
import pickle

from .. import core, dongle, host, mt
from . import ASSUME, REAL_ALL, STUB, appkit, flow
from .flow import wire_key
from .startup import EPS, GROUP

PORT_A, PORT_B, PORT_C = "/dev/null", "/dev/zero", "/dev/full"
KINDS = ("drop", "drop", "unplug", "away", "hang", "block", "short", "noise", "openfail")


class Side(flow.Flow):
    """One driver and its adapter, on a loop shared with others."""

    def __init__(self, run, part, url, loop, n):
        w = self.w = run.world
        self.run, self.part, self.n = run, part, n
        cfg = part["cfg"]
        d = self.d = appkit.make_dongle(w, {"seed": part["seed"]}, cfg, url=url,
                                        ieee=bytes([0x10 + n, cfg["product"], 3, 4, 5, 0x4B, 0x12, 0]))
        d.fail_opens = []
        prior = cfg["prior"]
        if prior != "new":
            d.configured(formed=prior != "set")
        if prior == "up":
            d.state = dongle.ST_COORD
            d.eps = dict(EPS)
            d.groups.add(GROUP)
        self.n_devices = 3
        h = self.h = host.AppHost(w, host.app_config(
            path=url, flow=cfg["flow"], baudrate=cfg["baud"], nwk=cfg["net"] or None))
        h.write_first = cfg["write_first"]
        if loop is None:
            h.boot()
        else:
            h.loop = loop
        for i in range(1, 4):
            dev = dongle.Dev(0x1000 + i, appkit.ieee_of(i), man=0x1200 + n)
            dev.latency = 0.03 + 0.011 * n
            d.devs[dev.nwk] = dev
        self.new_app()
        self.recs, self.by_key, self.frames, self.strange = {}, {}, {}, []
        self.ops = {op["i"]: op for op in part["ops"]}
        for op in part["ops"]:
            if op["k"] not in OWN:
                self.by_key[wire_key(op)] = op
        d.directive = self._directive
        d.ota = self._ota
        self.all_apps = []

    def new_app(self):
        self.app = self.h.create()
        for i in range(1, 4):
            self.h.add_device(0x1000 + i, appkit.ieee_of(i))

    def begin(self):
        w = self.w
        self.t0 = w.now
        self.faults = IsoFaults(w, self.d, list(self.part["events"]), lambda: self.h.loop)
        self.faults.start(w.now)
        for op in self.part["ops"]:
            if op["k"] == "report":
                w.at(self.t0 + op["t"], self._report, op)
            else:
                self._schedule(op)

    def _report(self, op):
        dev = 0x1001 + op["src"]
        if op.get("annce"):
            self.d.emit(mt.device_annce(dev, appkit.ieee_of(op["src"] + 1)))
            return
        self.d.emit(mt.incoming_msg(dev, op["sep"], 1, op["cl"], bytes.fromhex(op["data"]),
                                    lqi=op["lqi"]))

    def _do(self, op):
        k = op["k"]
        if k == "start":
            return self.app.startup(op["form"])
        if k == "stop":
            return self.app.shutdown()
        if k == "again":
            return self._again(op)
        return super()._do(op)

    async def _again(self, op):
        """The application is closed and a new one is made in the same process."""
        await self.app.shutdown()
        self.new_app()
        await self.app.startup(op["form"])

    def history(self):
        out = []
        w, d, h = self.w, self.d, self.h
        for fr in d.wire:
            out.append((fr.t, "sent", fr.name, bytes(fr.data).hex()))
        for i, rec in sorted(self.recs.items()):
            out.append((rec.t0, "called", i, rec.op["k"]))
            if rec.done:
                out.append((rec.t1, "ended", i, rec.op["k"], rec.outcome(),
                            repr(rec.res) if rec.exc is None else ""))
        for t, dev, prof, cl, sep, dep, data in h.messages:
            out.append((t, "message", int(dev.nwk), int(prof), int(cl), int(sep), int(dep), data.hex()))
        for t, nwk, ieee in h.joins:
            out.append((t, "join", nwk, ieee.hex()))
        n = 0
        for (t, url, ok), st in zip(w.ports.attempts, w.ports.settings):
            if url == d.url:
                out.append((t, "open", ok, repr(sorted((k, str(v)) for k, v in st.items()))))
        for ser in d.conns:
            n += 1
            out.append((ser.closed_at if ser.closed_at is not None else 9e9, "close", n))
        out.sort(key=lambda x: x[0])
        for ieee, dev in sorted(self.app.devices.items(), key=lambda x: bytes(x[0].serialize())):
            out.append((0, "device", str(ieee), int(dev.nwk), str(dev.status), dev.lqi, dev.rssi,
                        type(dev).__name__, dev.last_seen))
        out.append((0, "version", repr(sorted((k, str(v)) for k, v in self.app.version.items()))))
        out.append((0, "nv", repr(sorted(d.nv.items())), repr(d.nib), sorted(d.eps), sorted(d.groups)))
        out.append((0, "light", repr(d.leds)))
        return out


class IsoFaults(appkit.Faults):
    """Faults of one adapter's line only."""

    def fire(self, ev):
        if ev["e"] == "openfail":
            self._mark(self.w.now)
            self.d.fail_opens += [appkit.OPEN_ERRORS[k]() for k in ev["how"]]
            return
        super().fire(ev)

    def start(self, t0):
        hook = self.w.ports.on_error
        super().start(t0)
        self.w.ports.on_error = hook


NET = {"pan_id": (0x1A62, 0x2233, 0x4455), "channel": (11, 15, 20), "channels": ([11], [15, 20]),
       "extended_pan_id": (":".join(["11"] * 8), ":".join(["22"] * 8)),
       "key": ([5] * 16, [6] * 16)}
OWN = ("start", "stop", "again", "report")


def gen_side(r, n, busy):
    cfg = dict(appkit.gen_link(r), prior=r.choice(("up", "up", "up", "formed", "set", "new")))
    # settings of the network that are given; the others are the defaults
    cfg["net"] = {}
    if r.random() < 0.5:
        for key, vals in NET.items():
            if r.random() < 0.4:
                cfg["net"][key] = r.choice(vals)
    off = 0.0 if not n else 0.000137 * n + r.choice((0.0, 0.4, 1.0, 3.0)) * r.random()
    style = r.choice((0.0, 0.005, 0.1, 1.0))
    sends = flow.gen_sends(r, r.choice((2, 5, 10, 20) if busy else (1, 3, 8)), flow.SENDS_ALL,
                           style, devices=3, cancels=r.choice((0.0, 0.2)), tries=0.05)
    first = r.choice((2.0, 2.0, 3.0, 8.0, 0.5)) if cfg["prior"] == "up" else r.choice((8.0, 3.0))
    ops = [{"i": 100, "t": round(off, 6), "k": "start", "form": r.random() < 0.8 or
            cfg["prior"] != "up"}]
    for op in sends:
        op["t"] = round(op["t"] + first + off, 6)
        ops.append(op)
    top = max(op["t"] for op in ops) + 2
    for i in range(r.choice((0, 2, 6))):
        op = {"i": 200 + i, "t": round(r.random() * top + off, 6), "k": "report",
              "src": r.randrange(3), "sep": r.choice((1, 2)), "cl": r.choice((6, 0, 0x300)),
              "lqi": r.randrange(256),
              "data": bytes([0x18, r.randrange(256), 0x0A, 0, 0, 0x10, n]).hex()}
        if r.random() < 0.25:
            op["annce"] = True
        ops.append(op)
    for i in range(r.choice((0, 0, 1, 2) if busy else (0, 0, 0, 1))):
        ops.append({"i": 300 + i, "t": round(r.random() * top * 1.5 + off, 6),
                    "k": r.choice(("again", "again", "stop")), "form": r.random() < 0.8})
    events = []
    for _ in range(r.choice((0, 1, 2, 4) if busy else (0, 0, 1, 2))):
        ev = appkit.gen_fault(r, KINDS, top)
        if ev.get("on") == "open":
            ev = {k: v for k, v in ev.items() if k not in ("on", "n", "lag")}
            ev["t"] = r.random() * top
        if "t" in ev:
            ev["t"] = round(ev["t"] + off, 6)
        if ev.get("d", 0) > 20:
            ev["d"] = 14.0
        events.append(ev)
    return {"cfg": cfg, "ops": ops, "events": events, "seed": r.getrandbits(32)}


class P25:
    id = "P25"
    RUNS = {"quick": 700, "thorough": 40000}
    REAL, STUB = REAL_ALL, STUB
    ASSUME = ASSUME + ["the drivers share a thread and an event loop, whose ready callbacks and "
                       "timers of equal time run in order; a driver that blocks the whole process would "
                       "delay the others and is not modelled here"]
    RULE = ("Seeded: one adapter with starts, sends of all kinds, reports, faults, shutdowns and new "
            "application objects; executed alone and, from the same initial state, together with one "
            "or two more such adapters (same device addresses, other firmware, other settings) and "
            "probes of a further port. Non-trivial: A's driver sent something besides its start, and another "
            "driver or a probe was active.")
    SIMPLE = {}

    def gen(self, r, tier, i):
        plan = {"cfg": {"limit": r.choice((30.0, 60.0))}, "a": gen_side(r, 0, False)}
        n = r.choice((1, 1, 1, 2))
        plan["others"] = [gen_side(r, k + 1, True) for k in range(n)]
        plan["probes"] = []
        for k in range(r.choice((0, 0, 1, 3))):
            plan["probes"].append({"i": 500 + k, "t": round(r.random() * 20 + 0.00031, 6), "k": "probe",
                                   "there": r.choice((True, True, False))})
        # the lists that minimisation works on
        for key in ("ops", "events"):
            plan["a_" + key] = plan["a"].pop(key)
            plan["b_" + key] = [x for k, o in enumerate(plan["others"])
                                for x in [dict(e, side=k) for e in o.pop(key)]]
        return plan

    def execute(self, run):
        plan = run.plan
        alone = self.fork(run, lambda: self.simulate(run, False))
        both = self.fork(run, lambda: self.simulate(run, True))
        w = run.world
        w.trace[:] = both["trace"]
        w.now = both["now"]
        w.fired.update(both["fired"])
        w.probes.update(both["probes"])
        a, b = alone["history"], both["history"]
        run.evals += max(len(a), len(b))
        run.nontrivial = both["active"]
        if a != b:
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            run.fail("interference", "the driver of A does otherwise when others run in the "
                     "same process; alone: %s; with them: %s" % (
                         self.text(a, k), self.text(b, k)))

    @staticmethod
    def text(h, k):
        return "%.400s" % (h[k],) if k < len(h) else "(nothing more)"

    def simulate(self, run, others):
        w, plan = run.world, run.plan
        w.fifo_timers = True
        a = Side(run, dict(plan["a"], ops=plan["a_ops"], events=plan["a_events"]), PORT_A, None, 0)
        sides = [a]
        if others:
            for k, o in enumerate(plan["others"]):
                mine = lambda key: [{x: y for x, y in e.items() if x != "side"}
                                    for e in plan["b_" + key] if e["side"] == k]
                sides.append(Side(run, dict(o, ops=mine("ops"), events=mine("events")),
                                  (PORT_B, PORT_C)[k], a.h.loop, k + 1))
        t0 = w.now
        for s in sides:
            s.begin()
        other = host.Host(w)
        other.loop = a.h.loop
        recs = []
        if others and len(sides) < 3:
            d = dongle.Dongle(w, url=PORT_C, product=1, seed=5)
            d.configured()
            for op in plan["probes"]:
                def probe(op=op):
                    if op["there"]:
                        w.ports.peers[PORT_C] = d
                    else:
                        w.ports.peers.pop(PORT_C, None)
                    recs.append(other.call(op, lambda rec: host.ControllerApplication.probe(
                        host.device_config(PORT_C))))
                w.at(t0 + op["t"], lambda probe=probe: a.h.loop.call_soon(probe))
        last = max([op["t"] for op in plan["a_ops"]] or [0])
        a.h.run_until(t0 + last + plan["cfg"]["limit"])
        if others:
            for s in sides[1:]:
                w.probes["other-driver-frames"] += len(s.d.wire)
                w.probes["other-driver-calls"] += len(s.recs)
            w.probes["probes-of-a-third-port"] += len(recs)
        w.probes["frames-of-a"] += len(a.d.wire)
        return {"history": a.history(),
                "active": bool(others and any(i < 100 for i in a.recs) and len(a.d.wire) > 2 and (
                    any(s.d.wire for s in sides[1:]) or recs))}

    def fork(self, run, fn):
        """Run fn in a fresh copy of this process."""
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = {}
            try:
                os.close(rfd)
                with core.Watchdog(60):
                    out = fn()
            except BaseException as e:
                import traceback
                out = {"error": "%r" % e, "where": traceback.format_exc()}
            w = run.world
            out.update(trace=w.trace, now=w.now, fired=dict(w.fired), probes=dict(w.probes))
            try:
                data = pickle.dumps(out)
            except Exception as e:
                data = pickle.dumps({"error": "%r" % e, "where": ""})
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(wfd)
        with os.fdopen(rfd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out = pickle.loads(data)
        if "error" in out:
            raise RuntimeError("%s\n%s" % (out["error"], out["where"]))
        return out


PROPS = {"P25": P25()}
