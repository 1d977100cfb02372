"""P24: with a device database, a restart of the host loses nothing and invents nothing.

The real entry point (`ControllerApplication.new`), several lives of the host process, each
ended by a shutdown or a crash; between them the adapter and the mesh go on."""
import os
import shutil
import sqlite3
import tempfile

import zigpy.device
import zigpy.types as zt

from zigpy_cc.zigbee.application import ControllerApplication

from .. import core, host
from . import ASSUME, REAL_ALL, STUB
from .appkit import SIMPLE_LINK, Faults, gen_link, make_dongle
from .endtoend import BASE, OPS, P23, Device, Mesh, gen_device

GROUPS = (1, 2, 0x0B84, 0xFFF0)
SHM = "/dev/shm"
RESIDUE = 8.0       # answers to an earlier life's requests may come that long


class Cursor:
    """A database on a disk that may be full."""

    def __init__(self, life, real):
        self._life, self._real = life, real

    def _check(self):
        if self._life.full:
            self._life.owner.w.fired["disk-full"] += 1
            raise sqlite3.OperationalError("database or disk is full")

    def execute(self, *a, **k):
        self._check()
        return self._real.execute(*a, **k)

    def executemany(self, *a, **k):
        self._check()
        return self._real.executemany(*a, **k)

    def commit(self):
        self._check()
        return self._real.commit()


class Book:
    """A listener of the application: what it has told its owner so far."""

    def __init__(self, owner, life):
        self.owner, self.life = owner, life

    def device_initialized(self, device):
        self.owner.recorded(self.life, device)

    def device_removed(self, device):
        self.owner.removed(self.life, device)


class Life:
    """One process."""

    def __init__(self, owner, plan):
        self.owner, self.plan = owner, plan
        self.full = False
        self.t0 = owner.w.now
        self.apps = []
        self.counts = {}
        self.over = False
        self.files = []

    def close(self):
        while self.files:
            self.files.pop().close()


def make_app(life, h):
    class App(ControllerApplication):
        def __init__(self, config):
            super().__init__(config)
            life.apps.append(self)
            self.add_listener(Book(life.owner, life))
            h.adopt(self)

        async def _load_db(self):
            await super()._load_db()
            db = self._dblistener
            life.files += [db._db, db._cursor]
            db._cursor, db._db = Cursor(life, db._cursor), Cursor(life, db._db)

    return App


def snapshot(z):
    return {"nwk": int(z.nwk),
            "eps": {e: (int(x.profile_id), int(x.device_type), sorted(x.in_clusters),
                        sorted(x.out_clusters)) for e, x in z.endpoints.items() if e},
            "who": (z.manufacturer, z.model) if z.manufacturer and z.model else None,
            "node": z.node_desc.serialize() if z.node_desc.is_valid else None}


class Owner(P23.Session):
    """The user of the driver, over all the lives of its process."""

    def __init__(self, run, path):
        self.run, self.w = run, run.world
        self.plan = plan = run.plan
        self.path = path
        self.d = make_dongle(self.w, plan)
        self.d.configured()
        self.devs = {x["k"]: Device(x) for x in plan["devs"]}
        self.mesh = Mesh(self.w, self.d, plan["seed"], plan["cfg"])
        self.here = set()
        self.joins, self.refused, self.seen, self.asks = {}, [], {}, []
        self.final = False
        self.sound = set()
        self.book = {}            # device: what was recorded of it
        self.vague = set()        # devices of which the disk took an unknown part
        self.times = {}           # device: how often recorded
        self.gone = set()         # devices removed at some time
        self.kept = {}            # device: the last report known when the process ended
        self.life = None
        self.h = self.app = None
        self.f = Faults(self.w, self.d, plan["events"], lambda: self.h.loop)
        self.f.start(self.w.now)
        self.d.directive = self.directive
        self.d.ota = self.ota
        self.leaves = []
        self.shared = []          # when two devices were known under one address
        self.d.on_host_frame.append(lambda fr: self.count("frame"))
        real = self.d.host_read

        def read(ser, data):
            before = len(ser.outstream)
            real(ser, data)
            for _ in range(before - len(ser.outstream)):
                self.count("read")
        self.d.host_read = read

    # -- the devices' side ---------------------------------------------------
    def ota(self, name, dst, data):
        if dst == 0 and name == "mgmtLqiReq":
            return b"\x00\x00\x00\x00", 0.01
        if name == "mgmtLeaveReq":
            dev = self.d.devs.get(dst)
            if dev is not None and dev.answers:
                self.leaves.append((self.w.now, dev.k, bytes(data[2:10])))
                if bytes(data[2:10]) == dev.ieee:
                    self.w.after(dev.latency + 0.001, self.leave, dev)
        return self.d.default_ota(name, dst, data)

    def leave(self, dev):
        if self.d.devs.get(dev.nwk) is dev:
            del self.d.devs[dev.nwk]
        self.here.discard(dev.k)
        dev.groups.clear()

    # -- records -------------------------------------------------------------
    def key(self, device):
        raw = bytes(device.ieee.serialize())
        return next((k for k, dev in self.devs.items() if dev.ieee == raw), None)

    def recorded(self, life, device):
        k = self.key(device)
        if life is not self.life or life.over or device.application is not life.apps[-1] \
                or life.full:
            self.vague.add(k)
            return
        self.book[k] = snapshot(device)
        self.vague.discard(k)
        self.times[k] = self.times.get(k, 0) + 1
        self.count("saved")

    def removed(self, life, device):
        k = self.key(device)
        self.gone.add(k)
        if life is not self.life or life.over or device.application is not life.apps[-1] \
                or life.full:
            self.vague.add(k)
            return
        self.run.check(k not in self.book or any(
            r.op["k"] == "remove" and r.op["dev"] == k and not r.done for r in self.h.recs),
            "dropped", lambda: "device %d was removed from the table, and nobody asked for it" % k)
        self.book.pop(k, None)
        self.vague.discard(k)
        self.count("saved")

    # -- lives -----------------------------------------------------------------
    def count(self, what):
        life = self.life
        if life is None or life.over:
            return
        n = life.counts[what] = life.counts.get(what, 0) + 1
        end = life.plan.get("end")
        if end and end["how"] == "crash" and end.get("on") == what and end["n"] == n:
            self.w.after(end["lag"], self.crash, life)

    def crash(self, life):
        if life.over:
            return
        life.over = True
        self.w.fired["host-crash"] += 1
        self.w.log("host-crash")
        raise core.HostCrash()

    def bury(self, life):
        """The process is gone: the system closes its ports and files."""
        life.over = True
        w = self.w
        for ser in w.ports.opens:
            if not ser.dead:
                ser.dead = True
                ser.is_open = False
                ser.closed_at = w.now
        self.d.conn = None
        w.loop = None
        life.close()

    def start(self, life):
        """As an owner does it: tried again after a failure."""
        w, cfg, h = self.w, self.plan["cfg"], self.h
        config = host.app_config(flow=cfg["flow"], baudrate=cfg["baud"], database=self.path)
        for n in range(8):
            cls = make_app(life, h)
            t0, fails = w.now, w.fired["open-failure"]
            rec = h.run_call({"k": "new"}, lambda rec: cls.new(
                config, auto_form=True, start_radio=True), 400)
            if not self.run.check(rec.done, "no-end", "the start does not end"):
                return False
            if rec.ok:
                self.app = h.app
                return True
            w.probes["start-failed"] += 1
            sick = self.f.quiet_at + 8 >= t0 or any(t0 - 9 <= t <= rec.t1 for t in self.refused) \
                or any(t0 - 30 <= t <= rec.t1 for t in self.f.losses) \
                or w.fired["open-failure"] > fails
            if not self.run.check(sick, "start", lambda: "a start failed with %r though "
                                  "everything was in order" % (rec.exc,)):
                return False
            self.run.check(self.d.conn is None, "held", "a failed start left the port open")
            h.run_until(max(w.now, min(self.f.quiet_at, w.now + 60)) + 5)
        self.run.fail("start", "no start succeeded after the faults were over")
        return False

    def live(self, plan, final=False):
        """One life of the process. False if the run is over."""
        w = self.w
        life = self.life = Life(self, plan)
        self.h = h = host.AppHost(w, None)
        h.write_first = self.plan["cfg"].get("write_first", False)
        self.joins.clear()
        self.app = None
        h.boot()
        end = plan.get("end") or {}
        try:
            if end.get("how") == "crash" and "t" in end:
                w.at(life.t0 + end["t"], self.crash, life)
            for a, b in plan.get("full", ()):
                w.at(life.t0 + a, setattr, life, "full", True)
                w.at(life.t0 + b, setattr, life, "full", False)
            if not self.start(life):
                return False
            if not self.judge_table():
                return False
            t0 = w.now
            for op in plan["ops"]:
                w.at(t0 + op["t"], self.at_op, life, op)
            if final:
                self.last_life()
            else:
                h.run_until(t0 + plan["len"])
                if end.get("how") == "shutdown":
                    w.fired["shutdown"] += 1
                    h.run_call({"k": "shutdown"}, lambda rec: self.app.shutdown(), 10)
                    h.run_until(w.now + 0.1)
                else:
                    w.fired["host-crash"] += 1
        except core.HostCrash:
            pass
        if not final:
            self.keep()
            self.judge_calls()
            self.judge_changes()
            self.judge_groups_sent()
        self.run.check(not w.loop_errors, "loop-error", lambda: "an error reached the event "
                       "loop: %s" % (w.loop_errors[:2],))
        self.bury(life)
        return not self.run.violations

    def at_op(self, life, op):
        if life is self.life and not life.over:
            self.h.loop.call_soon(self.begin, op)

    def keep(self):
        """What was known when the process ended."""
        self.kept = {}
        for k, dev in self.devs.items():
            z = self.app and self.zdev(dev)
            if self.app and k in self.book and k not in self.vague:
                self.run.check(z is not None, "dropped", lambda: "device %d is no longer known" % k)
            if z and k in self.book and k not in self.vague and not z.initializing \
                    and z.status == zigpy.device.Status.ENDPOINTS_INIT:
                self.book[k]["nwk"] = int(z.nwk)
            if not z or z.status != zigpy.device.Status.ENDPOINTS_INIT or k in self.vague \
                    or self.life.plan.get("full"):
                continue
            self.kept[k] = {
                "reports": {e: x.in_clusters[0x405].get(0) for e, x in z.endpoints.items()
                            if e and 0x405 in x.in_clusters},
                "groups": sorted((int(g), e) for g, grp in self.app.groups.items()
                                 for i, e in grp.members if i == z.ieee)}
            if self.times.get(k) != 1 or k in self.gone or dev.moved:
                # (the library's own records of groups do not survive a second record)
                del self.kept[k]["groups"]
                del self.kept[k]["reports"]

    def pause(self, plan):
        """Between two lives."""
        idle = host.Host(self.w)
        idle.boot()
        if plan["power"]:
            self.w.fired["adapter-power-cycle"] += 1
            self.d.unplug()
            self.w.after(0.3, self.d.plug)
        idle.run_until(self.w.now + plan["down"])
        self.w.loop = None

    # -- what happens ----------------------------------------------------------
    def troubled(self, a, b, refusals=True):
        if not self.final and a < self.life.t0 + RESIDUE:
            return True
        if not self.final and any(a <= y and b >= x for x, y in self.shared):
            # the library above mistakes one for the other then
            return True
        return super().troubled(a, b, refusals)

    def begin(self, op):
        k, dev = op["k"], self.devs.get(op.get("d"))
        if k == "scan":
            rec = self.h.call(op, lambda rec: self.app.topology.scan())
            return
        if dev is None:
            return
        if k == "join" and dev.k in self.here:
            return
        if k == "join":
            # at the address it has, or at a new one
            if "nwk" in op and op["nwk"] not in self.d.devs:
                dev.nwk = op["nwk"]
            if dev.nwk in self.d.devs:
                return
        if dev.k in self.here or k == "join":
            if k == "gcmd":
                return self.group_command(op)
            if k == "remove":
                return self.remove(op, dev)
            if k == "take":
                return self.take(op, dev)
            if k in ("gadd", "gdel"):
                return self.group_change(op, dev)
        super().begin(op)

    def dismissed(self, dev, rec):
        return any(x.op["k"] == "remove" and x.op["dev"] == dev.k and x.t0 <= rec.t1
                   and (x.t1 is None or x.t1 >= rec.t0) for x in self.h.recs)

    def ready(self, dev):
        z = self.zdev(dev)
        if z is None or z.status != zigpy.device.Status.ENDPOINTS_INIT or z.initializing \
                or int(z.nwk) != dev.nwk:
            return None
        return z

    def remove(self, op, dev):
        z = self.ready(dev)
        if z is None:
            return
        if any(r.op["k"] == "remove" and r.op["dev"] == dev.k and not r.done
               for r in self.h.recs):
            return
        rec = self.h.call(dict(op, dev=dev.k), lambda rec: self.app.remove(z.ieee))
        rec.then.append(lambda: setattr(rec, "tag2", self.zdev(dev) is not z))

    def take(self, op, dev):
        """The device gets the address of another, which goes to a new one and says so later."""
        other = self.devs.get(op["from"])
        if other is None or other.k == dev.k or other.k not in self.here or self.ready(dev) is None \
                or self.ready(other) is None or op["nwk"] in self.d.devs:
            return
        w, life, devs = self.w, self.life, self.d.devs
        w.fired["address-taken"] += 1
        del devs[dev.nwk], devs[other.nwk]
        dev.nwk, other.nwk = other.nwk, op["nwk"]
        devs[dev.nwk], devs[other.nwk] = dev, other
        for x in (dev, other):
            x.moved.append(w.now)
        self.shared.append([w.now, 1e9])
        mine = self.shared[-1]

        def later():
            if life is self.life and not life.over and other.k in self.here:
                mine[1] = w.now + 1
                self.announce(other)
        self.announce(dev)
        w.after(op["late"], lambda: self.h.loop.call_soon(later))

    def group_change(self, op, dev):
        z = self.ready(dev)
        if z is None:
            return
        e = next((e for e, x in sorted(z.endpoints.items()) if e and 4 in x.in_clusters), None)
        if e is None:
            return
        g = op["g"]
        ep = z.endpoints[e]
        self.h.call(dict(op, dev=dev.k, e=e), lambda rec: (
            ep.add_to_group(g, "g%d" % g) if op["k"] == "gadd" else ep.remove_from_group(g)))

    def group_command(self, op):
        g = op["g"]
        if g not in self.app.groups:
            return
        cl = self.app.groups[g].endpoint[6]
        self.h.call(op, lambda rec: cl.command(op["n"] % 3))

    # -- verdicts ----------------------------------------------------------------
    def judge_table(self):
        """Right after a start."""
        run, d, app = self.run, self.d, self.app
        new = {}
        for t, nwk, ieee in self.h.joins:
            new.setdefault(ieee, []).append(nwk)
        for k, dev in self.devs.items():
            z = self.zdev(dev)
            said = new.get(dev.ieee, [])
            if k in self.vague:
                self.vague.discard(k)
                self.gone.add(k)      # (its further records are of no use)
                self.book.pop(k, None)
                if z is not None and z.status == zigpy.device.Status.ENDPOINTS_INIT:
                    self.book[k] = snapshot(z)
                continue
            b = self.book.get(k)
            if b is None:
                run.check(z is None or said, "ghost", lambda: "device %d was never recorded, "
                          "or removed; after the start it is known" % k)
                continue
            if not run.check(z is not None, "forgotten", lambda: "device %d was recorded, and "
                             "is unknown after the start" % k):
                continue
            self.w.probes["survived"] += 1
            got = snapshot(z)
            run.check(got["nwk"] == b["nwk"] or got["nwk"] in said, "address",
                      lambda: "device %d was recorded at %04x, known at %04x after the start"
                      % (k, b["nwk"], got["nwk"]))
            run.check(z.status == zigpy.device.Status.ENDPOINTS_INIT, "status",
                      lambda: "device %d is %s after the start" % (k, z.status))
            run.check(got["eps"] == b["eps"], "endpoints", lambda: "device %d was recorded "
                      "with %s, known with %s after the start" % (k, b["eps"], got["eps"]))
            for x in ("node", "who"):
                if b[x] is not None:
                    run.check(got[x] == b[x], x, lambda: "device %d was recorded as %s, known "
                              "as %s after the start" % (k, b[x], got[x]))
            kept = self.kept.get(k, {})
            if "reports" in kept and not said:
                have = {e: x.in_clusters[0x405].get(0) for e, x in z.endpoints.items()
                        if e and 0x405 in x.in_clusters}
                run.check(have == kept["reports"], "report", lambda: "device %d: reports %s "
                          "were known, %s after the start" % (k, kept["reports"], have))
            if "groups" in kept and not said:
                have = sorted((int(g), e) for g, grp in app.groups.items()
                              for i, e in grp.members if i == z.ieee)
                run.check(have == kept["groups"], "groups", lambda: "device %d: groups %s were "
                          "known, %s after the start" % (k, kept["groups"], have))
        own = [z for z in app.devices.values() if int(z.nwk) == 0]
        run.check(len(own) == 1 and bytes(own[0].ieee.serialize()) == d.ieee
                  and bytes(app.ieee.serialize()) == d.ieee and int(app.nwk) == 0, "coordinator",
                  lambda: "entries of the coordinator after the start: %s" % (own,))
        known = {bytes(i.serialize()) for i in app.devices}
        stray = known - {d.ieee} - {x.ieee for x in self.devs.values()}
        run.check(not stray, "stray", lambda: "known after the start: %s" % (stray,))
        return not run.violations

    def judge_changes(self):
        """Removals and group changes that were not disturbed had their effect."""
        for rec in self.h.recs:
            op, k = rec.op, rec.op["k"]
            if k not in ("remove", "gadd", "gdel") or not rec.done:
                continue
            dev = self.devs[op["dev"]]
            if k == "remove":
                self.run.check(rec.exc is None and rec.tag2, "not-removed", lambda: "the removal "
                               "of device %d (op %d) ended with %r%s" % (
                                   dev.k, op["i"], rec.exc, "" if rec.tag2 else
                                   "; it is still known"))
            if k != "remove" and self.dismissed(dev, rec):
                continue
            if self.troubled(rec.t0, rec.t1) or any(rec.t0 - 1 <= t <= rec.t1 for t in dev.moved):
                continue
            what = "%s (op %d) of device %d" % (k, op["i"], dev.k)
            self.run.check(rec.exc is None, "failed", lambda: "%s ended with %r" % (
                what, rec.exc))
            if k == "remove":
                told = [x for t, n, x in self.leaves if n == dev.k and rec.t0 <= t <= rec.t1]
                self.run.check(dev.ieee in told, "not-told", lambda: "%s: the device was told to "
                               "leave: %s" % (what, told))
            else:
                self.run.check(rec.exc or int(rec.res) == 0, "failed", lambda: "%s: %r" % (
                    what, rec.res))

    def judge_groups_sent(self):
        sent, must, may = {}, {}, {}
        for fr in self.d.rcvd:
            if fr.name == "dataRequestExt" and fr.data[0] == 1 and fr.t >= self.life.t0:
                g = fr.data[1] | fr.data[2] << 8
                sent[g] = sent.get(g, 0) + 1
        for rec in self.h.recs:
            if rec.op["k"] == "gcmd":
                g = rec.op["g"]
                may[g] = may.get(g, 0) + 1
                if rec.ok and int(rec.res[1]) == 0:
                    must[g] = must.get(g, 0) + 1
        for g in set(sent) | set(may):
            self.run.check(must.get(g, 0) <= sent.get(g, 0) <= may.get(g, 0), "group",
                           lambda: "%s commands to group %d ended well of %s; the adapter got "
                           "%s" % (must.get(g, 0), g, may.get(g, 0), sent.get(g, 0)))

    def last_life(self):
        """Faults are over: everything known is served, everything else joins anew."""
        run, w, h, d = self.run, self.w, self.h, self.d
        h.run_until(w.now + 32)
        self.final = True
        reports = []
        for k, dev in self.devs.items():
            if k not in self.here:
                # it left unnoticed (the process crashed): the user removes it
                self.app.devices.pop(zt.EUI64.deserialize(dev.ieee)[0], None)
        for k in sorted(self.here):
            dev = self.devs[k]
            if self.ready(dev) is None:
                h.loop.call_soon(self.announce, dev)
            else:
                reports.append(k)
        if len(reports) < len(self.here):
            h.run_until(w.now + 60)
        self.calls("read", "command", "active", "simple")
        h.run_until(w.now + 40)
        self.ended()
        self.judge_calls()
        for k in reports:
            self.mesh.report(self.devs[k], 200)
        h.run_until(w.now + 7 * 25)
        for k in reports:
            dev = self.devs[k]
            rs = self.mesh.reports.get(k)
            if not rs or rs[-1][1] != dev.serial:
                continue
            rec, value, nwk, e = rs[-1]
            got = self.zdev(dev).endpoints[e].in_clusters[0x405].get(0)
            run.check(got == value, "unserved", lambda: "device %d, known from before the start, "
                      "reported %d; known is %r" % (k, value, got))
        self.judge_interviews()
        del h.recs[:]
        t0 = w.now
        scan = h.call({"k": "scan", "i": 990}, lambda rec: self.app.topology.scan())
        h.run_until(w.now + 150)
        self.ended()
        if scan.done and run.check(scan.exc is None, "scan", lambda: "scan: %r" % (scan.exc,)):
            for k in sorted(self.here):
                dev = self.devs[k]
                z = self.zdev(dev)
                if z is None or not dev.router or not z.node_desc.is_valid:
                    continue
                got = [x.neighbor.serialize() for x in z.neighbors.neighbors]
                run.check(got == dev.neighbors, "neighbors", lambda: "device %d has neighbors %s, "
                          "the scan found %s" % (k, dev.neighbors, got))
        self.calls("read", "active", "lqi")
        h.run_until(w.now + 40)
        self.ended()
        self.judge_calls()
        for k in sorted(self.here):
            run.check(self.ready(self.devs[k]) is not None, "unready", lambda: "device %d is not "
                      "usable at the end" % k)
        run.check(len([s for s in w.ports.opens if s.is_open]) == 1, "ports",
                  lambda: "%d ports are open" % len([s for s in w.ports.opens if s.is_open]))
        run.nontrivial = w.probes["survived"] > 0

    def calls(self, *kinds):
        for k in sorted(self.here):
            for j, what in enumerate(kinds):
                self.w.after(0.01 * j, lambda k=k, what=what: self.h.loop.call_soon(
                    self.begin, {"k": what, "d": k, "n": j, "i": 950 + k}))

    def ended(self):
        for rec in self.h.recs:
            self.run.check(rec.done, "no-end", lambda: "%s never ended" % (rec.op,))


def gen_life(r, n, i, style, first):
    ops, t = [], 0.0
    if first:
        apart = r.choice((0.0, 0.05, 0.5, 8.0))
        for k in range(1, n + 1):
            ops.append({"i": k, "t": round(t, 4), "k": "join", "d": k})
            t += apart * r.random()
        t += r.choice((0, 3, 12, 12))
    for j in range(r.choice((0, 2, 6, 12))):
        t += style * r.random()
        x = r.random()
        op = {"i": 1000 * (i + 1) + j, "t": round(t, 4), "d": 1 + r.randrange(n)}
        if x < 0.3:
            op["k"] = r.choice(OPS)
            op["n"] = r.randrange(8)
        elif x < 0.42:
            op["k"], op["tsn"] = "report", r.randrange(256)
        elif x < 0.52:
            op["k"] = "move"
            op["nwk"] = r.choice((BASE + 0x40 + 16 * i + j, 0x0001, 0xFFF7, 0x8000 + 16 * i + j))
        elif x < 0.58 and n > 1:
            op["k"], op["from"] = "take", 1 + r.randrange(n)
            op["nwk"] = 0x6000 + 16 * i + j
            op["late"] = r.choice((0.0, 0.3, 5.0, 60.0))
        elif x < 0.62:
            op["k"] = "again"
        elif x < 0.7:
            op["k"] = "remove"
        elif x < 0.8:
            op["k"] = "join"
            if r.random() < 0.4:
                op["nwk"] = 0x5000 + 16 * i + j
        elif x < 0.95:
            op["k"] = r.choice(("gadd", "gadd", "gdel", "gcmd", "gcmd"))
            op["g"] = r.choice(GROUPS[:2] * 2 + GROUPS)
            op["n"] = r.randrange(3)
        else:
            op["k"] = "scan"
            del op["d"]
        ops.append(op)
    end = {"how": r.choice(("crash", "crash", "shutdown"))}
    length = round(t + r.choice((0.1, 2.0, 10.0, 30.0)), 3)
    if end["how"] == "crash":
        x = r.random()
        if x < 0.35:
            end["on"], end["lag"] = "saved", r.choice((0.0, 0.0, 0.001, 0.3))
            end["n"] = r.choice((1, 1, 2, 3))
        elif x < 0.6:
            end["on"], end["lag"] = r.choice(("frame", "read")), r.choice((0.0, 0.001, 0.3))
            end["n"] = r.randrange(1, 90)
        elif x < 0.85:
            end["t"] = round(r.random() * (length + 4), 4)
    full = []
    if r.random() < 0.15:
        a = r.random() * length
        full.append([round(a, 3), round(a + r.choice((0.5, 5, 60)), 3)])
    return {"ops": ops, "end": end, "len": length, "full": full,
            "down": r.choice((0.01, 1.0, 10.0, 100.0)), "power": r.random() < 0.25}


class P24:
    id = "P24"
    RUNS = {"quick": 1500, "thorough": 100000}
    REAL = REAL_ALL + ["zigpy 0.25 appdb (device database) on sqlite"]
    STUB, SIMPLE = STUB, dict(SIMPLE_LINK, ext=0.0)
    ASSUME = ASSUME + ["sqlite keeps a committed transaction and drops one not committed "
                       "when the process ends"]
    RULE = ("Seeded: 1 to 4 devices and 2 to 4 lives of the host process over one device "
            "database; in each, devices join, move, are read, grouped, removed and join again, "
            "take over addresses, with connection losses, refusals and a full disk; it ends by shutdown or by a crash at "
            "a time, at a frame sent or read, or right after a record. Starts meet faults too.")

    def gen(self, r, tier, i):
        n = r.choice((1, 1, 2, 2, 3, 4))
        devs = [gen_device(r, k) for k in range(1, n + 1)]
        for x in devs:
            x["eps"] = x["eps"][:3]
            if r.random() < 0.5 and 4 not in x["eps"][0][3]:
                x["eps"][0][3].append(4)
        style = r.choice((0.05, 0.5, 3.0, 12.0))
        calm = r.random() < 0.4
        lives = [gen_life(r, n, j, style, j == 0) for j in range(r.choice((1, 2, 2, 3)))]
        refuse, evs = [], []
        if r.random() < 0.3:
            for _ in range(r.choice((1, 3))):
                refuse.append({"cmd": r.choice(("nodeDescReq", "activeEpReq", "simpleDescReq",
                                                "dataRequest", "mgmtLeaveReq", "getDeviceInfo",
                                                "dataRequestExt")),
                               "n": r.randrange(8), "how": r.choice(("status", "mute", "ignore"))})
                if refuse[-1]["cmd"] == "getDeviceInfo" and refuse[-1]["how"] == "status":
                    refuse[-1]["how"] = "mute"
        total = sum(x["len"] + x["down"] for x in lives)
        for _ in range(0 if calm else r.choice((0, 1, 3))):
            e = r.choice(("stall", "short", "block", "unplug", "away", "drop", "openfail", "hang"))
            ev = {"e": e}
            if r.random() < 0.6:
                ev["t"] = round(r.random() * total, 4)
            else:
                ev["on"], ev["n"] = r.choice(("frame", "frame", "open")), r.choice(
                    (1, 2, 3, r.randrange(1, 200)))
                ev["lag"] = r.choice((0.0, 0.0005, 0.3, 0.9, 1.01))
            if e in ("unplug", "away"):
                ev["d"] = r.choice((0.01, 3.0, 14.0))
            elif e == "openfail":
                ev["how"] = ["busy"]
            elif e == "hang":
                ev["d"] = r.choice((2.0, 9.0))
            elif e == "stall":
                ev["d"] = r.choice((0.02, 0.25))
            elif e == "block":
                ev["d"] = r.choice((0.02, 0.3))
            elif e == "short":
                ev["n_"] = [r.randrange(1, 8) for _ in range(r.choice((1, 2, 5)))]
            evs.append(ev)
        return {"cfg": dict(gen_link(r), ext=r.choice((0.0, 0.0, 0.3, 1.0)), warm=0,
                            status=[r.choice((0, 0, 0x80, 0x86, 0x94)) for _ in range(3)]),
                "devs": devs, "lives": lives, "refuse": refuse, "events": evs}

    def execute(self, run):
        path = tempfile.mkdtemp(prefix="verif-p24-", dir=SHM if os.access(SHM, os.W_OK) else None)
        owner = Owner(run, os.path.join(path, "zigbee.db"))
        try:
            for life in run.plan["lives"]:
                if not owner.live(life):
                    return
                owner.pause(life)
            owner.f.armed, owner.f.over = [], True
            owner.d.directive = None
            run.world.ports.fail_opens.clear()
            idle = host.Host(run.world)
            idle.boot()
            idle.run_until(max(run.world.now, owner.f.quiet_at) + 1)
            run.world.loop = None
            owner.live({"ops": []}, final=True)
        finally:
            if owner.life is not None:
                owner.life.close()
            shutil.rmtree(path, ignore_errors=True)


PROPS = {"P24": P24()}
