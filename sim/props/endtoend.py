"""P23: pairing, reading and controlling devices, from the library above zigpy_cc down to
the devices and back."""
import struct

import zigpy.device
import zigpy.types as zt

from .. import core, dongle, host, mt
from ..mt import u16
from . import ASSUME, REAL_ALL, STUB
from .zdo import neighbor
from .appkit import SIMPLE_LINK, AppSession, Faults, gen_link

PROFILES = ((0x0104, (0x0100, 0x0051, 0x0302, 0x0402)), (0xC05E, (0x0100, 0x0210)),
            (0xA1E0, (0x0061,)), (0x0109, (0x0200,)))
CLUSTERS_IN = (1, 3, 5, 6, 8, 0x300, 0x402, 0x405, 0x500, 0x702, 0xB04, 0xFC01)
CLUSTERS_OUT = (3, 6, 8, 10, 25)
ROUTER_LATE, END_LATE = 4.2, 5.2
BASE = 0x2000
LOSSES = ("unplug", "away", "drop", "openfail", "hang")


def ieee(k):
    return bytes([k ^ 0x40, k, 0x33, 0x22, 0x11, 0x4F, 0x15, 0x00])


class Device(dongle.Dev):
    """A Zigbee device: descriptors, and a little of the cluster library."""

    def __init__(self, spec):
        eps = {}
        for e, prof, dev, inc, outc in spec["eps"]:
            eps[e] = (prof, dev, list(inc), list(outc))
        super().__init__(spec["nwk"], ieee(spec["k"]), man=0x1000 + spec["k"], eps=eps,
                         router=spec["router"], latency=spec["late"])
        self.k = spec["k"]
        self.spec = spec
        nr = core.rng_for("neighbors", spec.get("nseed", 0), self.k)
        self.neighbors = [neighbor(nr, 0x3000 + 16 * self.k + j)
                          for j in range(spec["neighbors"])]
        self.serial = 100 * self.k
        self.given = {}           # tsn: [(time, value)]
        self.asked = {}           # tsn it asked with: time
        self.told = []            # (time, tsn, command) answers it got
        self.moved = []           # when it went to another address
        self.groups = set()       # (endpoint, group) it is a member of


class Mesh:
    """The devices' side of the conversation."""

    def __init__(self, w, d, seed, cfg):
        self.w, self.d, self.seed, self.cfg = w, d, seed, cfg
        self.n = 0
        d.on_af = self.receive
        self.reports = {}         # device: [(record, value, nwk)]

    def late(self, dev):
        self.n += 1
        return dev.latency * (0.3 + 0.7 * core.rng_for(self.seed, "late", self.n).random())

    def incoming(self, dev, sep, dep, cl, data):
        self.n += 1
        if core.rng_for(self.seed, "ext", self.n).random() < self.cfg["ext"]:
            long = self.n % 2
            return mt.incoming_msg_ext(3 if long else 2, dev.ieee if long else
                                       u16(dev.nwk) + bytes(6), sep, dep, cl, data)
        return mt.incoming_msg(dev.nwk, sep, dep, cl, data, lqi=30 + dev.k)

    def receive(self, dst, dep, sep, cl, data):
        dev = self.d.devs.get(dst)
        if dev is None or not dev.answers or dep not in dev.eps:
            return
        fc, p = data[0], 1
        if fc & 4:
            p += 2
        tsn, cmd, rest = data[p], data[p + 1], bytes(data[p + 2:])
        if fc & 3 == 0 and cmd == 0x0B:
            return
        if fc & 8 or cmd == 1 and fc & 3 == 0:      # to a client: an answer
            dev.told.append((self.w.now, tsn, cmd))
            return
        if fc & 3 == 0 and cmd == 0:
            out = b"\x18" + bytes([tsn, 1])
            for i in range(0, len(rest), 2):
                out += rest[i:i + 2] + self.attribute(dev, cl, rest[i] | rest[i + 1] << 8, tsn)
        elif fc & 3 == 1 and cl == 4 and cmd == 2:
            mine = sorted(g for e, g in dev.groups if e == dep)
            out = b"\x19" + bytes([tsn, 2, 255, len(mine)]) + b"".join(map(u16, mine))
        elif fc & 3 == 1 and cl == 4 and cmd in (0, 3):
            g = rest[0] | rest[1] << 8
            (dev.groups.add if cmd == 0 else dev.groups.discard)((dep, g))
            out = b"\x19" + bytes([tsn, cmd, 0]) + rest[:2]
        else:
            status = self.cfg["status"][(dev.k + tsn) % len(self.cfg["status"])]
            dev.given.setdefault(tsn, []).append((self.w.now, status))
            out = b"\x18" + bytes([tsn, 0x0B, cmd, status])
        self.w.after(self.late(dev), self.answer, dev, dep, sep, cl, out)

    def answer(self, dev, dep, sep, cl, out):
        self.d.emit(self.incoming(dev, dep, sep, cl, out), kind="af", src=dev.nwk)

    def attribute(self, dev, cl, attr, tsn):
        if cl == 0 and attr in (4, 5):
            s = (("Maker%d" if attr == 4 else "Model%d") % dev.k).encode()
            return b"\x00\x42" + bytes([len(s)]) + s
        if cl == 0x402 and attr == 0:
            dev.serial += 1
            dev.given.setdefault(tsn, []).append((self.w.now, dev.serial))
            return b"\x00\x29" + struct.pack("<h", dev.serial)
        return b"\x86"

    def report(self, dev, tsn):
        """An unsolicited report, with a transaction number of the device's own."""
        e = next((e for e, x in sorted(dev.eps.items()) if 0x405 in x[2]), None)
        if e is None:
            return
        dev.serial += 1
        rec = self.d.emit(self.incoming(dev, e, 1, 0x405, b"\x18" + bytes([tsn, 0x0A]) + b"\x00\x00\x21"
                                        + u16(dev.serial)), kind="report")
        self.reports.setdefault(dev.k, []).append((rec, dev.serial, dev.nwk, e))

    def ask(self, dev, tsn):
        """The device asks for the time."""
        e = next((e for e, x in sorted(dev.eps.items()) if 10 in x[3]), None)
        if e is None or self.d.conn is None:
            return None
        rec = self.d.emit(self.incoming(dev, e, 1, 10, b"\x00" + bytes([tsn, 0]) + b"\x00\x00"))
        return rec


def gen_device(r, k):
    eps, used = [], set()
    for _ in range(r.choice((1, 1, 1, 1, 2, 2, 3, 6, 14))):
        e = r.choice((1, 1, 2, 3, 11, 12, 242, r.randrange(1, 255)))
        if e in used:
            continue
        used.add(e)
        prof, kinds = r.choice(PROFILES[:1] * 4 + PROFILES)
        inc = sorted(r.sample(CLUSTERS_IN, r.choice((0, 1, 3, 8))))
        if r.random() < 0.85:
            inc = [0] + inc
        if r.random() < 0.2:
            inc.append(4)
        for c in (0x402, 0x405, 6):
            if c not in inc and r.random() < 0.6:
                inc.append(c)
        outc = sorted(r.sample(CLUSTERS_OUT, r.choice((0, 0, 1, 3))))
        if r.random() < 0.12:
            # a long list, with clusters of the manufacturer
            inc += [0xFC40 + c for c in r.sample(range(900), r.choice((12, 16, 25)))]
            outc += [0xFC40 + c for c in r.sample(range(900), r.choice((0, 10)))]
        eps.append([e, prof, r.choice(kinds), inc, outc])
    router = r.random() < 0.4
    return {"k": k, "nwk": BASE + k, "eps": eps, "router": router,
            "neighbors": r.choice((0, 1, 2, 3, 5)), "nseed": r.getrandbits(16),
            "late": r.choice((0.01, 0.05, 0.05, 0.4, 1.5, ROUTER_LATE if router else END_LATE))}


OPS = ("read", "read", "read", "command", "active", "node", "simple", "lqi", "bind", "unbind")


class P23:
    id = "P23"
    RUNS = {"quick": 2400, "thorough": 200000}
    REAL, STUB, SIMPLE = REAL_ALL, STUB, dict(SIMPLE_LINK, warm=0, ext=0.0)
    ASSUME = ASSUME + ["devices answer ZDO requests of one kind in the order they were asked, and everything "
                       "within the time the library above waits"]
    RULE = ("Seeded: 1 to 5 devices of 1 to 6 endpoints join (together, or one after another), are "
            "interviewed, read, commanded, bound and asked for descriptors, report and ask for "
            "the time meanwhile, move to other addresses; single refusals and lost answers, stalls, "
            "connection losses and recoveries. Non-trivial: an interview ended well.")

    def gen(self, r, tier, i):
        n = r.choice((1, 1, 2, 3, 5))
        devs = [gen_device(r, k) for k in range(1, n + 1)]
        calm = r.random() < 0.55
        ops, t = [], 0.0
        together = r.random() < 0.5
        for k in range(1, n + 1):
            ops.append({"i": k, "t": round(t, 4), "k": "join", "d": k})
            t += r.random() * (0.05 if together else 25.0)
        t = r.choice((1.0, 30.0)) + t
        style = r.choice((0.0, 0.3, 5.0))
        for j in range(r.choice((0, 3, 10, 25))):
            t += style * r.random()
            x = r.random()
            op = {"i": 100 + j, "t": round(t, 4), "d": 1 + r.randrange(n)}
            if x < 0.62:
                op["k"] = r.choice(OPS)
                op["n"] = r.randrange(8)
            elif x < 0.78:
                op["k"], op["tsn"] = "report", r.randrange(256)
                op["near"] = r.random() < 0.6
            elif x < 0.86:
                op["k"], op["tsn"] = "ask", r.randrange(256)
            elif x < 0.92:
                op["k"] = "move"
                op["nwk"] = r.choice((BASE + 0x40 + j, 0x0001, 0xFFF7, 0x8000 + j))
            else:
                op["k"] = "again"
            ops.append(op)
        refuse = []
        if r.random() < 0.35:
            for _ in range(r.choice((1, 3))):
                refuse.append({"cmd": r.choice(("nodeDescReq", "activeEpReq", "simpleDescReq",
                                                "dataRequest")),
                               "n": r.randrange(12),
                               "how": r.choice(("status", "status", "mute", "ignore"))})
        evs = []
        for _ in range(r.choice((0, 1, 3))):
            e = r.choice(("stall", "short", "block") + (() if calm else LOSSES + LOSSES))
            ev = {"e": e}
            if r.random() < 0.6:
                ev["t"] = round(r.random() * (t + 5), 4)
            else:
                ev["on"], ev["n"] = "frame", r.randrange(1, 60)
                ev["lag"] = r.choice((0.0, 0.0005, 0.002, 0.3))
            if e in ("unplug", "away"):
                ev["d"] = r.choice((0.01, 3.0, 14.0))
            elif e == "openfail":
                ev["how"] = ["busy"]
            elif e == "hang":
                ev["d"] = r.choice((2.0, 9.0))
            elif e == "stall":
                ev["d"] = r.choice((0.02, 0.25))
            elif e == "block":
                ev["d"] = r.choice((0.02, 0.3))
            elif e == "short":
                ev["n_"] = [r.randrange(1, 8) for _ in range(r.choice((1, 2, 5)))]
            evs.append(ev)
        return {"cfg": dict(gen_link(r), warm=r.choice((0, 0, 200, 250, 254, 255)),
                            ext=r.choice((0.0, 0.0, 0.3, 1.0)), form=r.random() < 0.3,
                            status=[r.choice((0, 0, 0x80, 0x86, 0x94)) for _ in range(3)],
                            restart=not calm and r.random() < 0.2,
                            last=r.choice(("same", "move"))),
                "devs": devs, "ops": ops, "refuse": refuse, "events": evs}

    # -- the run --------------------------------------------------------------
    def execute(self, run):
        w, plan, cfg = run.world, run.plan, run.plan["cfg"]
        s = AppSession(run, devices=0)
        d, h, app = s.d, s.h, s.app
        s_ = self.Session(run, s)
        if not s.startup(cfg["form"]).ok:
            return run.fail("startup", "a healthy adapter could not be started")
        for _ in range(cfg["warm"]):
            app.get_sequence()
        h.run_until(w.now + 1)
        f = s_.f = Faults(w, d, plan["events"], lambda: h.loop)
        t0 = w.now
        f.start(t0)
        d.directive = s_.directive
        for op in plan["ops"]:
            w.at(t0 + op["t"], lambda op=op: h.loop.call_soon(s_.begin, op))
        top = max([x["t"] for x in plan["ops"] + plan["events"] if "t" in x] or [0])
        h.run_until(t0 + top + 1)
        f.armed = []
        s_.calm = True
        # every call ends, every interview comes to its end
        h.run_until(max(w.now, f.quiet_at) + 60 + 25 * 7)
        w.ports.fail_opens.clear()
        h.run_until(w.now + 20)
        for rec in h.recs:
            run.check(rec.done, "no-end", lambda: "%s never ended" % (rec.op,))
        s_.judge_interviews()
        s_.judge_calls()
        s_.judge_reports()
        s_.judge_asks()
        run.check(not w.loop_errors, "loop-error", lambda: "an error reached the event loop: "
                  "%s" % (w.loop_errors[:2],))
        run.nontrivial = w.probes["interviewed"] > 0
        if run.violations:
            return
        # -- afterwards everything works
        d.directive = None
        if not run.check(d.conn is not None and s_.serving(), "unrecovered",
                         "the connection was not recovered"):
            return
        if cfg["restart"]:
            h.run_call({"k": "shutdown"}, lambda rec: app.shutdown(), 10)
            h.run_until(w.now + 1)
            if not run.check(s.startup(cfg["form"]).ok, "restart", "no second start"):
                return
        s_.final = True
        for k, dev in s_.devs.items():
            if k not in s_.sound:
                # what a disturbed interview left behind: the user removes it
                app.devices.pop(zt.EUI64.deserialize(dev.ieee)[0], None)
        s_.joins.clear()
        del h.recs[:]
        t0 = w.now + 1
        for k, dev in s_.devs.items():
            if k not in s_.here:
                continue
            kind = "again" if cfg["last"] == "same" else "move"
            w.at(t0, lambda k=k, kind=kind: h.loop.call_soon(
                s_.begin, {"k": kind, "d": k, "nwk": 0x4000 + k, "i": 900 + k}))
        h.run_until(t0 + 25 * 7)
        s_.judge_interviews()
        for k in s_.here:
            for j, what in enumerate(("read", "active", "lqi")):
                w.after(0.01 * j, lambda k=k, what=what: h.loop.call_soon(
                    s_.begin, {"k": what, "d": k, "n": 0, "i": 950 + k}))
        h.run_until(w.now + 40)
        for rec in h.recs:
            run.check(rec.done, "no-end", lambda: "%s never ended" % (rec.op,))
        s_.judge_calls()

    class Session:
        def __init__(self, run, s):
            self.run, self.w, self.s = run, run.world, s
            self.d, self.h, self.app = s.d, s.h, s.app
            plan = run.plan
            self.devs = {x["k"]: Device(x) for x in plan["devs"]}
            self.mesh = Mesh(self.w, self.d, plan["seed"], plan["cfg"])
            self.here = set()
            self.joins = {}           # device: [(emit record)] since the last interview
            self.refused = []         # when
            self.seen = {}
            self.asks = []
            self.final = False
            self.sound = set()        # devices whose interview was judged
            self.f = None

        # -- faults ------------------------------------------------------------
        def directive(self, fr, k):
            n = self.seen.get(fr.name, 0)
            self.seen[fr.name] = n + 1
            for x in self.run.plan["refuse"]:
                if x["cmd"] == fr.name and x["n"] == n:
                    self.refused.append(self.w.now)
                    if x["how"] == "status":
                        return {"status": 0x10}
                    return {x["how"]: True}
            return None

        def serving(self):
            return any(r.get("kind") == "srsp" and r["conn"] is self.d.conn
                       and r["read"] is not None and r["req"].name == "getDeviceInfo"
                       for r in self.d.sent)

        def up_since(self):
            """Since when the driver serves requests on the present connection."""
            for r in self.d.sent:
                if r.get("kind") == "srsp" and r["conn"] is self.d.conn and r["read"] is not None \
                        and r["req"].name == "getDeviceInfo":
                    return r["read"]
            return None

        def troubled(self, a, b, refusals=True):
            """Whether the connection (or the adapter) was out of order within [a, b]."""
            if self.final:
                return False
            for conn in self.d.conns:
                lost = conn.closed_at
                if lost is not None and lost >= a - 30 and conn.opened_at <= b:
                    return True
            if self.w.fired["adapter-hang"] and self.f.quiet_at + 8 >= a:
                return True
            if any(a - 1 <= t <= b + 1 for t in self.f.losses):
                return True
            up = self.up_since()
            if up is None or up > a:
                return True
            return refusals and any(a - 8 <= t <= b for t in self.refused)

        # -- what happens --------------------------------------------------------
        def announce(self, dev):
            rec = self.d.emit(mt.device_annce(dev.nwk, dev.ieee, 0x8E if dev.router else 0x80),
                              kind="annce")
            self.joins.setdefault(dev.k, []).append(rec)

        def begin(self, op):
            w, d = self.w, self.d
            dev = self.devs.get(op["d"])
            if dev is None:
                return
            k = op["k"]
            if k == "join":
                d.devs[dev.nwk] = dev
                self.here.add(dev.k)
                self.announce(dev)
            elif dev.k not in self.here:
                return
            elif k in ("move", "again"):
                if k == "move":
                    zdev = self.zdev(dev)
                    if zdev is None or zdev.initializing:
                        # (the library above gives up an interview then)
                        return
                    if d.devs.get(op["nwk"], dev) is not dev:
                        return
                    del d.devs[dev.nwk]
                    dev.nwk = op["nwk"]
                    d.devs[dev.nwk] = dev
                    dev.moved.append(w.now)
                self.announce(dev)
            elif k == "report":
                tsn = op["tsn"]
                if op.get("near"):
                    tsn = self.app._send_sequence if hasattr(self.app, "_send_sequence") else tsn
                self.mesh.report(dev, tsn & 0xFF)
            elif k == "ask":
                zdev = self.zdev(dev)
                # (the library above answers no request whose number one of its own
                # has just then)
                tsn = op["tsn"]
                if (tsn - self.app._send_sequence + 64) % 256 < 128:
                    tsn = (tsn + 128) % 256
                ready = (zdev is not None and int(zdev.nwk) == dev.nwk
                         and zdev.status == zigpy.device.Status.ENDPOINTS_INIT
                         and tsn not in dev.asked)
                dev.asked[tsn] = w.now
                rec = self.mesh.ask(dev, tsn)
                if ready and rec is not None:
                    self.asks.append((dev, tsn, rec))
            else:
                self.request(op, dev)

        def dismissed(self, dev, rec):
            """Whether the device was sent away meanwhile."""
            return False

        def zdev(self, dev):
            return self.app.devices.get(zt.EUI64.deserialize(dev.ieee)[0])

        def request(self, op, dev):
            """The library above asks something of a device it knows."""
            zdev = self.zdev(dev)
            if zdev is None or zdev.status != zigpy.device.Status.ENDPOINTS_INIT:
                self.w.probes["not-ready"] += 1
                return
            nwk = dev.nwk
            if int(zdev.nwk) != nwk:
                return
            k = op["k"]
            eps = sorted(dev.eps)
            e = eps[op["n"] % len(eps)]
            if k in ("read", "command"):
                cl = 0x402 if k == "read" else 6
                e = next((x for x in eps if cl in dev.eps[x][2]), None)
                if e is None or e not in zdev.endpoints or cl not in zdev.endpoints[e].in_clusters:
                    return
                cluster = zdev.endpoints[e].in_clusters[cl]

                def fn(rec):
                    if k == "read":
                        return cluster.read_attributes([0])
                    return cluster.command((0, 1, 2)[op["n"] % 3])
            elif k == "active":
                def fn(rec):
                    return zdev.zdo.Active_EP_req(nwk)
            elif k == "node":
                def fn(rec):
                    return zdev.zdo.Node_Desc_req(nwk)
            elif k == "simple":
                def fn(rec):
                    return zdev.zdo.Simple_Desc_req(nwk, e)
            elif k == "lqi":
                def fn(rec):
                    return zdev.zdo.Mgmt_Lqi_req(op["n"] % (len(dev.neighbors) + 1))
            else:
                cl = zdev.endpoints[e].in_clusters if e in zdev.endpoints else None
                if not cl:
                    return
                cluster = cl[sorted(cl)[0]]

                def fn(rec):
                    return cluster.bind() if k == "bind" else cluster.unbind()
            rec = self.h.call(dict(op, nwk=nwk, e=e), fn)
            rec.tag = dev

        # -- verdicts ------------------------------------------------------------
        def judge_interviews(self):
            run, w = self.run, self.w
            for k, recs in self.joins.items():
                dev = self.devs[k]
                read = [r["read"] for r in recs if r["read"] is not None
                        and r["conn"] is not None]
                last = recs[-1]
                if last["read"] is None:
                    continue
                # the first announcement begins it; later ones at a new address begin again
                a, b = read[0], max(read) + 7 * 25
                if self.troubled(a, min(b, w.now), refusals=False) or len(self.refused) > 1:
                    w.probes["interview-troubled"] += 1
                    continue
                zdev = self.zdev(dev)
                if not run.check(zdev is not None, "unknown", lambda: "device %d joined and answered "
                                 "its interview, but is unknown" % k):
                    continue
                run.check(int(zdev.nwk) == dev.nwk, "address", lambda: "device %d is at %04x, known "
                          "at %04x" % (k, dev.nwk, int(zdev.nwk)))
                if not run.check(zdev.status == zigpy.device.Status.ENDPOINTS_INIT, "interview",
                                 lambda: "the interview of device %d did not succeed (%s)" % (
                                     k, zdev.status)):
                    continue
                w.probes["interviewed"] += 1
                self.sound.add(k)
                got = {e: (int(x.profile_id), int(x.device_type), sorted(x.in_clusters),
                           sorted(x.out_clusters))
                       for e, x in zdev.endpoints.items() if e}
                want = {e: (p, t, sorted(i), sorted(o)) for e, (p, t, i, o) in dev.eps.items()}
                run.check(got == want, "endpoints", lambda: "device %d has %s, the interview "
                          "found %s" % (k, want, got))
                run.check(zdev.node_desc.is_valid and zdev.node_desc.serialize()
                          == dev.node_desc(), "node-desc", lambda: "node descriptor of device %d: %s"
                          % (k, zdev.node_desc))
                if any(0 in x[2] for x in dev.eps.values()) and not self.refused:
                    run.check((zdev.manufacturer, zdev.model) == ("Maker%d" % k, "Model%d" % k),
                              "model", lambda: "device %d is known as %r %r" % (
                                  k, zdev.manufacturer, zdev.model))

        def judge_calls(self):
            run = self.run
            used = set()
            for rec in self.h.recs:
                dev = rec.tag
                if dev is None or not rec.done:
                    continue
                op, k = rec.op, rec.op["k"]
                what = "%s (op %d) of device %d" % (k, op["i"], dev.k)
                if rec.exc is not None:
                    moved = op["nwk"] != dev.nwk or any(rec.t0 - 1 <= t <= rec.t1 for t in dev.moved)
                    ok = self.troubled(rec.t0, rec.t1) or moved or self.dismissed(dev, rec)
                    run.check(ok, "failed", lambda: "%s at %.3f ended with %r" % (
                        what, rec.t0, rec.exc))
                    continue
                if k in ("active", "node", "simple", "lqi", "bind", "unbind") \
                        and run.world.fired["adapter-hang"] and rec.t0 <= self.f.quiet_at + 15 \
                        and not self.final:
                    # (one given up while the adapter hung leaves its answer to the next:
                    # the answers carry nothing to tell them apart)
                    continue
                run.world.probes["answered"] += 1
                res = rec.res
                if k == "read":
                    value = res[0].get(0)
                    given = [v for xs in dev.given.values() for t, v in xs
                             if rec.t0 <= t <= rec.t1]
                    run.check(value in given and (dev.k, value) not in used, "wrong-answer",
                              lambda: "%s returned %r; the device gave %s" % (what, res, given))
                    used.add((dev.k, value))
                elif k == "command":
                    cmd = (0, 1, 2)[op["n"] % 3]
                    given = [v for xs in dev.given.values() for t, v in xs
                             if rec.t0 <= t <= rec.t1]
                    run.check(int(res[0]) == cmd and int(res[1]) in given, "wrong-answer",
                              lambda: "%s returned %r; the device gave %s" % (what, res, given))
                elif k == "active":
                    run.check(int(res[0]) == 0 and int(res[1]) == op["nwk"]
                              and [int(x) for x in res[2]] == sorted(dev.eps), "wrong-answer",
                              lambda: "%s returned %r" % (what, res))
                elif k == "node":
                    run.check(int(res[0]) == 0 and int(res[1]) == op["nwk"]
                              and res[2].serialize() == dev.node_desc(), "wrong-answer",
                              lambda: "%s returned %r" % (what, res))
                elif k == "simple":
                    run.check(int(res[0]) == 0 and int(res[1]) == op["nwk"]
                              and res[2].serialize()[1:] == dev.simple_desc(op["e"]), "wrong-answer",
                              lambda: "%s returned %r" % (what, res))
                elif k == "lqi":
                    start = op["n"] % (len(dev.neighbors) + 1)
                    part = dev.neighbors[start:start + 2]
                    nb = res[1]
                    run.check(int(res[0]) == 0 and nb.serialize() == bytes(
                        [len(dev.neighbors), start, len(part)]) + b"".join(part),
                        "wrong-answer", lambda: "%s from %d returned %r" % (what, start, res))
                else:
                    run.check(int(res[0]) == 0, "wrong-answer", lambda: "%s returned %r" % (
                        what, res))

        def judge_reports(self):
            run = self.run
            for k, recs in self.mesh.reports.items():
                zdev = self.zdev(self.devs[k])
                if zdev is None or k not in self.sound:
                    continue
                rec, value, nwk, e = recs[-1]
                if rec["read"] is None or e not in zdev.endpoints \
                        or self.troubled(rec["read"], rec["read"]):
                    continue
                done = [t for t, n, i in self.h.joins if i == self.devs[k].ieee]
                if not done or rec["read"] < done[0] + 7 * 25:
                    # (reports during the interview are not for an endpoint known yet)
                    if not (self.ready_at(k) or 1e9) < rec["read"]:
                        continue
                run.world.probes["report-judged"] += 1
                got = zdev.endpoints[e].in_clusters[0x405].get(0)
                run.check(got == value, "report", lambda: "device %d last reported %d, known is %r"
                          % (k, value, got))

        def ready_at(self, k):
            """When the device was surely interviewed (the first call made to it then)."""
            return min([rec.t0 for rec in self.h.recs if rec.tag is self.devs[k]], default=None)

        def judge_asks(self):
            for dev, tsn, rec in self.asks:
                if dev.k not in self.sound:
                    continue
                if rec["read"] is None or self.troubled(rec["read"], rec["read"] + 1) \
                        or any(rec["t"] - 1 <= t <= rec["read"] + 2 for t in dev.moved):
                    continue
                self.run.check(any(n == tsn and c == 1 for t, n, c in dev.told), "unanswered",
                               lambda: "device %d asked for the time (%d) and was not answered: %s"
                               % (dev.k, tsn, dev.told))


PROPS = {"P23": P23()}
