"""P10 configured as asked, P11 restarts do no harm, P12 endpoints, P20 startup ends."""
import struct

import zigpy.config

from .. import core, dongle, host, mt
from ..mt import u16
from . import ASSUME, REAL_ALL, STUB, appkit
from .appkit import gen_link, ieee_of, make_dongle

EPS = {  # endpoint: profile, device, inputs, outputs
    1: (0x0104, 5, (), ()), 2: (0x0101, 5, (), ()), 3: (0x0106, 5, (), ()),
    4: (0x0107, 5, (), ()), 5: (0x0108, 5, (), ()), 6: (0x0109, 5, (), ()),
    8: (0x0104, 5, (), ()), 11: (0x0104, 0x0400, (), (0x0500, 0x0502)),
    0x6E: (0x0104, 5, (), ()), 12: (0xC05E, 5, (), ()), 13: (0x0104, 5, (0x0019,), ()),
    47: (0x0104, 5, (), ()), 242: (0xA1E0, 5, (), ()),
}
GROUP = (242, 0x0B84)
TCLK = b"\xff" * 8 + b"ZigBeeAlliance09" + b"\x00" * 8

READS = ("osalNvRead", "readConfiguration")
STEPS = ("ping", "version", "osalNvRead", "osalNvWrite", "readConfiguration",
         "writeConfiguration", "osalNvItemInit", "bdbSetChannel", "bdbStartCommissioning",
         "startupFromApp", "getDeviceInfo", "activeEpReq", "register", "extFindGroup",
         "extAddGroup")


# ---------------------------------------------------------------------------
def gen_settings(r):
    """A network configuration as a user writes it (plain data)."""
    s = {}
    if r.random() < 0.8:
        s["pan_id"] = r.choice((0x1A62, 0x1A63, r.randrange(1, 0xFFFE), 1, 0xFFFE, 0xFF00,
                                0x00FF, 0))
    if r.random() < 0.7:
        s["ext"] = [r.randrange(256) for _ in range(8)]
    if r.random() < 0.7:
        s["key"] = [r.randrange(256) for _ in range(16)]
    if r.random() < 0.7:
        s["channels"] = sorted(r.sample(range(11, 27), r.choice((1, 1, 2, 5, 16))))
    return s


def vary(r, s):
    """Another configuration that differs in one item only (or in several)."""
    o = dict(s)
    k = r.choice(("pan_id", "ext", "key", "channels", "all"))
    n = gen_settings(r)
    if k == "all":
        return n
    if k == "pan_id":
        o[k] = (wanted(s)["panid"][0] | wanted(s)["panid"][1] << 8) ^ r.choice((1, 0x100, 0x8000))
        o[k] = 0x2222 if o[k] in (0, 0xFFFF) else o[k]
    elif k == "ext":
        o[k] = [x for x in wanted(s)["extpan"]]
        o[k][r.randrange(8)] ^= 1 << r.randrange(8)
    elif k == "key":
        o[k] = [x for x in wanted(s)["key"]]
        o[k][r.randrange(16)] ^= 1 << r.randrange(8)
    else:
        o[k] = n.get(k, [12])
    return o


def nwk_config(s):
    out = {}
    if "pan_id" in s:
        out["pan_id"] = s["pan_id"]
    if "ext" in s:
        out["extended_pan_id"] = ":".join("%02x" % b for b in reversed(s["ext"]))
    if "key" in s:
        out["key"] = list(s["key"])
    if "channels" in s:
        out["channels"] = list(s["channels"])
    return out


def wanted(s):
    mask = 0
    for c in s.get("channels", [15, 20, 25]):
        mask |= 1 << c
    return {"panid": u16(s.get("pan_id", 0x1A62)),
            "extpan": bytes(s.get("ext", [0xDD] * 8)),
            "key": bytes(s.get("key", [1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])),
            "channels": struct.pack("<I", mask)}


def put_configured(d, s, formed=True):
    x = wanted(s)
    d.configured(panid=struct.unpack("<H", x["panid"])[0], extpan=x["extpan"], key=x["key"],
                 channels=struct.unpack("<I", x["channels"])[0], formed=formed)


def gen_cfg(r):
    cfg = gen_link(r)
    cfg["state_delay"] = r.choice((0.05, 0.3, 2.0, 12.0, 45.0))
    cfg["reset_delay"] = r.choice((0.05, 0.4, 2.0, 12.0, 27.0))
    cfg["ind_first"] = r.random() < 0.15
    cfg["effect_late"] = r.random() < 0.3
    return cfg


def gen_step_faults(r, n, statuses=(1, 2, 2, 0x0A, 0x0A, 0x10, 0xC8, 0xFF), slow=True, depth=45):
    out = []
    for _ in range(n):
        f = {}
        if r.random() < 0.55:
            f["cmd"] = r.choice(STEPS)
            f["nth"] = r.choice((0, 0, 0, 1, 2, r.randrange(13)))
            if f["cmd"] in ("osalNvWrite", "register"):
                f["nth"] = r.randrange(14)
        elif depth > 20 and r.random() < 0.4:
            f["past"] = r.choice(("register", "extFindGroup", "extFindGroup", "extAddGroup",
                                  "extAddGroup", "osalNvItemInit", "startupFromApp",
                                  "bdbSetChannel", "activeEpReq"))
            f["j"] = r.randrange(5)
        else:
            f["k"] = r.randrange(depth)
        x = r.random()
        if x < 0.4:
            f["status"] = r.choice(statuses + (r.randrange(3, 256),))
        elif x < 0.6:
            f["mute"] = True
        elif x < 0.75:
            f["ignore"] = True
        else:
            f["delay"] = r.choice((0.5, 2.0, 5.5)) if slow else 0.5
        out.append(f)
    return out


def gen_crash(r, who=None):
    c = {"who": who or r.choice(("host", "host", "adapter", "line"))}
    x = r.random()
    if x < 0.5:
        c["on"], c["n"] = "frame", r.randrange(1, 46)
        c["lag"] = r.choice((0.0, 0.0005, 0.0015, 0.002, 0.006, 0.01, 0.5))
    elif x < 0.7:
        c["on"], c["n"] = "write", r.randrange(1, 12)     # the n-th durable change
        c["lag"] = r.choice((0.0, 0.0, 0.005))
    elif x < 0.85:
        c["on"], c["n"] = "read", r.randrange(1, 46)
        c["lag"] = 0.0
    else:
        c["on"], c["t"] = "time", round(r.random() * r.choice((1.2, 3.0, 60.0)), 4)
    c["gap"] = r.choice((0.0, 0.3, 3.0, 9.0))
    return c


class Attempt:
    def __init__(self):
        self.t0 = self.t1 = None
        self.rec = None
        self.crashed = None
        self.lost = False
        self.frames = []
        self.sent0 = 0


class Starter:
    """Runs starts of the driver, each possibly in a new process, on one adapter."""

    def __init__(self, run):
        self.run, self.w, self.plan = run, run.world, run.plan
        cfg = self.cfg = run.plan["cfg"]
        d = self.d = make_dongle(self.w, run.plan)
        d.state_delay = cfg.get("state_delay", 0.3)
        d.reset_delay = cfg.get("reset_delay", 0.4)
        d.ind_before_srsp = cfg.get("ind_first", False)
        d.devs[0x1001] = dongle.Dev(0x1001, ieee_of(1))
        self.h = None
        self.known = None
        self.attempts = []
        self.cur = None
        self.steps = 0
        self.per = {}
        d.directive = self.directive
        d.on_host_frame.append(self.frame)
        self.op = {}
        real_read, real_write = d.host_read, d._nv_write

        def read(ser, data):
            n = len(ser.outstream)
            real_read(ser, data)
            for _ in range(n - len(ser.outstream)):
                self.count("read")
        d.host_read = read

        def nv_write(*a):
            n = len(d.nv_writes)
            res = real_write(*a)
            if len(d.nv_writes) > n:
                self.count("write")
            return res
        d._nv_write = nv_write
        self.counts = {}

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1
        c = self.op.get("crash")
        if c and c.get("on") == what and c["n"] == self.counts[what]:
            self.w.after(c.get("lag", 0.0), self.crash, c, self.cur)

    def crash(self, c, cur):
        if cur is not self.cur or cur.t1 is not None:
            return
        w, d = self.w, self.d
        if c["who"] == "host":
            w.fired["host-crash"] += 1
            w.log("host-crash")
            cur.crashed = w.now
            raise core.HostCrash()
        cur.lost, cur.lost_at = True, w.now
        if c["who"] == "adapter":
            w.fired["adapter-power-loss"] += 1
            d.unplug()
            w.after(c["gap"], d.plug)
        else:
            w.fired["line-drop"] += 1
            d.drop_line()

    def frame(self, fr):
        if self.cur is not None:
            self.cur.frames.append(fr)
        self.count("frame")
        for nz in self.op.get("noise", ()):
            if nz.get("cmd") == fr.name:
                self.w.fired["unsolicited"] += 1
                self.w.after(nz["lag"], self.d.emit, bytes.fromhex(nz["raw"]))

    def directive(self, fr, k):
        n = self.steps
        self.steps += 1
        m = self.per.get(fr.name, 0)
        self.per[fr.name] = m + 1
        for f in self.op.get("faults", ()):
            if f.get("k", -1) == n or (f.get("cmd") == fr.name and f.get("nth") == m) \
                    or self.just_past(f, fr.name):
                act = {x: f[x] for x in ("status", "mute", "ignore", "delay") if x in f}
                if "status" in act and fr.name in ("ping", "version", "activeEpReq"):
                    del act["status"]
                if "hasconf" in f and fr.name == "osalNvRead":
                    pass
                fr.tag = act
                self.w.probes["fault-"+fr.name+("-late" if "extFindGroup" in self.per else "")] += 1
                return act
        return {}

    def just_past(self, f, name):
        """This is the j-th command after the first one of the name in the plan."""
        if f.get("past") not in self.per or f["past"] == name and self.per[name] == 1:
            return False
        f["_n"] = f.get("_n", 0) + 1
        return f["_n"] == f["j"] + 1

    def new_process(self, settings):
        h = self.h = host.AppHost(self.w, host.app_config(nwk=nwk_config(settings)))
        h.write_first = self.cfg.get("write_first", False)
        h.boot()
        h.create()
        if self.known is not None:
            h.add_device(self.known, self.d.ieee, initialized=False)
        return h

    def die(self):
        """The process is gone: its ports are closed by the system."""
        for ser in self.w.ports.opens:
            if not ser.dead:
                ser.dead = True
                ser.is_open = False
                ser.closed_at = self.w.now
        self.d.conn = None
        self.w.loop = None

    def attempt(self, op, settings, form=True):
        """One start. A new process unless the op keeps it."""
        w, d = self.w, self.d
        fresh = self.h is None or not op.get("keep")
        if fresh:
            if self.h is not None and not (self.attempts and self.attempts[-1].crashed):
                self.die()
            self.new_process(settings)
        self.op = op
        self.counts = {}
        self.steps = 0
        self.per = {}
        d.actions.clear()
        for f in op.get("reset_faults", ()):
            d.actions.append(dict({x: f[x] for x in ("mute", "delay") if x in f},
                                  cmd="resetReq", nth=len(d.resets) + f["nth"]))
        cur = self.cur = Attempt()
        self.attempts.append(cur)
        cur.settings = settings
        cur.prior_eps = None
        cur.t0 = w.now
        cur.sent0 = len(d.sent)
        cur.resets0, cur.writes0, cur.formed0 = len(d.resets), len(d.nv_writes), len(d.formed)
        cur.rcvd0 = len(d.rcvd)
        c = op.get("crash")
        if c and c["on"] == "time":
            w.at(w.now + c["t"], self.crash, c, cur)
        for nz in op.get("noise", ()):
            if "t" in nz:
                w.fired["unsolicited"] += 1
                w.at(w.now + nz["t"], d.emit, bytes.fromhex(nz["raw"]))
        h = self.h
        try:
            rec = cur.rec = h.call({"k": "startup"}, lambda rec: h.app.startup(form))
            while not rec.done:
                if w.now > cur.t0 + 900:
                    break
                self.wait(rec, 30)
            cur.t1 = rec.t1 if rec.done else None
        except core.HostCrash:
            cur.t1 = w.now
            self.die()
            return cur
        return cur

    def wait(self, rec, limit):
        import asyncio

        async def go():
            await asyncio.wait({rec.task}, timeout=limit)
        self.h.loop.run_until_complete(go())

    def after(self, cur, op):
        """What the caller does next: as zigpy does, shut down after a failure."""
        w = self.w
        self.op = {}
        if cur.crashed:
            w.now += op.get("pause", 0.1)
            # the adapter goes on alone meanwhile
            self.h = None
            return
        h = self.h
        if not cur.rec.done:
            return
        if not cur.rec.ok or op.get("stop", True):
            h.run_call({"k": "shutdown"}, lambda rec: h.app.shutdown(), 5)
        h.run_until(w.now + op.get("pause", 0.1))
        if op.get("power"):
            w.fired["adapter-power-cycle"] += 1
            self.d.unplug()
            w.after(0.2, self.d.plug)
            h.run_until(w.now + 0.5)
        while not self.d.present:
            h.run_until(w.now + 0.5)


def judge_configured(run, s, cur):
    d, want = s.d, wanted(cur.settings)
    nv = d.nv
    where = "product %d" % d.product
    run.check(nv.get(dongle.NV_HASCONF[d.product]) == b"\x55", "no-marker",
              lambda: "%s: started, but the marker of a finished configuration reads %r"
              % (where, nv.get(dongle.NV_HASCONF[d.product])))
    run.check(nv[dongle.NV_CHANLIST] == want["channels"], "channels",
              lambda: "%s: channels stored %s, configured %s" % (
                  where, nv[dongle.NV_CHANLIST].hex(), want["channels"].hex()))
    run.check(nv[dongle.NV_KEY] == want["key"], "key",
              lambda: "%s: key stored %s, configured %s" % (where, nv[dongle.NV_KEY].hex(),
                                                            want["key"].hex()))
    free = d.product != dongle.Z12 and nv[dongle.NV_PANID] == b"\xff\xff"
    if not free:
        run.check(nv[dongle.NV_PANID] == want["panid"], "panid",
                  lambda: "%s: PAN id stored %s, configured %s" % (
                      where, nv[dongle.NV_PANID].hex(), want["panid"].hex()))
        run.check(nv[dongle.NV_EXTPAN] == want["extpan"], "extpan",
                  lambda: "%s: extended PAN id stored %s, configured %s" % (
                      where, nv[dongle.NV_EXTPAN].hex(), want["extpan"].hex()))
    for item, val, name in ((dongle.NV_LOGICAL, b"\x00", "role"),
                            (dongle.NV_DIRECTCB, b"\x01", "direct callbacks"),
                            (dongle.NV_KEYS_ENABLE, b"\x00", "key distribution"),
                            (dongle.NV_STARTUP, b"\x00", "startup option")):
        run.check(nv[item] == val, "settings", lambda: "%s: %s stored %s, expected %s"
                  % (where, name, nv[item].hex(), val.hex()))
    if d.product == dongle.Z12:
        run.check(nv[dongle.NV_TCLK] == TCLK, "link-key", lambda: "link key stored %s"
                  % nv[dongle.NV_TCLK].hex())
    run.check(d.state == dongle.ST_COORD, "not-running",
              lambda: "started, but the adapter is in state %d" % d.state)
    nib = d.nib
    if run.check(nib is not None, "no-network", "started, but there is no network"):
        for k in ("panid", "extpan", "key", "channels"):
            if free and k in ("panid", "extpan"):
                continue
            run.check(nib[k] == want[k], "network-" + k,
                      lambda: "%s: the network runs with %s %s, configured %s"
                      % (where, k, nib[k].hex(), want[k].hex()))


class P10:
    id = "P10"
    RUNS = {"quick": 7000, "thorough": 600000}
    REAL, STUB = REAL_ALL, STUB
    ASSUME = ASSUME + [
        "a write the adapter acknowledged is durable, one it did not execute has no effect",
        "clearing the network state (startup option 2) keeps configuration items"]
    RULE = ("Seeded: 1 to 5 starts with 1 to 3 configurations (also differing in one bit) on "
            "a factory-new, configured or half-configured adapter, interrupted by host "
            "crashes, power loss, line drops at chosen commands, durable writes or times, "
            "with refused, lost and slow answers; the last start undisturbed. Non-trivial: "
            "an initialisation was interrupted or a configuration changed.")
    SIMPLE = dict(appkit.SIMPLE_LINK, state_delay=0.3, reset_delay=0.4, ind_first=False,
                  effect_late=False)

    def gen(self, r, tier, i):
        cfg = gen_cfg(r)
        base = gen_settings(r)
        cfg["settings"] = [base, vary(r, base), gen_settings(r)]
        cfg["prior"] = r.choice(("factory", "factory", "set", "unformed", "random-pan",
                                 "one-off", "one-off"))
        if cfg["prior"] == "one-off":
            cfg["off"] = [r.choice(("marker", "channels", "keydist", "keydist", "key", "panid",
                                    "extpan")), r.getrandbits(16)]
        ops = []
        for k in range(r.choice((0, 0, 1, 1, 2, 3, 4))):
            op = {"set": r.choice((0, 0, 1, 2)), "pause": r.choice((0.05, 1.0, 8.0))}
            x = r.random()
            if x < 0.65:
                op["crash"] = gen_crash(r)
            if x > 0.5:
                op["faults"] = gen_step_faults(r, r.choice((1, 1, 2)))
            if r.random() < 0.15:
                op["reset_faults"] = [{"nth": r.randrange(2), r.choice(("mute", "delay")): 20.0}]
            if r.random() < 0.2:
                op["power"] = True
            if r.random() < 0.2:
                op["stop"] = False
            if r.random() < 0.15:
                op["busy_air"] = True         # the configured channels cannot be used
            ops.append(op)
        ops.append({"set": r.choice((0, 0, 1)), "pause": 0.5, "last": True})
        return {"cfg": cfg, "ops": ops}

    def execute(self, run):
        w, plan, cfg = run.world, run.plan, run.plan["cfg"]
        s = Starter(run)
        d = s.d
        if cfg["prior"] in ("set", "unformed"):
            put_configured(d, cfg["settings"][2], formed=cfg["prior"] == "set")
        elif cfg["prior"] == "random-pan":
            put_configured(d, cfg["settings"][0], formed=False)
            d.nv[dongle.NV_PANID] = b"\xff\xff"
            d.form()
        elif cfg["prior"] == "one-off":
            # as configured, but for one item (written by another program, say)
            put_configured(d, cfg["settings"][0])
            what, x = cfg["off"]
            item = {"marker": dongle.NV_HASCONF[d.product], "channels": dongle.NV_CHANLIST,
                    "keydist": dongle.NV_KEYS_ENABLE, "key": dongle.NV_KEY,
                    "panid": dongle.NV_PANID, "extpan": dongle.NV_EXTPAN}[what]
            val = bytearray(d.nv[item])
            val[x % len(val)] ^= 1 if what == "keydist" else 1 << (x >> 8) % 8
            if what == "panid" and val == b"\xff\xff":
                val = bytearray(b"\x34\x12")
            d.nv[item] = bytes(val)
            d.form()
            w.probes["one-item-off-" + what] += 1
        ok = 0
        for op in plan["ops"]:
            settings = cfg["settings"][op["set"]]
            d.busy_air = bool(op.get("busy_air"))
            cur = s.attempt(op, settings)
            if cur.rec.ok and not cur.crashed and not cur.lost:
                ok += 1
                judge_configured(run, s, cur)
            elif op.get("last"):
                run.check(False, "last-start", lambda: "an undisturbed start ended with %r"
                          % (cur.rec.exc if cur.rec.done else "nothing",))
            if run.violations:
                return
            s.after(cur, op)
        w.probes["successful-starts-judged"] += ok
        mid = sum(1 for c in s.attempts if (c.crashed or c.lost or not c.rec.ok)
                  and len(d.nv_writes) > c.writes0)
        w.probes["starts-interrupted"] += sum(1 for c in s.attempts
                                              if c.crashed or c.lost or not c.rec.ok)
        run.nontrivial = len(plan["ops"]) > 1 and (mid > 0 or len(
            {str(wanted(c.settings)) for c in s.attempts}) > 1)


class P11:
    id = "P11"
    RUNS = {"quick": 5000, "thorough": 600000}
    REAL, STUB = REAL_ALL, STUB
    ASSUME = ASSUME + [
        "the adapter does not deny the marker of its configuration (status 2) while it has it"]
    RULE = ("Seeded: 1 to 6 starts with the configuration the adapter already has, after "
            "orderly stops, host crashes, power cycles and line drops, with refused, lost and "
            "slow answers and unsolicited traffic, followed by losses of the connection and "
            "recoveries. Non-trivial: a start was disturbed or there were several.")
    SIMPLE = P10.SIMPLE

    def gen(self, r, tier, i):
        cfg = gen_cfg(r)
        cfg["settings"] = [gen_settings(r)]
        cfg["random_pan"] = r.random() < 0.15 and cfg["product"] != 0
        cfg["running"] = r.random() < 0.5
        ops = []
        for k in range(r.choice((1, 2, 2, 3, 4, 6))):
            op = {"set": 0, "pause": r.choice((0.05, 1.0, 8.0)), "keep": r.random() < 0.3}
            if r.random() < 0.4:
                op["crash"] = gen_crash(r)
            if r.random() < 0.5:
                op["faults"] = gen_step_faults(r, r.choice((1, 1, 2, 3)),
                                               statuses=(1, 0x0A, 0x10, 0xC8, 0xFF), depth=14)
            if r.random() < 0.4:
                op["noise"] = [{"t": round(1 + r.random() * 0.3, 4),
                                "raw": appkit.gen_unsolicited(r).hex()}
                               for _ in range(r.choice((1, 2, 4)))]
            op["power"] = r.random() < 0.3
            op["stop"] = r.random() < 0.8
            if r.random() < 0.3:
                op["losses"] = [round(r.random() * 8, 4) for _ in range(r.choice((1, 2)))]
            ops.append(op)
        return {"cfg": cfg, "ops": ops}

    def execute(self, run):
        w, plan, cfg = run.world, run.plan, run.plan["cfg"]
        s = Starter(run)
        d = s.d
        put_configured(d, cfg["settings"][0], formed=not cfg["random_pan"])
        if cfg["random_pan"]:
            d.nv[dongle.NV_PANID] = b"\xff\xff"
            d.form()
            d.formed.clear()
        if cfg["running"]:
            d.state = dongle.ST_COORD
        nv, nib = dict(d.nv), dict(d.nib)
        for op in plan["ops"]:
            cur = s.attempt(op, cfg["settings"][0])
            if not cur.crashed and op.get("losses"):
                for t in op["losses"]:
                    w.at(w.now + t, self.drop, w, d)
                s.h.run_until(w.now + 30)
            bad = [fr for fr in d.rcvd[cur.rcvd0:] if fr.name in (
                "resetReq", "osalNvWrite", "osalNvItemInit", "writeConfiguration",
                "bdbStartCommissioning", "bdbSetChannel")]
            run.check(not bad, "disturbed", lambda: "the adapter has the configured settings; "
                      "this start sent %s (outcome %s; faults %s)" % (
                          [repr(f) for f in bad[:4]], cur.rec.outcome(), op.get("faults")))
            run.check(len(d.formed) == cur.formed0 and d.nib == nib, "network-formed",
                      "the network was formed anew")
            run.check(d.nv == nv, "nv-changed", "non-volatile items changed")
            if run.violations:
                return
            s.after(cur, op)
        run.nontrivial = len(s.attempts) > 1 or not s.attempts[0].rec.ok
        w.probes["starts"] += len(s.attempts)
        w.probes["starts-failed-in-checking"] += sum(1 for c in s.attempts
                                                     if c.rec.done and not c.rec.ok)

    @staticmethod
    def drop(w, d):
        w.fired["line-drop"] += 1
        d.drop_line()


class P12:
    id = "P12"
    RUNS = {"quick": 9000, "thorough": 800000}
    REAL, STUB = REAL_ALL, STUB
    ASSUME = ASSUME
    RULE = ("Seeded: starts on a new, configured or running adapter with any set of endpoints "
            "and the group already registered, after interrupted starts, with reports of "
            "other devices (endpoint lists among them) at chosen moments, slow answers and "
            "reordered indications. Non-trivial: something was already registered or a report "
            "came during registration.")
    SIMPLE = P10.SIMPLE

    def gen(self, r, tier, i):
        cfg = gen_cfg(r)
        cfg["state_delay"] = r.choice((0.05, 0.3, 2.0))
        cfg["reset_delay"] = r.choice((0.05, 0.4, 2.0))
        cfg["settings"] = [gen_settings(r)]
        cfg["prior"] = r.choice(("factory", "set", "running", "running", "running"))
        if cfg["prior"] == "running":
            k = r.choice((0, 1, 6, 12, 13))
            cfg["eps"] = sorted(r.sample(sorted(EPS), k))
            if r.random() < 0.2:
                cfg["eps"] += [r.choice((20, 33, 200))]
            cfg["group"] = r.random() < 0.5
        cfg["ep_delay"] = r.choice((0.0, 0.01, 0.5, 3.0))
        cfg["ieee"] = [r.randrange(256) for _ in range(8)]
        ops = []
        for k in range(r.choice((0, 0, 1, 2))):
            op = {"set": 0, "pause": 0.1}
            if r.random() < 0.7:
                op["crash"] = gen_crash(r, r.choice(("host", "host", "line")))
                op["crash"]["n"] = r.randrange(10, 46)
            else:
                op["faults"] = gen_step_faults(r, 1)
            ops.append(op)
        if r.random() < 0.25:
            # the same process is started again, perhaps with another adapter
            ops.append({"set": 0, "pause": 0.1})
            again = True
        else:
            again = False
        noise = []
        for k in range(r.choice((0, 1, 1, 2, 4))):
            if r.random() < 0.6:
                eps = r.sample(sorted(EPS), r.choice((0, 1, 5, 13)))
                raw = mt.named(2, "activeEpRsp", u16(r.choice((0x1001, 0x7777)))
                               + bytes([r.choice((0, 0, 0x80))]) + u16(0x1001)
                               + bytes([len(eps)]) + bytes(eps))
            else:
                raw = appkit.gen_unsolicited(r)
            nz = {"raw": raw.hex()}
            if r.random() < 0.7:
                nz["cmd"] = r.choice(("activeEpReq", "activeEpReq", "getDeviceInfo", "version",
                                      "register"))
                nz["lag"] = r.choice((0.0, 0.001, 0.002, 0.004, 0.008, 0.02, 0.4))
            else:
                nz["t"] = round(r.random() * 2, 4)
            noise.append(nz)
        last = {"set": 0, "pause": 0.1, "last": True, "noise": noise}
        if r.random() < 0.3:
            last["faults"] = [{"k": r.randrange(40), "delay": r.choice((0.3, 2.0, 5.0))}]
        if again:
            last["keep"] = True
        if r.random() < (0.6 if again else 0.2):
            last["swap"] = self.gen_swap(r)
        if r.random() < 0.15:
            last["recover"] = {"gap": r.choice((0.5, 4.0, 12.0))}
            if r.random() < 0.7:
                last["recover"]["swap"] = self.gen_swap(r)
        ops.append(last)
        if r.random() < 0.2:
            cfg["known"] = r.choice((0, 0x1234))     # the adapter as the database has it
        return {"cfg": cfg, "ops": ops}

    def gen_swap(self, r):
        return {"ieee": [r.randrange(256) for _ in range(8)] if r.random() < 0.8 else None,
                "blank": r.random() < 0.5,
                "eps": sorted(r.sample(sorted(EPS), r.choice((0, 1, 6)))),
                "group": r.random() < 0.3}

    def swap(self, run, s, sw):
        """Another adapter takes the place of this one."""
        d = s.d
        run.world.fired["adapter-exchanged"] += 1
        d.unplug()
        if sw["ieee"]:
            d.ieee = bytes(sw["ieee"])
        if sw["blank"]:
            d.nv = dict(self.blank)
            d.nib = None
        d.plug()
        d.eps.clear()
        d.groups.clear()
        for e in sw["eps"]:
            d.eps[e] = EPS[e]
        if sw["group"]:
            d.groups.add(GROUP)

    def execute(self, run):
        w, plan, cfg = run.world, run.plan, run.plan["cfg"]
        s = Starter(run)
        d = s.d
        d.ieee = bytes(cfg["ieee"])
        self.blank = dict(d.nv)
        if cfg["prior"] != "factory":
            put_configured(d, cfg["settings"][0])
        if cfg["prior"] == "running":
            d.state = dongle.ST_COORD
            for e in cfg["eps"]:
                d.eps[e] = EPS.get(e, (0x0104, 5, (), ()))
            if cfg["group"]:
                d.groups.add(GROUP)
        real = d.ota

        def ota(name, dst, data):
            res = real(name, dst, data)
            if name == "activeEpReq" and dst == 0:
                # (the list is the one of the moment it is sent)
                def now():
                    if d.conn is not None:
                        d.conn.__dict__.setdefault("listed", []).append(
                            (set(d.eps), len(d.rcvd)))
                    return real(name, dst, data)[0]
                return now, cfg["ep_delay"]
            return res
        d.ota = ota
        for op in plan["ops"]:
            n0 = len(d.rcvd)
            if op.get("swap"):
                self.swap(run, s, op["swap"])
            running, grp = d.state == dongle.ST_COORD, GROUP in d.groups
            s.known = cfg.get("known")
            cur = s.attempt(op, cfg["settings"][0])
            if op.get("last") and not cur.rec.ok:
                run.check(False, "last-start", lambda: "an undisturbed start ended with %r"
                          % (cur.rec.exc if cur.rec.done else "nothing",))
                return
            if cur.rec.ok and not cur.crashed and not cur.lost:
                self.judge(run, s, cur, op)
                if running:
                    adds = [f for f in d.rcvd[n0:] if f.name == "extAddGroup"]
                    run.check(not (grp and adds) or bool(op.get("faults")), "group-again",
                              "the group was joined though it already was")
                self.judge_self(run, s)
                rc = op.get("recover")
                if rc and not run.violations:
                    # ... and the same after an outage, perhaps with another adapter
                    w.fired["unplug"] += 1
                    w.probes["recoveries-judged"] += 1
                    cur = s.cur = Attempt()
                    d.unplug()
                    s.h.run_until(w.now + rc["gap"])
                    if rc.get("swap"):
                        self.swap(run, s, rc["swap"])
                    else:
                        d.plug()
                    cur.t0 = w.now
                    s.h.run_until(w.now + 120)
                    self.judge(run, s, cur, op)
                    self.judge_self(run, s)
                    continue
            if run.violations:
                return
            s.after(cur, op)
        noise = [nz for op in plan["ops"] for nz in op.get("noise", ())]
        run.nontrivial = bool(cfg.get("eps")) or bool(noise)
        w.probes["endpoint-list-of-another-device-during-registration"] += sum(
            1 for nz in noise
            if nz.get("cmd") == "activeEpReq" and nz["raw"][6:8] == "85")

    def judge_self(self, run, s):
        d, app = s.d, s.h.app
        run.check(bytes(app.ieee.serialize()) == d.ieee and int(app.nwk) == 0,
                  "own-address", lambda: "own address %s %r, the adapter's is %s"
                  % (app.ieee, app.nwk, d.ieee.hex()))
        co = app.devices.get(app.ieee)
        run.check(co is not None and int(co.nwk) == 0
                  and bytes(co.ieee.serialize()) == d.ieee, "no-coordinator",
                  lambda: "coordinator entry %r" % ((co and (co.nwk, co.ieee)),))
        run.check(co is None or getattr(co, "model", None) == "ZNP Coordinator",
                  "no-coordinator", "the coordinator is listed as another device")

    def judge(self, run, s, cur, op):
        d = s.d
        miss = [e for e in EPS if e not in d.eps]
        run.check(not miss, "endpoint-missing", lambda: "started, endpoints %s are not "
                  "registered" % miss)
        for e, (prof, dev, inc, outc) in EPS.items():
            got = d.eps.get(e)
            run.check(got is None or (got[0], tuple(got[2]), tuple(got[3])) == (
                prof, tuple(inc), tuple(outc)), "endpoint-wrong",
                lambda: "endpoint %d registered as %s, expected %s" % (e, got, EPS[e]))
        run.check(GROUP in d.groups, "no-group", "the Green Power group is not joined")
        # (the answer to the request of a crashed process may come in this one)
        listed = getattr(d.conn, "listed", [])
        if listed and not any("status" in x or "mute" in x or "ignore" in x
                              for x in op.get("faults", ())):
            regs = [sorted(f.data[0] for f in d.rcvd[n0:] if f.name == "register")
                    for before, n0 in listed]
            run.check(any(x == sorted(set(EPS) - before)
                          for x, (before, n0) in zip(regs, listed)), "registered-again",
                      lambda: "already registered %s; registered now %s" % (
                          [sorted(x[0]) for x in listed], regs))
        bad = [x for x in d.bad_commands if x[0] >= cur.t0]
        run.check(not bad, "malformed", lambda: "malformed command %r: %s" % bad[0][1:])


class P20:
    id = "P20"
    RUNS = {"quick": 14000, "thorough": 600000}
    REAL, STUB = REAL_ALL, STUB
    ASSUME = ASSUME
    RULE = ("Seeded: starts on a new, configured or running adapter with 1 to 4 failing steps "
            "(refused, lost, unanswered, slow), lost reset and network indications, hangs, "
            "unplugs and failing opens at chosen moments; then a start on the healthy "
            "adapter. Non-trivial: the first start failed.")
    SIMPLE = P10.SIMPLE

    def gen(self, r, tier, i):
        cfg = gen_cfg(r)
        cfg["settings"] = [gen_settings(r)]
        cfg["prior"] = r.choice(("factory", "set", "set", "running", "other", "unmarked"))
        if cfg["prior"] == "other":
            cfg["settings"].append(gen_settings(r))
        ops = []
        for k in range(r.choice((1, 1, 2))):
            op = {"set": 0, "pause": r.choice((0.0, 0.1, 3.0)), "keep": r.random() < 0.5}
            x = r.random()
            if x < 0.7:
                op["faults"] = gen_step_faults(r, r.choice((1, 1, 1, 2, 4)))
            if r.random() < 0.2:
                op["crash"] = gen_crash(r, r.choice(("adapter", "line")))
            if r.random() < 0.2:
                op["reset_faults"] = [{"nth": r.randrange(2), r.choice(("mute", "delay")): 20.0}]
            if r.random() < 0.15:
                op["no_state"] = True
            if r.random() < 0.1:
                op["no_ep"] = True
            if r.random() < 0.15:
                op["hang"] = [round(r.random() * 2.5, 4), r.choice((3.0, 8.0, 100.0))]
            if r.random() < 0.1:
                op["openfail"] = r.choice(tuple(appkit.OPEN_ERRORS))
            if r.random() < 0.2:
                op["noise"] = [{"t": round(r.random() * 2, 4),
                                "raw": appkit.gen_unsolicited(r).hex()}]
            ops.append(op)
        ops.append({"set": 0, "last": True, "keep": r.random() < 0.6})
        return {"cfg": cfg, "ops": ops}

    def execute(self, run):
        w, plan, cfg = run.world, run.plan, run.plan["cfg"]
        s = Starter(run)
        d = s.d
        if cfg["prior"] != "factory":
            put_configured(d, cfg["settings"][-1])
        if cfg["prior"] == "running":
            d.state = dongle.ST_COORD
        if cfg["prior"] == "unmarked":
            # configured up to the very last step
            d.nv[dongle.NV_HASCONF[d.product]] = b"\0"
        real_state, real_ota = d._state, d.ota
        for op in plan["ops"]:
            d._state = (lambda st: None) if op.get("no_state") else real_state
            if op.get("no_state"):
                w.fired["no-network-indication"] += 1
            d.ota = ((lambda *a: None) if op.get("no_ep") else real_ota)
            if op.get("hang"):
                w.at(w.now + op["hang"][0], d.hang)
                w.at(w.now + op["hang"][0] + op["hang"][1], d.unhang)
                w.fired["adapter-hang"] += 1
            if op.get("openfail"):
                w.ports.fail_opens.append(appkit.OPEN_ERRORS[op["openfail"]]())
            sent0 = len(d.sent)
            cur = s.attempt(op, cfg["settings"][0])
            rec = cur.rec
            if not run.check(rec.done, "endless", lambda: "startup has not ended after %.0f s"
                             % (w.now - cur.t0)):
                return
            # never longer without progress than the last step may take
            end = cur.t1
            if cur.lost:
                # (what follows on the line is the recovery)
                end = min(end, cur.lost_at)
                run.check(cur.t1 - end <= 80.5 + w.stalled, "too-long",
                          lambda: "connection lost at %.3f, startup ended at %.3f"
                          % (end, cur.t1))
            own = [f for f in cur.frames if f.t <= end and self.step(f)]
            leds = [f.t for f in cur.frames if f.t <= cur.t1 and not self.step(f)]
            marks = [cur.t0] + [f.t for f in own] + [end]
            limits = [7.2] + [self.limit(f) for f in own]
            for a, b, lim in zip(marks, marks[1:], limits):
                # (what reports of devices cause, light or interview, takes its own time)
                lim += 6.2 * sum(1 for t in leds if a <= t <= b)
                run.check(b - a <= lim + 0.5 + w.stalled, "too-long",
                          lambda: "nothing between %.3f and %.3f (allowed %.1f s), then %s"
                          % (a, b, lim, rec.outcome()))
            if rec.ok and not cur.lost:
                self.acknowledged(run, s, cur, sent0)
            elif op.get("last"):
                run.check(False, "later-start", lambda: "the adapter is healthy again, but "
                          "startup ended with %r" % rec.exc)
            if not rec.ok:
                run.nontrivial = True
                w.probes["failed-starts"] += 1
                run.check(isinstance(rec.exc, Exception), "odd-error", lambda: repr(rec.exc))
            if run.violations:
                return
            s.after(cur, op)
            if not op.get("last"):
                if op.get("hang"):
                    s.h.run_until(max(w.now, cur.t0 + sum(op["hang"]) + 0.2))
                d.unhang()
                w.ports.fail_opens.clear()
                d.actions.clear()
                # the adapter is healthy: it has worked off what it got
                while d.busy or d.queue or not d.present:
                    s.h.run_until(w.now + 0.5)
                if op.get("no_state"):
                    d._state = real_state
                    if d.state != dongle.ST_COORD and cfg["prior"] == "running":
                        pass
                s.h.run_until(w.now + 0.3)
                if d.state == dongle.ST_STARTING:
                    s.h.run_until(w.now + d.state_delay + 0.5)

    @staticmethod
    def step(f):
        return (f.name in STEPS or f.name == "resetReq") and not (
            f.name == "activeEpReq" and f.data[:2] != b"\0\0")

    @staticmethod
    def limit(f):
        if f.ctype == mt.AREQ:
            return 30
        if f.name in ("startupFromApp", "bdbStartCommissioning"):
            return 60 + 20
        if f.name == "activeEpReq":
            return 10.2
        return 6.2

    def acknowledged(self, run, s, cur, sent0):
        """Every command of a successful start was answered, and acceptably."""
        d = s.d
        ans = {rec["req"].n: rec for rec in d.sent[sent0:]
               if rec.get("kind") == "srsp" and rec.get("req") is not None}
        resets = [rec for rec in d.sent[sent0:] if rec.get("kind") == "resetInd"]
        first_marker = True
        for fr in cur.frames:
            if fr.t > cur.t1 or not self.step(fr):
                continue
            if fr.ctype == mt.AREQ:
                run.check(any(fr.t <= rec["t"] <= cur.t1 for rec in resets), "unacknowledged",
                          "startup succeeded though the reset was not confirmed")
                continue
            a = ans.get(fr.n)
            marker = fr.name == "osalNvRead" and fr.data[0] | fr.data[1] << 8 == \
                dongle.NV_HASCONF[d.product]
            if marker and first_marker:
                first_marker = False
                if a is not None:
                    continue          # (looked at once more later)
            if fr.name == "activeEpReq":
                a = a or next((rec for rec in d.sent[sent0:] if rec.get("kind") == "zdo"
                               and rec.get("name") == "activeEpRsp"), None)
                run.check(a is not None, "unacknowledged", "no list of endpoints came")
                continue
            if not run.check(a is not None and a["read"] is not None and a["read"] <= cur.t1,
                             "unacknowledged", lambda: "startup succeeded though %r was never "
                             "answered" % fr):
                continue
            body = a["raw"][4:-1]
            if fr.name in ("ping", "version", "getDeviceInfo") and not (
                    fr.name == "getDeviceInfo" and body[0]):
                continue
            ok = {"startupFromApp": (0, 1), "osalNvItemInit": (0, 9), "extFindGroup": (0, 1)
                  }.get(fr.name, (0,))
            if marker:
                ok = (0, 2)
            run.check(body[0] in ok, "refusal-ignored",
                      lambda: "startup succeeded though %r was refused with status %d"
                      % (fr, body[0]))
            if fr.name == "startupFromApp":
                run.check(any(rec["raw"][2:5] == b"\x45\xc0\x09" and rec["read"] is not None
                              and fr.t <= rec["read"] <= cur.t1 for rec in d.sent[sent0:]),
                          "no-network", "startup succeeded though the adapter never said "
                          "that it runs as coordinator")


PROPS = {"P10": P10(), "P11": P11(), "P12": P12(), "P20": P20()}
