"""What the application-level properties share: an adapter, a host, and faults."""
import serial
import termios

from .. import dongle, host, mt


def ieee_of(n):
    return bytes([n & 0xFF, n >> 8, 0x33, 0x22, 0x11, 0x6F, 0x0D, 0x00])


def gen_link(r):
    return {"chunk": r.choice(("whole", "whole", "bytes", "mixed")),
            "gap": r.choice((0.0, 0.0, 0.002)), "cap": r.choice((0, 0, 0, 3, 20)),
            "lat": r.choice((0.001, 0.0, 0.005)), "product": r.choice((0, 1, 2)),
            "write_first": r.random() < 0.15,
            "flow": r.choice((None, None, None, "hardware", "software")),
            "baud": r.choice((115200, 115200, 38400, 230400))}


SIMPLE_LINK = {"chunk": "whole", "cap": 0, "gap": 0.0, "lat": 0.001, "write_first": False,
               "flow": None, "baud": 115200}


BASES = (0x1000, 0x1000, 0x1000, 0x0000, 0x01FD, 0x7FFD, 0x80A0, 0xFE00, 0xFEFD, 0xABCD)


def gen_base(r, cfg):
    """The devices get the addresses after this one."""
    cfg["base"] = r.choice(BASES)
    return cfg["base"]


def make_dongle(w, plan, cfg=None, url="/dev/null", **k):
    cfg = cfg or plan["cfg"]
    d = dongle.Dongle(w, url=url, product=cfg.get("product", 1), seed=plan["seed"],
                      link={"chunk": cfg.get("chunk", "whole"), "gap": cfg.get("gap", 0.0),
                            "cap_read": cfg.get("cap", 0), "lat": cfg.get("lat", 0.001),
                            "effect_late": cfg.get("effect_late", False)}, **k)
    w.ports.peers[url] = d
    return d


OPEN_ERRORS = {
    "enoent": lambda: serial.SerialException(2, "could not open port: No such file"),
    "busy": lambda: serial.SerialException(16, "could not open port: Device or resource busy"),
    "perm": lambda: serial.SerialException(13, "could not open port: Permission denied"),
    "eio": lambda: OSError(5, "Input/output error"),
    "conf": lambda: serial.SerialException("Could not configure port: (5, 'I/O error')"),
    "termios": lambda: termios.error(5, "Input/output error"),
}


class Faults:
    """Faults of the plan: at a time, or after the n-th command or port opening."""

    def __init__(self, w, d, events, loop_of):
        self.w, self.d = w, d
        self.loop_of = loop_of
        self.events = events
        self.t0 = None
        self.base_frames = self.base_opens = 0
        self.losses = []          # (time, kind)
        self.quiet_at = 0.0       # no fault is active from then on
        self.armed = []
        self.reads = self.errors = 0
        self.over = False         # no fault begins any more
        self.bad = None           # commands refused, lost or answered late

    def start(self, t0):
        """Count from here."""
        self.t0 = t0
        self.quiet_at = max(self.quiet_at, t0)
        self.base_frames = len(self.d.wire)
        self.base_opens = len(self.w.ports.opens)
        for ev in self.events:
            if ev.get("on") == "frame":
                self.armed.append(ev)
            elif ev.get("on") in ("open", "read", "loss"):
                self.armed.append(ev)
            else:
                self.w.at(t0 + ev["t"], self.fire, ev)
        self.d.on_host_frame.append(lambda fr: self._count("frame"))
        real = self.d.host_opened

        def opened(ser):
            real(ser)
            self._count("open")
        self.d.host_opened = opened
        real_read = self.d.host_read

        def read(ser, data):
            before = len(ser.outstream)
            real_read(ser, data)
            for _ in range(before - len(ser.outstream)):
                self.reads += 1
                self._count("read")
        self.d.host_read = read

        def error():
            self.errors += 1
            self._count("loss")
        self.w.ports.on_error = error

    def _count(self, what):
        n = (len(self.d.wire) - self.base_frames if what == "frame" else
             self.reads if what == "read" else self.errors if what == "loss" else
             len(self.w.ports.opens) + 1 - self.base_opens)
        for ev in list(self.armed):
            if ev["on"] == what and ev["n"] == n:
                self.armed.remove(ev)
                self.w.fired["at-crash-point"] += 1
                if "steps" in ev:
                    self._soon(ev["steps"], ev)
                else:
                    self.w.after(ev.get("lag", 0.0), self.fire, ev)

    def _soon(self, k, ev):
        """Within this or one of the next rounds of the host's event loop."""
        if k == 0:
            self.fire(ev)
        else:
            self.loop_of().call_soon(self._soon, k - 1, ev)

    def _mark(self, t):
        self.quiet_at = max(self.quiet_at, t)

    def fire(self, ev):
        w, d, e = self.w, self.d, ev["e"]
        if self.over:
            return
        self._mark(w.now)
        if e == "unplug":
            if not d.present:
                return
            w.fired["unplug"] += 1
            if d.conn is not None:
                self.losses.append(w.now)
            d.unplug()
            self._mark(w.now + ev["d"])
            w.after(ev["d"], d.plug)
        elif e == "drop":
            w.fired["line-drop"] += 1
            if d.conn is not None:
                self.losses.append(w.now)
            d.drop_line()
        elif e == "away":
            if not d.present:
                return
            w.fired["line-away"] += 1
            if d.conn is not None:
                self.losses.append(w.now)
            d.drop_line()
            d.present = False
            self._mark(w.now + ev["d"])
            w.after(ev["d"], d.plug)
        elif e == "openfail":
            w.ports.fail_opens += [OPEN_ERRORS[k]() for k in ev["how"]]
        elif e == "slowopen":
            w.ports.slow_opens += [ev["d"]]
        elif e == "hang":
            if d.silent:
                return
            w.fired["adapter-hang"] += 1
            d.hang()
            self._mark(w.now + ev["d"])
            w.after(ev["d"], d.unhang)
        elif e == "stall":
            w.fired["host-stall"] += 1
            w.stall(ev["d"])
            self._mark(w.now)
        elif e == "block":
            if d.conn is not None:
                w.fired["blocked-write"] += 1
                d.conn.blocked_until = w.now + ev["d"]
                w.after(ev["d"], lambda: None)
            self._mark(w.now + ev["d"])
        elif e == "short":
            if d.conn is not None:
                d.conn.short_writes = list(ev["n_"])
        elif e == "refuse":
            if self.bad is not None or d.directive not in (None, self._refuse):
                return
            w.fired["refused-commands"] += 1
            self.bad = [ev["skip"], ev["left"], dict(ev["act"])]
            d.directive = self._refuse
            self._mark(w.now + ev["d"])
            w.after(ev["d"], self._refuse_end)
        elif e == "noise":
            w.fired["unsolicited"] += 1
            d.emit(bytes.fromhex(ev["raw"]))
        else:
            raise KeyError(e)


    def _refuse(self, fr, k):
        b = self.bad
        if b is None:
            return None
        if b[0] > 0:
            b[0] -= 1
            return None
        if b[1] <= 0:
            return None
        b[1] -= 1
        return dict(b[2])

    def _refuse_end(self):
        self.bad = None


def gen_fault(r, kinds, top):
    e = r.choice(kinds)
    ev = {"e": e}
    x = r.random()
    if x < 0.45:
        ev["t"] = round(r.random() * top, 4)
    elif x < 0.6:
        ev["on"], ev["n"] = "read", r.choice((1, 2, 3, r.randrange(1, 12), r.randrange(1, 60)))
        ev["steps"] = r.randrange(6)
    elif x < 0.8:
        ev["on"], ev["n"] = "frame", r.choice((1, 2, 3, r.randrange(1, 12), r.randrange(1, 60)))
        ev["lag"] = r.choice((0.0, 0.0, 0.0005, 0.002, 0.004, 0.3, 1.5))
    else:
        ev["on"], ev["n"] = "open", r.choice((1, 1, 2, 3))
        ev["lag"] = r.choice((0.0, 0.0001, 0.3, 0.9, 0.9999, 1.0, 1.0001, 1.003, 3.0))
    if e in ("unplug", "away"):
        ev["d"] = r.choice((0.01, 0.5, 3.0, 6.0, 14.0, 61.0, 300.0))
    elif e == "openfail":
        ev["how"] = [r.choice(tuple(OPEN_ERRORS)) for _ in range(r.choice((1, 1, 2, 5)))]
    elif e == "slowopen":
        ev["d"] = r.choice((0.05, 0.5, 2.0))
    elif e == "hang":
        ev["d"] = r.choice((1.0, 7.0, 20.0, 45.0))
    elif e == "stall":
        ev["d"] = r.choice((0.05, 0.5, 2.0))
    elif e == "block":
        ev["d"] = r.choice((0.02, 0.3))
    elif e == "short":
        ev["n_"] = [r.randrange(1, 8) for _ in range(r.choice((1, 2, 5)))]
    elif e == "refuse":
        # from the skip-th command on
        ev["skip"] = r.choice((0, 0, 1, 2, 3, r.randrange(40)))
        ev["left"] = r.choice((1, 1, 2, 5))
        ev["d"] = r.choice((3.0, 12.0, 40.0))
        ev["act"] = r.choice(({"status": r.choice((1, 2, 9, 10, 0x11, 0xFF))},
                              {"status": 1}, {"mute": True}, {"ignore": True},
                              {"delay": r.choice((0.5, 3.0))}))
    elif e == "noise":
        ev["raw"] = gen_unsolicited(r).hex()
    return ev


def gen_unsolicited(r, base=0x1000):
    first = mt.u16(base + 1)
    x = r.random()
    if x < 0.2:
        return mt.named(2, "permitJoinInd", bytes([r.choice((0, 60))]))
    if x < 0.3:
        return mt.named(2, "stateChangeInd", bytes([r.choice((0, 8, 10))]))
    if x < 0.4:
        return mt.named(2, "srcRtgInd", b"\x33\x44\x00")
    if x < 0.55:
        return mt.device_annce(base + 1, ieee_of(1))
    if x < 0.65:
        return mt.named(2, "activeEpRsp", first + b"\x00" + first + b"\x02\x01\x02")
    if x < 0.75:
        return mt.named(2, "dataConfirm", bytes([0, 1, r.randrange(256)]))
    if x < 0.8:
        return mt.named(2, "tcDeviceInd", first + ieee_of(1) + b"\x00\x00")
    return mt.incoming_msg(r.choice((base + 1, 0x4A21)), 1, 1, 6,
                           bytes([0x18, r.randrange(128), 0x0A, 0, 0, 0x10, 1]))


class AppSession:
    """The whole driver against the adapter model."""

    def __init__(self, run, configured=True, formed=True, config=None, devices=2):
        self.run, self.w = run, run.world
        cfg = run.plan["cfg"]
        self.d = make_dongle(self.w, run.plan)
        if configured:
            self.d.configured(formed=formed)
        self.n_devices = devices
        base = self.base = cfg.get("base", 0x1000)
        h = self.h = host.AppHost(self.w, config or host.app_config(
            flow=cfg.get("flow"), baudrate=cfg.get("baud", 115200)))
        h.write_first = cfg.get("write_first", False)
        h.boot()
        self.app = h.create()
        self.devs = []
        for n in range(1, devices + 1):
            h.add_device(base + n, ieee_of(n))
            dev = dongle.Dev(base + n, ieee_of(n))
            self.d.devs[dev.nwk] = dev
            self.devs.append(dev)

    def startup(self, form=True, limit=None):
        return self.h.run_call({"k": "startup"}, lambda rec: self.app.startup(form), limit)

    def send(self, nwk, tsn, data, cluster=6, profile=0x0104, ep=1, expect_reply=False):
        """One request to a device; to be run in the loop (returns an awaitable)."""
        dev = self.app.get_device(nwk=nwk)
        return self.app.request(dev, profile, cluster, 1, ep, tsn, data,
                                expect_reply=expect_reply)
