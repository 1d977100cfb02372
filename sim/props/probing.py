"""P13 probing a port, P21 which port is opened, and how."""
import asyncio

from .. import core, dongle, host, mt
from . import ASSUME, REAL_ALL, REAL_API, STUB
from . import appkit

URLS = ("/dev/null", "/dev/zero", "/dev/full")
VERSION = (mt.SREQ, mt.SYS, 2)
ANSWER = mt.named(mt.SRSP, "version", b"\x02\x01\x02\x07\x01\x90\x15\x34\x01")
YES_BY, NO_BY, END_BY = 1.9, 2.1, 2.2
BAUDS = (115200, 115200, 38400, 57600, 9600, 460800, 1000000)
FLOWS = (None, "hardware", "software")


class Equipment(dongle.RawPeer):
    """Whatever is plugged in there: says what the plan says."""

    def __init__(self, world, url, spec, seed):
        super().__init__(world, url)
        self.spec = spec
        self.seed = seed
        self.fail_opens = [appkit.OPEN_ERRORS[k]() for k in spec.get("fail", ())]
        self.slow_opens = list(spec.get("slow", ()))
        self.present = spec["kind"] != "missing"
        self.n = 0

    def host_opened(self, ser):
        super().host_opened(ser)
        w = self.world
        ser.deframer = mt.Deframer()
        ser.cap_read = self.spec.get("cap", 0)
        ser.flush_error = self.spec.get("flush_error", False)
        ser.short_writes = list(self.spec.get("short", ()))
        ser.asked = []
        ser.given = bytearray()         # everything that could be read by now
        ser.got = bytearray()
        ser.answers = []                # (end of it in the stream, when readable)
        for t, raw in self.spec.get("noise", ()):
            w.after(t, self.say, ser, bytes.fromhex(raw))
        if "gone" in self.spec:
            w.after(self.spec["gone"], self.vanish, ser)

    def vanish(self, ser):
        if ser.is_open:
            self.world.fired["unplug"] += 1
            self.world.log("unplug", self.url)
            ser.unplug()

    def say(self, ser, data, answer=False):
        if not ser.is_open or ser.broken:
            return
        ser.given += data
        if not answer:
            self.world.fired["noise"] += 1
        ser.deliver(data)

    def host_wrote(self, ser, data, t0):
        w, spec = self.world, self.spec
        if spec.get("echo"):
            w.after(0.002, self.say, ser, bytes(data))
        for fr in ser.deframer.feed(data):
            if (fr.ctype, fr.subsys, fr.cmd) != VERSION:
                continue
            ser.asked.append(w.now)
            if spec["kind"] == "gone-on-ask":
                w.after(spec["delay"], self.vanish, ser)
            elif spec["kind"] == "adapter":
                self.n += 1
                r = core.rng_for(self.seed, self.url, self.n)
                t = w.now + spec["delay"]
                pieces = dongle.cut(ANSWER, spec["chunk"], r)
                for i, piece in enumerate(pieces):
                    w.at(t, self.say, ser, piece, True)
                    if i < len(pieces) - 1:
                        t += spec["gap"] * r.random()
                w.at(t, self.answered, ser)
            else:
                for t, raw in spec.get("replies", ()):
                    w.after(t, self.say, ser, bytes.fromhex(raw))

    def answered(self, ser):
        if ser.is_open and not ser.broken:
            ser.answers.append((len(ser.given), self.world.now))

    def host_read(self, ser, data):
        super().host_read(ser, data)
        ser.got += data


def bad_answer(r):
    """Almost, but not, a correct answer."""
    body = bytearray(ANSWER)
    x = r.randrange(8)
    if x == 0:
        body[-1] ^= 1 << r.randrange(8)
    elif x == 1:
        body[r.randrange(4, len(body) - 1)] ^= 1 << r.randrange(8)
    elif x == 2:
        return mt.frame(mt.AREQ, mt.SYS, 2, bytes(ANSWER[4:-1]))
    elif x == 3:
        return mt.frame(mt.SRSP, r.choice((mt.AF, mt.ZDO, 6, 7)), 2, bytes(ANSWER[4:-1]))
    elif x == 4:
        return mt.frame(mt.SRSP, mt.SYS, r.choice((1, 8, 0x12)), b"\x79\x01")
    elif x == 5:
        return bytes(body[:r.randrange(1, len(body))])
    elif x == 6:
        return mt.frame(mt.SRSP, 0, 0, b"\x02\x21\x02")
    else:
        return mt.frame(mt.SREQ, mt.SYS, 2, bytes(ANSWER[4:-1]) if r.random() < 0.5 else b"")
    return bytes(body)


def gen_noise(r, hard):
    out = []
    for _ in range(r.choice((1, 2, 5, 20))):
        x = r.random()
        if not hard or x < 0.4:
            raw = bytes(b for b in (r.getrandbits(8) for _ in range(r.randrange(1, 40)))
                        if b != mt.SOF) or b"\x00"
            if r.random() < 0.3:
                raw = r.choice((b"OK\r\n", b"\x1a\xc0\x38\xbc\x7e", b"$GPGGA,1\r\n", b"\x00"))
        elif x < 0.6:
            raw = appkit.gen_unsolicited(r)
        elif x < 0.8:
            raw = bad_answer(r)
        else:
            raw = bytes(r.getrandbits(8) for _ in range(r.randrange(1, 60)))
        out.append([round(r.random() * 2.3, 4), raw.hex()])
    out.sort()
    return out


def gen_spec(r, url):
    kind = r.choice(("adapter",) * 5 + ("silent", "other", "other", "gone-on-ask", "missing"))
    s = {"kind": kind, "url": url}
    if kind == "adapter":
        s["delay"] = r.choice((0.0, 0.004, 0.1, 0.5, 0.8, 0.88, 0.89, 0.899, 0.95, 1.05, 1.101,
                               1.11, 1.2, 3.0, round(r.random() * 1.3, 4)))
        s["chunk"] = r.choice(("whole", "whole", "bytes", "small"))
        s["gap"] = r.choice((0.0, 0.0, 0.01))
    elif kind == "gone-on-ask":
        s["delay"] = r.choice((0.0, 0.001, 0.3, 0.99))
    elif kind == "other":
        s["echo"] = r.random() < 0.3
        s["replies"] = [[round(r.random() * r.choice((0.01, 0.5)), 4), bad_answer(r).hex()]
                        for _ in range(r.choice((0, 1, 1, 3)))]
    if r.random() < (0.8 if kind == "other" else 0.25):
        s["noise"] = gen_noise(r, kind == "other" or r.random() < 0.3)
    if kind != "missing" and r.random() < 0.12:
        s["gone"] = r.choice((0.0, 0.0001, 0.5, 0.9999, 1.0, 1.0001, 1.004,
                              round(r.random() * 2.2, 4)))
    if r.random() < 0.15:
        s["fail"] = [r.choice(tuple(appkit.OPEN_ERRORS))]
    if r.random() < 0.15:
        s["slow"] = [r.choice((0.01, 0.3, 0.8, 0.95, 1.0, 1.5, 2.0, 5.0))]
    if r.random() < 0.1:
        s["short"] = [r.choice((0, 1, 2, 3, 4)) for _ in range(r.choice((1, 3)))]
    s["flush_error"] = r.random() < 0.3
    s["cap"] = r.choice((0, 0, 0, 1, 3))
    return s


class P13:
    id = "P13"
    RUNS = {"quick": 24000, "thorough": 1500000}
    REAL, STUB, ASSUME = REAL_API, STUB, ASSUME + [
        "must-be-yes is only asked where no start byte outside the answer is on the line "
        "and the host is not stalled while the answer is on its way"]
    RULE = ("Seeded: 1 to 3 ports, each with an adapter answering after a seeded delay, silent or "
            "other equipment (noise, echoes, near-miss answers), failing or slow opening, or "
            "unplugging at a seeded moment; 1 to 6 probes one after another and side by "
            "side, some cancelled. Non-trivial: a probe that asked or was refused.")
    SIMPLE = {"form": False}

    def gen(self, r, tier, i):
        n = r.choice((1, 1, 1, 2, 3))
        ports = [gen_spec(r, u) for u in URLS[:n]]
        ops = []
        for k in range(r.choice((1, 1, 2, 3, 6))):
            op = {"i": k, "u": r.choice(URLS[:n]), "gap": r.choice((0.0, 0.0, 0.01, 1.0)),
                  "baud": r.choice(BAUDS), "flow": r.choice(FLOWS), "app": r.random() < 0.3}
            if r.random() < 0.3:
                op["cancel"] = r.choice((0.0, 0.0001, 0.5, 0.9999, 1.0, 1.0001, 1.001, 1.004,
                                         1.005, 1.9, 1.9999, 2.0, 2.0001, 2.1,
                                         round(r.random() * 2.1, 4)))
            elif r.random() < 0.1:
                op["cancel_steps"] = r.randrange(6)
            ops.append(op)
        evs = []
        if r.random() < 0.12:
            for _ in range(r.choice((1, 2))):
                evs.append({"e": "stall", "t": round(r.random() * 3, 4),
                            "d": r.choice((0.01, 0.3, 1.0, 2.5))})
        return {"cfg": {"write_first": r.random() < 0.15}, "ports": ports, "ops": ops,
                "events": evs}

    def execute(self, run):
        w, plan = run.world, run.plan
        h = host.Host(w)
        h.write_first = plan["cfg"]["write_first"]
        h.boot()
        for spec in plan["ports"]:
            w.ports.peers[spec["url"]] = Equipment(w, spec["url"], spec, plan["seed"])

        def stall(d):
            w.fired["host-stall"] += 1
            w.stall(d)
        for ev in plan["events"]:
            w.at(w.now + ev["t"], stall, ev["d"])
        chains = {}
        for op in plan["ops"]:
            chains.setdefault(op["u"], []).append(op)
        self.recs = []
        opening = {}

        def on_open(url, settings, ok):
            opening.setdefault(url, []).append((w.now, w.stalled))
        w.ports.on_open = on_open
        for chain in chains.values():
            h.loop.call_soon(self.begin, run, h, chain)
        total = sum(8 + op["gap"] for op in plan["ops"]) + sum(e["d"] for e in plan["events"])
        h.run_until(w.now + total)
        run.check(len(self.recs) == len(plan["ops"]) and all(x.done for x in self.recs),
                  "no-end", "a probe never ended")
        h.run_until(w.now + 40)
        run.check(not w.loop_errors, "loop-error",
                  lambda: "an error reached the event loop: %s" % (w.loop_errors[:2],))
        run.check(not h.loop.live_timers(), "timer", "a timer is left")
        run.check(not h.loop.live_tasks(), "task", "a task is left")
        run.check(not w.ports.open_ports(), "open", "a port is open at the end")

    def begin(self, run, h, chain):
        if not chain:
            return
        op = chain.pop(0)
        w = run.world
        w.after(op["gap"], lambda: h.loop.call_soon(self.probe, run, h, op, chain))

    def probe(self, run, h, op, chain):
        w = run.world
        config = {"path": op["u"], "baudrate": op["baud"], "flow_control": op["flow"]}
        call = host.ControllerApplication.probe if op.get("app") else host.zigpy_cc.api.API.probe
        rec = h.call({"k": "probe"}, lambda rec: call(config))
        self.recs.append(rec)
        st0, n0 = w.stalled, len(w.ports.opens)
        rec.then.append(lambda: self.ended(run, h, op, rec, chain, st0, n0))
        if "cancel" in op:
            w.after(op["cancel"], h.cancel, rec)
        elif "cancel_steps" in op:
            def step(k):
                if k:
                    h.loop.call_soon(step, k - 1)
                else:
                    h.cancel(rec)
            step(op["cancel_steps"])

    def ended(self, run, h, op, rec, chain, st0, n0):
        w = run.world
        sers = [s for s in w.ports.opens[n0:] if s.url == op["u"]]
        stalled = w.stalled - st0
        run.check(rec.t1 - rec.t0 <= END_BY + stalled, "slow", lambda: "a probe took %.3f s "
                  "(%.3f s of them the host was blocked)" % (rec.t1 - rec.t0, stalled))
        run.check(len(sers) <= 1, "opens", "a probe opened the port %d times" % len(sers))
        ser = sers[0] if sers else None
        if ser is not None and ser.asked or not sers:
            run.nontrivial = True
        given_up = rec.cancelled is not None
        if rec.exc is not None:
            run.check(given_up and isinstance(rec.exc, asyncio.CancelledError), "raised",
                      lambda: "a probe%s raised %r" % (
                          " (cancelled)" if given_up else "", rec.exc))
        else:
            run.check(isinstance(rec.res, bool), "result",
                      lambda: "a probe returned %r" % (rec.res,))
            got = bytes(ser.got) if ser is not None else b""
            # (by chance, noise may complete one: any well-formed answer counts)
            good = bool(ser is not None and ser.asked and any(
                got[a + 2:a + 4] == ANSWER[2:4] for a, _ in mt.valid_frames_in(got)))
            if rec.res:
                w.probes["yes"] += 1
                run.check(good, "false-yes", lambda: "a probe said yes; the line carried %s"
                          % (bytes(ser.got).hex() if ser else "nothing"))
                run.check(ser is None or not ser.answers or ser.answers[0][1] <= rec.t0 + NO_BY
                          + stalled, "late-yes", "a probe said yes to an answer that came late")
            else:
                w.probes["no"] += 1
                sure = (ser is not None and ser.answers and ser.answers[0][1] <= rec.t0 + YES_BY
                        and ANSWER in ser.given and mt.SOF not in ser.given.split(ANSWER)[0]
                        and not any(a <= rec.t0 + NO_BY and b > ser.asked[0] for a, b in w.stalls)
                        and not ser.broken)
                run.check(not sure, "false-no", lambda: "a probe said no, but a correct answer "
                          "was there %.4f s after the call" % (ser.answers[0][1] - rec.t0))

        def closed():
            run.check(all(not s.is_open for s in sers), "left-open",
                      lambda: "the port is still open after the probe (%s)" % rec.outcome())
            if all(x.done for x in self.recs):
                # (the harness waits in one task of its own)
                left = len(h.loop.live_tasks()) - 1
                run.check(left <= 0, "task", lambda: "%d tasks run on after the probe (%s)"
                          % (left, rec.outcome()))
            self.begin(run, h, chain)
        # closing takes effect within the next rounds of the event loop
        w.after(0.01, lambda: h.loop.call_soon(closed))


# ---------------------------------------------------------------------------
TI = ("USB VID:PID=0451:16A8 SER=L1100H4N LOCATION=1-1.2:1.0",
      "USB VID:PID=0451:BEF3 SER=L430033D LOCATION=1-1.3:1.0",
      "USB VID:PID=0451:16C8 LOCATION=3-2",
      "USB VID:PID=1A86:7523 LOCATION=1-1.4")
OTHER = (("/dev/ttyS0", "PNP0501", "ttyS0"), ("/dev/ttyS1", "n/a", "n/a"),
         ("/dev/ttyUSB7", "USB VID:PID=10C4:EA60 SER=0001 LOCATION=1-1.1", "CP2102 USB to UART"),
         ("/dev/ttyUSB8", "USB VID:PID=0403:6001 SER=A10451XY LOCATION=2-4", "FT232R"),
         ("/dev/ttyUSB9", "USB VID:PID=1A86:55D4 SER=52D2000451 LOCATION=1-4", "USB Single Serial"),
         ("/dev/ttyACM9", "USB VID:PID=1CF1:0030 SER=DE2451 LOCATION=1-5:1.0", "ConBee II"),
         ("/dev/ttyACM8", "USB VID:PID=2341:0043 SER=7523 LOCATION=1-6:1.0", "Arduino Uno"))
NAMES = ("/dev/ttyACM0", "/dev/ttyACM1", "/dev/ttyUSB0", "/dev/ttyUSB1", "COM3",
         "/dev/cu.usbmodem14101")
DEFAULTS = {"baudrate": 9600, "bytesize": 8, "parity": "N", "stopbits": 1, "xonxoff": False,
            "rtscts": False, "dsrdtr": False}
STEADY = 60.0


def want(baud, flow):
    return dict(DEFAULTS, baudrate=baud, xonxoff=flow == "software", rtscts=flow == "hardware")


class P21:
    id = "P21"
    RUNS = {"quick": 6000, "thorough": 400000}
    REAL, STUB = REAL_ALL, STUB
    ASSUME = ASSUME + ["an adapter is a port whose USB vendor is 0451, or 1a86:7523"]
    RULE = ("Seeded: baud rate, flow control, fixed path or auto; 0 to 3 adapters and other "
            "equipment plugged and unplugged, reappearing under other names; starts, "
            "restarts, probes and reconnections in between, failing opens. Non-trivial: at least two "
            "opens, or one refused for want of a single adapter.")
    SIMPLE = dict(appkit.SIMPLE_LINK)

    def gen(self, r, tier, i):
        auto = r.random() < 0.8
        names = list(NAMES)
        r.shuffle(names)
        boxes = []
        for k in range(r.choice((1, 1, 1, 2, 3)) if auto else 1):
            boxes.append({"id": k, "hwid": r.choice(TI), "desc": r.choice((
                "n/a", "TI CC2531 Low-Power RF to USB CDC Serial Adapter", "USB Serial")),
                "name": names.pop() if auto else "/dev/null",
                "there": r.random() < (0.85 if not k else 0.4), "product": r.choice((0, 1, 2))})
        others = [list(x) + [r.random() < 0.6] for x in OTHER if r.random() < 0.4]
        evs, t = [], 0.0
        for _ in range(r.choice((0, 1, 2, 4, 7))):
            t += r.choice((0.01, 1.5, 4.0, 8.0, 20.0)) * r.random()
            e = r.choice(("in", "in", "out", "out", "out", "move", "move", "drop", "other",
                          "fail"))
            ev = {"t": round(t, 4), "e": e, "b": r.choice(boxes)["id"]}
            if e in ("in", "move"):
                ev["name"] = r.choice(NAMES) if auto else "/dev/null"
            if e == "move":
                ev["d"] = r.choice((0.001, 0.5, 4.0, 7.0))
            if e == "other":
                ev["x"] = r.randrange(len(OTHER))
            if e == "fail":
                ev["how"] = [r.choice(tuple(appkit.OPEN_ERRORS))]
            evs.append(ev)
        ops, t = [], 0.0
        for k in range(r.choice((1, 1, 2, 3, 5))):
            op = {"i": k, "t": round(t, 4), "k": "start" if not k else r.choice(
                ("start", "start", "probe", "probe", "stop"))}
            if op["k"] == "probe":
                op["baud"], op["flow"] = r.choice(BAUDS), r.choice(FLOWS)
                op["path"] = r.choice(("auto", "auto", "/dev/zero") if auto else
                                      ("/dev/null", "/dev/zero"))
            ops.append(op)
            t += r.choice((0.01, 3.0, 10.0, 25.0)) * r.random()
        return {"cfg": dict(appkit.gen_link(r), path="auto" if auto else "/dev/null",
                            baud=r.choice(BAUDS), flow=r.choice(FLOWS)),
                "boxes": boxes, "others": others, "ops": ops, "events": evs}

    def execute(self, run):
        w, plan, cfg = run.world, run.plan, run.plan["cfg"]
        self.w = w
        self.boxes = {}
        for b in plan["boxes"]:
            c = dict(cfg, product=b["product"])
            d = appkit.make_dongle(w, plan, c, url="box%d" % b["id"])
            d.configured()
            del w.ports.peers[d.url]
            d.present = False
            self.boxes[b["id"]] = (b, d)
        self.others = {tuple(x[:3]): x[3] for x in plan["others"]}
        self.out = {}              # box: plugged out until the end of a move
        h = host.AppHost(w, host.app_config(cfg["path"], cfg["baud"], cfg["flow"]))
        h.write_first = cfg["write_first"]
        h.boot()
        app = self.app = h.create()
        for b, d in self.boxes.values():
            if b["there"]:
                self.plug(d, b["name"])
        self.refresh()
        self.changes = [w.now]
        self.probing = []
        self.active = self.up = False
        self.begun, self.current = 0, None

        def on_open(url, settings, ok):
            full = dict(DEFAULTS, **{k: v for k, v in settings.items() if k in DEFAULTS})
            cands = [(cfg["path"], want(cfg["baud"], cfg["flow"]))] if self.active else []
            cands += [(op["path"], want(op["baud"], op["flow"])) for op in self.probing]
            right = [s for p, s in cands if s == full]
            run.check(right, "settings", lambda: "a port was opened with %s; configured: %s"
                      % (full, [s for _, s in cands]))
            ti = self.adapters()
            paths = [p for p, _ in cands]
            if url in paths:
                run.check(True, "path", "")
            elif "auto" in paths:
                run.check(ti == [url], "choice", lambda: "auto opened %s; adapters present: %s"
                          % (url, ti))
            else:
                run.fail("path", "%s was opened; configured: %s" % (url, paths))
            w.probes["open"] += 1
        w.ports.on_open = on_open
        t0 = w.now
        for ev in plan["events"]:
            w.at(t0 + ev["t"], self.happen, ev)
        for op in plan["ops"]:
            w.at(t0 + op["t"], lambda op=op: h.loop.call_soon(self.begin, run, h, op))
        top = max([x["t"] for x in plan["ops"] + plan["events"]] or [0])
        h.run_until(t0 + top + 30)
        w.ports.fail_opens.clear()
        h.run_until(max(w.now, self.changes[-1]) + STEADY)
        if not self.idle(h):
            return
        ti = self.adapters()
        openp = [s.url for s in w.ports.open_ports()]
        run.nontrivial = len(w.ports.opens) > 1 or w.probes["refused"]
        if not self.active or not self.up:
            return
        there = ti if cfg["path"] == "auto" else [
            d.url for _, d in self.boxes.values() if d.present]
        if len(there) == 1:
            run.check(openp == there, "not-opened", lambda: "%.0f s after the last change the one "
                      "adapter is at %s; open: %s" % (w.now - self.changes[-1], there, openp))
        else:
            w.probes["none-or-several"] += 1

    # -- the machine --------------------------------------------------------
    def plug(self, d, name):
        if d.present or name in self.w.ports.peers:
            return
        d.url = name
        self.w.ports.peers[name] = d
        d.plug()

    def pull(self, d):
        if d.present:
            self.w.fired["unplug"] += 1
            d.unplug()
            del self.w.ports.peers[d.url]

    def refresh(self):
        infos = [core.PortInfo(*x) for x, there in self.others.items() if there]
        for b, d in self.boxes.values():
            if d.present:
                infos.insert(b["id"] * 2, core.PortInfo(d.url, b["hwid"], b["desc"]))
        self.w.ports.infos = infos

    def adapters(self):
        return [d.url for _, d in self.boxes.values() if d.present]

    def happen(self, ev):
        w = self.w
        e = ev["e"]
        b, d = self.boxes.get(ev["b"], (None, None))
        if d is None:
            return
        if e == "in":
            w.fired["plug"] += 1
            self.plug(d, ev["name"])
        elif e == "out":
            self.pull(d)
        elif e == "move":
            self.pull(d)
            w.after(ev["d"], self.happen, dict(ev, e="in"))
        elif e == "drop":
            w.fired["line-drop"] += 1
            d.drop_line()
        elif e == "other":
            w.fired["other-equipment"] += 1
            x = OTHER[ev["x"]]
            self.others[x] = not self.others.get(x, False)
        elif e == "fail":
            w.ports.fail_opens += [appkit.OPEN_ERRORS[k]() for k in ev["how"]]
        self.changes.append(w.now)
        self.refresh()

    # -- calls --------------------------------------------------------------
    def begin(self, run, h, op):
        w, app = self.w, self.app
        if op["k"] != "probe" and self.current is not None and not self.current.done:
            return
        path = op["path"] if op["k"] == "probe" else run.plan["cfg"]["path"]
        n0, ch0 = len(w.ports.attempts), len(self.changes)
        ti = self.adapters()
        nobody = path == "auto" and len(ti) != 1
        self.begun += 1
        alone, begun = not self.probing and self.idle(h), self.begun
        faulty = bool(w.ports.fail_opens)
        if op["k"] == "probe":
            self.probing.append(op)
            rec = h.call(op, lambda rec: host.ControllerApplication.probe(
                {"path": path, "baudrate": op["baud"], "flow_control": op["flow"]}))
        elif op["k"] == "stop":
            self.active = self.up = False
            h.call(op, lambda rec: app.shutdown())
            return
        elif self.active:
            self.up = False

            async def restart(rec):
                await app.shutdown()
                return await app.startup(True)
            rec = h.call(op, restart)
        else:
            self.active = True
            rec = h.call(op, lambda rec: app.startup(True))

        def ended():
            same = len(self.changes) == ch0
            if op["k"] == "probe":
                self.probing.remove(op)
                if nobody and same:
                    w.probes["refused"] += 1
                    run.check(rec.ok and rec.res is False, "probe", lambda: "probing auto with %s "
                              "present ended with %r" % (ti, rec.exc or rec.res))
                return
            if self.current is not rec:
                return
            self.up = rec.ok
            if nobody and same:
                w.probes["refused"] += 1
                run.check(rec.exc is not None, "no-error", lambda: "starting on auto with %s "
                          "present reported no error" % (ti,))
                if self.begun == begun and alone:
                    run.check(len(w.ports.attempts) == n0, "opened", "a port was opened")
            elif same and not faulty and not w.ports.fail_opens and (
                    path == "auto" or ti) and alone and self.begun == begun:
                run.check(rec.ok, "start", lambda: "starting with %s present failed: %r" % (
                    ti, rec.exc))
        if op["k"] != "probe":
            self.current = rec
        rec.then.append(ended)

    @staticmethod
    def idle(h):
        return all(x.done for x in h.recs)


PROPS = {"P13": P13(), "P21": P21()}
