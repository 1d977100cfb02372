"""P08 recovery, P09 shutdown, P22 the first second of every connection."""
from .. import dongle, host, mt
from . import ASSUME, REAL_ALL, STUB, appkit
from .appkit import AppSession, Faults, gen_fault, gen_link, gen_unsolicited, ieee_of
from .startup import EPS, GROUP

LOSSES = ("unplug", "unplug", "drop", "drop", "away")
REST = ("openfail", "openfail", "slowopen", "hang", "stall", "block", "short", "noise",
        "refuse", "refuse")


def gen_events(r, top=60.0, need_loss=True):
    n = r.choice((1, 1, 2, 3, 4, 6))
    out = []
    for i in range(n):
        out.append(gen_fault(r, LOSSES if r.random() < 0.6 or (need_loss and not i)
                             else REST, top))
    if need_loss:
        out[0].pop("on", None)
        out[0]["t"] = round(r.random() * r.choice((0.01, 1.0, 10.0)), 4)
    return out


def gen_traffic(r, top):
    out = []
    for i in range(r.choice((0, 0, 1, 3, 8))):
        out.append({"i": i, "t": round(r.random() * top, 4),
                    "nwk": r.choice((0x1001, 0x1002))})
    return out


def drive(s, plan, t0, recs):
    """Requests of the library above while things happen; their outcome is not judged."""
    def start(op):
        recs.append(s.h.call({"k": "send"}, lambda rec: s.send(
            op["nwk"], op["i"], bytes([1, op["i"], 2]))))
    for op in plan["ops"]:
        s.w.at(t0 + op["t"], lambda op=op: s.h.loop.call_soon(start, op))


def check_wake(run, w):
    """P22, on every connection of the run."""
    n = 0
    for ser in w.ports.opens:
        tx = b"".join(b for _, b in ser.tx_log)
        if not tx:
            continue
        n += 1
        run.check(tx[:1] == b"\xef", "first-byte",
                  lambda: "connection %d begins with %s" % (ser.fd, tx[:8].hex()))
        stray = bytes(ser.deframer.stray)
        run.check(stray in (b"", b"\xef"), "wake-repeated",
                  lambda: "wake-up bytes on connection %d: %s" % (ser.fd, stray.hex()))
        if ser.frames:
            woke = ser.wake_t0
            fr = ser.frames[0]
            run.check(fr.t0 >= woke + 1 - 1e-6, "too-soon",
                      lambda: "connection %d: wake-up byte at %.6f, %r at %.6f"
                      % (ser.fd, woke, fr, fr.t0))
    return n


def note_wake(d):
    real = d.host_wrote

    def wrote(ser, data, t0):
        if not hasattr(ser, "wake_t0"):
            ser.wake_t0 = t0 if t0 is not None else d.world.now
        real(ser, data, t0)
    d.host_wrote = wrote


class P08:
    id = "P08"
    RUNS = {"quick": 6000, "thorough": 400000}
    REAL = REAL_ALL
    STUB = STUB
    ASSUME = ASSUME
    RULE = ("Seeded: after a successful start, 1 to 6 faults (unplug with power loss, line "
            "drop, port gone without power loss, failing and slow opens, hanging adapter, "
            "refused, lost and late commands, host stalls, blocked and short writes) at chosen times, after the n-th command "
            "or after the n-th opening of the port, with traffic in both directions. "
            "Non-trivial: more than one opening was needed.")
    SIMPLE = appkit.SIMPLE_LINK
    CHECK = "P08"

    def gen(self, r, tier, i):
        cfg = gen_link(r)
        cfg["flush_error"] = r.random() < 0.3
        cfg["fresh"] = r.random() < 0.15
        return {"cfg": cfg, "ops": gen_traffic(r, 60.0), "events": gen_events(r)}

    def execute(self, run):
        w, plan, cfg = run.world, run.plan, run.plan["cfg"]
        s = AppSession(run)
        d, h, app = s.d, s.h, s.app
        note_wake(d)
        w.ports.conf = lambda ser: setattr(ser, "flush_error", cfg.get("flush_error"))
        if cfg.get("fresh"):
            d.factory()
        rec = s.startup()
        if not rec.ok:
            run.fail("startup", "a healthy adapter could not be started: %r" % rec.exc)
            return
        known = dict(app.devices)
        f = Faults(w, d, plan["events"], lambda: h.loop)
        t0 = w.now + 0.2
        h.run_until(t0 - 0.1)
        f.start(t0)
        recs = []
        drive(s, plan, t0, recs)
        last = max([e["t"] for e in plan["events"] if "t" in e]
                   + [op["t"] for op in plan["ops"]] + [0])
        h.run_until(t0 + last + 1)
        # let every fault happen and pass
        while True:
            while w.now < f.quiet_at + 180:
                h.run_until(min(f.quiet_at + 180, w.now + 30))
            if not w.ports.fail_opens:
                break
            # (openings that were to fail but were not tried yet)
            w.ports.fail_opens.clear()
            f.quiet_at = w.now
        f.armed.clear()
        healthy = w.now
        opens = [t for t, _, ok in w.ports.attempts]
        self.judge(run, s, f, rec, t0, known)
        if run.violations:
            return
        # the driver serves requests
        tries = 0
        r1 = h.run_call({"k": "final"}, lambda rec: s.send(0x1002, 77, b"\x01\x4d\x00"))
        ok = run.check(r1.ok and r1.res[0] == 0, "not-recovered",
                       lambda: "%.0f s after the last fault a request ended with %r %r; losses "
                       "at %s, openings at %s" % (healthy - f.quiet_at, r1.outcome(), r1.exc,
                                                  f.losses, opens[-6:]))
        fr = d.wire[-1]
        if ok:
            run.check(fr.conn is w.ports.opens[-1] and fr.conn.is_open, "wrong-port",
                      lambda: "the request went out on a connection given up long ago")
            n = len(h.messages)
            d.emit(mt.incoming_msg(0x1002, 1, 1, 6, b"\x18\x4d\x0b\x00\x00"))
            h.run_until(w.now + 0.5)
            run.check(len(h.messages) == n + 1, "deaf",
                      lambda: "a message from a device is not handed up after recovery")
        for ieee, dev in known.items():
            if int(dev.nwk) != 0:
                run.check(app.devices.get(ieee) is dev, "device-forgotten",
                          lambda: "device %s is not known any more" % ieee)
        run.check(any(int(x.nwk) == 0 for x in app.devices.values()), "no-coordinator",
                  lambda: "the coordinator is not listed after recovery")
        run.check(d.state == dongle.ST_COORD and set(d.eps) == set(EPS) and GROUP in d.groups,
                  "half-set-up", lambda: "%.0f s after the last fault the adapter is in state "
                  "%d with the endpoints %s and groups %s" % (healthy - f.quiet_at, d.state,
                                                             sorted(d.eps), sorted(d.groups)))
        n = len(w.ports.attempts)
        h.run_until(w.now + 60)
        run.check(len(w.ports.attempts) == n, "restless",
                  lambda: "the port is opened again though the connection is healthy: %s"
                  % w.ports.attempts[n:])
        run.check(not w.loop_errors, "loop-error", lambda: str(w.loop_errors[:3]))
        run.nontrivial = len(w.ports.attempts) > 1
        w.probes["losses"] += len(f.losses)
        w.probes["losses-during-recovery"] += sum(
            1 for t in f.losses if any(t - 20 < x < t for x in f.losses))

    def judge(self, run, s, f, rec, t0, known):
        w = s.w
        run.check(w.ports.max_simultaneous <= 1, "two-connections",
                  lambda: "%d connections to the adapter were open at once"
                  % w.ports.max_simultaneous)
        run.check(len(w.ports.open_ports()) <= 1, "two-connections", "two open at the end")
        # cadence: after a failed opening or a lost connection the next attempt follows
        # within 15 s and not before 2 s
        att = w.ports.attempts
        stalls = w.stalled
        for k, (t, url, ok) in enumerate(att):
            if k == 0:
                continue
            gap = t - att[k - 1][0]
            run.check(gap >= 2, "hasty", lambda: "openings at %.3f and %.3f" % (att[k - 1][0], t))
            if not att[k - 1][2]:
                run.check(gap <= 15 + stalls, "slow-retry",
                          lambda: "the opening at %.3f failed, the next try came at %.3f"
                          % (att[k - 1][0], t))
        for t in f.losses:
            later = [x for x, _, _ in att if x > t]
            run.check(later and later[0] - t <= 15 + stalls, "no-retry",
                      lambda: "connection lost at %.3f, next opening %s"
                      % (t, later[:1]))


class P22(P08):
    id = "P22"
    RUNS = {"quick": 6000, "thorough": 400000}
    RULE = ("Seeded: the runs of P08, in part with probes on the same port before the start, "
            "requests waiting at the moment of reconnection and new starts after shutdown. "
            "Non-trivial: more than one connection.")

    def gen(self, r, tier, i):
        plan = super().gen(r, tier, i)
        plan["cfg"]["probe"] = r.random() < 0.4
        plan["cfg"]["restart"] = r.random() < 0.4
        for op in plan["ops"]:
            if r.random() < 0.5:
                op["t"] = round(r.choice((4.9, 5.2, 5.9, 6.2)) + r.random() * 0.3, 4)
        # what a running adapter has to say on a connection that was just opened, in pieces
        plan["cfg"]["early"] = []
        for _ in range(r.choice((0, 0, 1, 1, 3))):
            raw = gen_unsolicited(r)
            a, b = sorted((round(r.random() * 0.9, 4), round(r.random() * 0.9, 4)))
            plan["cfg"]["early"].append([a, b, r.randrange(len(raw)), raw.hex()])
        return plan

    def execute(self, run):
        w, plan, cfg = run.world, run.plan, run.plan["cfg"]
        s = AppSession(run)
        d, h, app = s.d, s.h, s.app
        note_wake(d)
        early = cfg.get("early", ())
        opened = d.host_opened

        def host_opened(ser):
            opened(ser)
            last = 0.0
            for a, b, cut, raw in early:
                raw = bytes.fromhex(raw)
                for t, piece in ((a, raw[:cut]), (b, raw[cut:])):
                    last = max(last, t)
                    w.at(w.now + last, say, ser, piece)

        def say(ser, piece):
            if piece and d.conn is ser and d.present and not ser.broken and not ser.dead:
                w.fired["early-bytes"] += 1
                ser.out_off += len(piece)
                ser.deliver(piece)
        d.host_opened = host_opened
        if cfg.get("probe"):
            h.run_call({"k": "probe"}, lambda rec: app.probe(host.device_config(
                flow=cfg["flow"], baudrate=cfg["baud"])))
        s.startup()
        f = Faults(w, d, plan["events"], lambda: h.loop)
        t0 = w.now + 0.1
        f.start(t0)
        recs = []
        drive(s, plan, t0, recs)
        h.run_until(t0 + 70)
        if cfg.get("restart"):
            h.run_call({"k": "shutdown"}, lambda rec: app.shutdown())
            h.run_until(w.now + 3)
            s.startup(limit=100)
            if cfg.get("probe"):
                h.run_call({"k": "shutdown"}, lambda rec: app.shutdown())
                h.run_call({"k": "probe"}, lambda rec: app.probe(host.device_config(
                flow=cfg["flow"], baudrate=cfg["baud"])))
        else:
            h.run_until(max(w.now, min(f.quiet_at, w.now + 100)) + 20)
        n = check_wake(run, w)
        run.nontrivial = n > 1
        w.probes["connections"] += n


class P09:
    id = "P09"
    RUNS = {"quick": 12000, "thorough": 800000}
    REAL = REAL_ALL
    STUB = STUB
    ASSUME = ASSUME + [
        "writes blocked by flow control when shutdown is called unblock within half a second "
        "(the serial transport sends what was accepted before it closes)"]
    RULE = ("Seeded: shutdown once or several times before any start, after a failed or "
            "cancelled start, while running, in an outage, at chosen times of recovery or "
            "after its n-th command or opening, with traffic. Non-trivial: at shutdown the "
            "driver was not simply idle and connected.")
    SIMPLE = appkit.SIMPLE_LINK

    def gen(self, r, tier, i):
        cfg = gen_link(r)
        cfg["mode"] = r.choice(("run", "run", "run", "run", "cancelled", "failed", "never"))
        cfg["when"] = r.choice((
            {"t": 0.0}, {"t": round(r.random() * 3, 4)}, {"t": round(r.random() * 20, 4)},
            {"t": round(r.choice((5.0, 6.0)) + r.random() * 0.2, 4)},
            {"on": "frame", "n": r.randrange(1, 50), "lag": r.choice((0.0, 0.002, 0.01))},
            {"on": "read", "n": r.randrange(1, 25), "steps": r.randrange(6)},
            {"on": "loss", "n": r.choice((1, 1, 1, 2)), "steps": r.choice((0, 0, 0, 1, 2, 3))},
            {"on": "open", "n": r.choice((1, 1, 2)),
             "lag": r.choice((0.0, 0.0001, 0.5, 0.9999, 1.0, 1.001))}))
        cfg["again"] = [round(r.choice((0.0, 0.5, 5.0, 30.0)) * r.random(), 4)
                        for _ in range(r.choice((0, 0, 1, 2)))]
        cfg["fresh"] = r.random() < 0.3
        cfg["flush_error"] = r.random() < 0.3
        ev = [] if r.random() < 0.25 else gen_events(r, 20.0, need_loss=r.random() < 0.8)
        for e in ev:
            if e["e"] in ("unplug", "away"):
                e["d"] = r.choice((0.5, 4.0, 5.5, 14.0, 40.0))
        if cfg["mode"] == "failed" and r.random() < 0.4:
            ev.insert(0, {"e": "openfail", "t": 0.0,
                          "how": [r.choice(tuple(appkit.OPEN_ERRORS))]})
        if cfg["mode"] == "cancelled":
            cfg["cancel"] = r.choice(({"t": round(r.random() * 2.5, 4)},
                                      {"t": round(r.random(), 4)},
                                      {"on": "frame", "n": r.randrange(1, 45), "lag": 0.001}))
        return {"cfg": cfg, "ops": gen_traffic(r, 20.0), "events": ev}

    def execute(self, run):
        w, plan, cfg = run.world, run.plan, run.plan["cfg"]
        s = AppSession(run)
        d, h, app = s.d, s.h, s.app
        w.ports.conf = lambda ser: setattr(ser, "flush_error", cfg.get("flush_error"))
        if cfg.get("fresh"):
            d.factory()
        mode = cfg["mode"]
        state = "never"
        f = Faults(w, d, plan["events"], lambda: h.loop)
        t0 = w.now
        if mode in ("cancelled", "failed"):
            f.start(t0)
            rec = h.call({"k": "startup"}, lambda rec: app.startup(True))
            if mode == "cancelled":
                c = cfg["cancel"]
                if "t" in c:
                    w.at(t0 + c["t"], lambda: h.loop.call_soon(h.cancel, rec))
                else:
                    f.armed.append(dict(c, e="cancel"))
                    real = f.fire
                    f.fire = lambda ev: (h.loop.call_soon(h.cancel, rec)
                                         if ev["e"] == "cancel" else real(ev))
            while not rec.done and w.now < t0 + 400:
                h.run_until(w.now + (0.02 if w.now < t0 + 3 else 0.5))
            run.check(rec.done, "endless-startup", "startup did not end")
            state = "after-" + ("cancelled" if rec.cancelled else rec.outcome()) + "-startup"
            h.run_until(w.now + cfg["when"].get("t", 0.0) * 0.3)
        elif mode == "run":
            rec = s.startup()
            if not rec.ok:
                run.fail("startup", "a healthy adapter could not be started: %r" % rec.exc)
                return
            t0 = w.now + 0.1
            f.start(t0)
            state = "running"
        recs = []
        drive(s, plan, t0, recs)
        shut = []

        def shutdown():
            if not shut:
                w.log("state-at-shutdown", d.conn is not None, len(w.ports.attempts))
                shut_state.update(conn=d.conn is not None, opens=len(w.ports.attempts))
            shut.append(h.call({"k": "shutdown"}, lambda rec: app.shutdown()))
        shut_state = {}
        when = cfg["when"]
        if mode != "run":
            shutdown()
        elif "t" in when:
            w.at(t0 + when["t"], lambda: h.loop.call_soon(shutdown))
        else:
            f.armed.append(dict(when, e="shutdown"))
            real2 = f.fire
            # (counted in steps of the event loop: in the very step)
            f.fire = lambda ev: (real2(ev) if ev["e"] != "shutdown" else
                                 shutdown() if "steps" in ev else h.loop.call_soon(shutdown))
        while not shut and w.now < t0 + 60:
            h.run_until(w.now + 0.25)
        if not shut:
            h.loop.call_soon(shutdown)
            h.run_until(w.now + 0.001)
        first = shut[0]
        h.run_until(first.t0 + 0.999)
        n0 = len(shut)
        run.check(first.done, "endless", "shutdown did not return within a second")
        slack = w.stalled
        for again in cfg["again"]:
            h.run_until(w.now + again)
            h.loop.call_soon(shutdown)
            h.run_until(w.now + 0.01)
        h.run_until(first.t0 + 1.6)
        left = [x for x in w.ports.opens if x.is_open or x.closed_at > first.t0 + 1.0
                + slack]
        run.check(not left, "port-open", lambda: "shutdown (%s) at %.4f, port opened at %.4f "
                  "closed %s" % (state, first.t0, left[0].opened_at, left[0].closed_at))
        h.run_until(first.t0 + 240)
        for x in shut:
            run.check(x.ok, "shutdown-error", lambda: "shutdown (%s) ended with %r"
                      % (state, x.exc if x.done else "nothing"))
        late = [a for a in w.ports.attempts if a[0] > first.t0]
        run.check(not late, "opened-again", lambda: "shutdown (%s) at %.4f, port opened at %s"
                  % (state, first.t0, [round(a[0], 4) for a in late[:4]]))
        wrote = [fr for fr in d.wire if fr.t0 > first.t0 + 1e-6]
        run.check(not wrote, "wrote", lambda: "shutdown at %.4f, then %r at %.4f"
                  % (first.t0, wrote[0], wrote[0].t0))
        run.check(not w.ports.open_ports(), "port-open-later",
                  lambda: "a port is open long after shutdown")
        run.check(all(x.done for x in recs), "caller-stuck",
                  "a request never ended after shutdown")
        tasks = h.loop.live_tasks()
        run.check(not tasks, "task-left", lambda: "still running 240 s after shutdown: %r"
                  % tasks[:2])
        run.nontrivial = state != "running" or not shut_state.get("conn") or \
            shut_state.get("opens", 1) > 1
        w.probes["shutdown-" + state] += 1
        if state == "running" and not shut_state.get("conn"):
            w.probes["shutdown-in-outage"] += 1
        if n0:
            w.probes["shutdowns"] += len(shut)


PROPS = {"P08": P08(), "P09": P09(), "P22": P22()}
