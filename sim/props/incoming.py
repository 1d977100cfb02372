"""What the adapter reports by itself: P15 (messages), P16 (announcements), P18 (the
light)."""
import asyncio
import collections

from .. import dongle, mt
from ..mt import u16
from . import ASSUME, REAL_ALL, STUB
from . import flow
from .appkit import gen_base, gen_link, gen_unsolicited, ieee_of

CALM = ("stall", "short", "block", "noise", "noise")
LOSSES = ("unplug", "away", "drop", "drop")
SENDS = ("af", "af", "group", "bcast", "node", "active", "ncp")


class HandlerError(Exception):
    """Raised by a listener above the driver, because the plan says so."""


def open_by(rec):
    """Was the connection in use when this report was read? (None: at that instant)"""
    frames = rec["conn"].frames
    if not frames or rec["read"] < frames[0].t0:
        return False
    return True if rec["read"] > frames[0].t0 else None


# -- P15 ---------------------------------------------------------------------
def gen_msg(r, i, devices):
    x = r.random()
    m = {"i": i, "fmt": r.choice(("short", "short", "ext2", "ext3")),
         "src": r.randrange(devices) + 1 if x < 0.8 else 0 if x < 0.85 else 90 + r.randrange(3)}
    size = r.choice((0, 1, 3, 3, 5, 8, 20, 60, 100, 127, 128, 200, 223, 224 if
                     m["fmt"] != "short" else 233))
    data = bytes([r.choice((0x18, 0x08, 0x09, 0x19, 0x01, 0x00)), r.choice((0, 255, i & 0xFF)),
                  r.choice((0x0A, 0x01, 0x0B, 0x00)), i & 0xFF, i >> 8])
    data += bytes(r.choice((0xFE, 0, r.getrandbits(8))) for _ in range(max(0, size - 5)))
    m["data"] = data[:size].hex()
    m["cl"] = r.choice((0, 6, 6, 8, 0x300, 0x402, 0x500, 0xFC00, 0xFFFF, r.randrange(65536)))
    m["sep"] = r.choice((1, 1, 2, 11, 242, r.randrange(256)))
    m["dep"] = r.choice((1, 1, 12, 242, 255, r.randrange(1, 256)))
    m["lqi"] = r.choice((0, 1, 100, 255, r.randrange(256)))
    m["grp"] = r.choice((0, 0, 1, 0xFFFF, r.randrange(65536)))
    m["bc"] = r.choice((0, 1))
    m["sec"] = r.choice((0, 1))
    m["ts"] = r.choice((0, 0xFFFFFFFF, r.getrandbits(32)))
    m["seq"] = r.randrange(256)
    m["pan"] = r.choice((0, 0x1A62, 0xFFFF))
    m["junk"] = r.getrandbits(48).to_bytes(6, "little").hex() if r.random() < 0.5 else "00" * 6
    return m


def raw_msg(m, nwk, ieee):
    data = bytes.fromhex(m["data"])
    kw = dict(group=m["grp"], bcast=m["bc"], lqi=m["lqi"], sec=m["sec"], ts=m["ts"],
              seq=m["seq"])
    if m["fmt"] == "short":
        return mt.incoming_msg(nwk, m["sep"], m["dep"], m["cl"], data, **kw)
    mode, addr = (2, u16(nwk) + bytes.fromhex(m["junk"])) if m["fmt"] == "ext2" else (3, ieee)
    return mt.incoming_msg_ext(mode, addr, m["sep"], m["dep"], m["cl"], data, panid=m["pan"],
                               **kw)


class P15:
    id = "P15"
    RUNS = {"quick": 6000, "thorough": 400000}
    REAL, STUB, SIMPLE = REAL_ALL, STUB, flow.SIMPLE
    ASSUME = ASSUME + ["payloads that fit the report itself (larger ones are fetched piecewise "
                       "on this interface, which the driver does not do)"]
    RULE = ("Seeded: 1 to 40 reports in both formats, senders known (the adapter itself "
            "included) and unknown, payloads from empty to full, before, during and after "
            "startup, alone and among sends, other indications, stalls, raising handlers and "
            "reconnections. Non-trivial: two messages of known devices or more arrived.")

    def gen(self, r, tier, i):
        devices = r.choice((1, 2, 3))
        cfg = gen_link(r)
        base = gen_base(r, cfg)
        n = r.choice((1, 2, 4, 10, 40)) if r.random() > 0.005 else r.choice((140, 300))
        style = r.choice((0.0, 0.001, 0.01, 0.2, 1.0))
        t, msgs = 0.0, []
        start = r.random() < 0.2
        for k in range(n):
            t += style * r.random()
            m = gen_msg(r, k, devices)
            m["t"] = round(t, 4)
            if start and m["src"] == 0:         # known once started
                m["src"] = 1
            if not start and r.random() < 0.15:
                m["on"] = r.randrange(1, 12)        # right after the n-th command
                m["lag"] = r.choice((0.0, 0.001, 0.002, 0.003, 0.006))
            if r.random() < 0.08:
                m["raise"] = True
            elif r.random() < 0.05:
                m["slow"] = r.choice((0.02, 0.5, 2.0))
            msgs.append(m)
        if r.random() < 0.3:
            for k in range(len(msgs) - 1, 0, -1):     # equal messages one after another
                if r.random() < 0.3:
                    msgs[k] = dict(msgs[k - 1], i=msgs[k]["i"], t=msgs[k]["t"])
        slow = 0.0
        for m in msgs:                # (so slow that a start fails is no fault of its own)
            slow += m.get("slow", 0)
            if start and slow > 2.5:
                m.pop("slow", None)
        kinds = r.choice((SENDS, ("af",)))
        ops = flow.gen_sends(r, r.choice((0, 0, 2, 6, 12)), kinds,
                             r.choice((0.0, 0.01, 0.3)), devices=3, base=base)
        top = max([t] + [o["t"] for o in ops]) + 1
        ev = flow.gen_faults(r, CALM + LOSSES if r.random() < 0.3 else CALM, top, base=base)
        moves = []
        if not start and r.random() < 0.35 and all(e["e"] in CALM for e in ev):
            # devices come back under other addresses, some that were another's before
            at = {k: base + k for k in (1, 2, 3)}
            pool = [0x2001, 0x2002, 0x10]
            for tm in sorted(round(r.random() * (t + 0.3), 4)
                             for _ in range(r.choice((1, 2, 3, 6)))):
                k = r.choice((1, 2, 3))
                nwk = pool.pop(r.choice((-1, -1, r.randrange(len(pool)))))
                pool.append(at[k])
                at[k] = nwk
                moves.append({"t": tm, "dev": k, "nwk": nwk})
            ops = [o for o in ops if o.get("dst") is None]
            ev = [e for e in ev if e["e"] != "noise" or e["raw"][4:8] not in ("45c1", "45ca")]
        return {"cfg": dict(cfg, form=r.random() < 0.1, start=start, devices=devices,
                            through=r.random() < 0.3),
                "ops": ops, "msgs": msgs, "events": ev, "moves": moves}

    def execute(self, run):
        plan, w = run.plan, run.world
        f = flow.Flow(run, devices=3, pass_messages=plan["cfg"]["through"])
        d, h = f.d, f.h
        got = []
        addr = {k: (f.base + k, ieee_of(k)) for k in (1, 2, 3)}
        addr[0] = (0, d.ieee)
        for k in (90, 91, 92):
            addr[k] = (0x7000 + k, ieee_of(k))
        todo = []
        recorder = f.app.handle_message

        def handle_message(sender, profile, cluster, sep, dep, message, *a, **k):
            if dep == 0 and sep == 0:          # replies of the management requests
                return recorder(sender, profile, cluster, sep, dep, message, *a, **k)
            key = (bytes(sender.ieee.serialize()), int(sender.nwk), int(cluster), int(sep),
                   int(dep), bytes(message))
            got.append((w.now, key, sender.lqi))
            i = len(got) - 1
            m = todo[i] if i < len(todo) else {}
            if m.get("slow"):
                w.fired["slow-handler"] += 1
                w.stall(m["slow"])
            if m.get("raise"):
                w.fired["raising-handler"] += 1
                raise HandlerError()
            return recorder(sender, profile, cluster, sep, dep, message, *a, **k)
        f.app.handle_message = handle_message

        def emit(m):
            nwk, ieee = addr[m["src"]]
            d.emit(raw_msg(m, nwk, ieee), kind="af", m=m)
            if m["src"] < 90:
                todo.append(m)

        moved = [(0, dict(addr))]

        def move(mv):
            k, nwk = mv["dev"], mv["nwk"]
            if any(a == nwk for x, (a, _) in addr.items() if x != k):
                return                # (only in reduced plans)
            model = d.devs.pop(addr[k][0], None)
            addr[k] = (nwk, addr[k][1])
            if model is not None:
                model.nwk = nwk
                d.devs[nwk] = model
            d.emit(mt.device_annce(nwk, addr[k][1]), kind="annce")
            moved.append((len(d.sent), dict(addr)))
            w.probes["address-changes"] += 1

        msgs = [dict(m) for m in plan["msgs"]]
        if plan["cfg"]["start"]:
            for m in msgs:
                w.at(w.now + m["t"], emit, m)
        if not f.begin(plan["events"], form=plan["cfg"]["form"], ops=plan["ops"]):
            return
        if not plan["cfg"]["start"]:
            base = len(d.wire)
            armed = [m for m in msgs if m.get("on")]
            for m in msgs:
                if not m.get("on"):
                    w.at(f.t0 + m["t"], emit, m)
            for mv in plan["moves"]:
                w.at(f.t0 + mv["t"], move, mv)

            def count(fr):
                for m in list(armed):
                    if len(d.wire) - base >= m["on"]:
                        armed.remove(m)
                        w.after(m["lag"], emit, m)
            d.on_host_frame.append(count)
        f.finish()
        h.run_until(max(w.now, f.t0 + max([m["t"] for m in msgs] or [0])) + 8)
        # noise of the plan contains messages as well
        expect = []
        for n, rec in enumerate(d.sent):
            raw = rec["raw"]
            if rec["read"] is None or raw[2] != 0x44 or raw[3] not in (0x81, 0x82):
                continue
            e = self.decode(raw, [a for i, a in moved if i <= n][-1])
            if e is not None:
                expect.append((rec["read"], e[0], e[1], rec))
        # nothing is expected before the driver uses a new connection
        k = 0
        for x in list(expect):
            use = open_by(x[3])
            if use is False or use is None and (k >= len(got) or got[k][1] != x[1]):
                expect.remove(x)
            else:
                k += 1
        for k, (t, key, lqi, rec) in enumerate(expect):
            if k >= len(got):
                run.check(False, "lost", "message %d of %d arrived at %.4f and was not handed "
                          "up: %s" % (k, len(expect), t, rec["raw"].hex()))
                break
            t1, key1, lqi1 = got[k]
            if not run.check(key == key1, "wrong", lambda: "the message that arrived at %.4f "
                             "(%s), expected (device, address, cluster, endpoints, payload) "
                             "%s; handed up next was %s at %.4f" % (
                                 t, rec["raw"].hex(), key, key1, t1)):
                break
            run.check(lqi1 == lqi, "lqi", lambda: "link quality %d recorded as %r"
                      % (lqi, lqi1))
            run.check(t1 <= t + 0.1 + w.stalled, "late", lambda: "arrived at %.4f, handed up "
                      "at %.4f" % (t, t1))
        else:
            run.check(len(got) <= len(expect), "repeated", lambda: "%d messages arrived, %d "
                      "were handed up, the last %r" % (len(expect), len(got), got[-1]))
        run.nontrivial = len(expect) > 1
        w.probes["messages"] += len(expect)
        w.probes["extended-format"] += sum(1 for x in expect if x[3]["raw"][3] == 0x82)
        w.probes["unknown-sender"] += sum(1 for m in msgs if m["src"] >= 90)

    @staticmethod
    def decode(raw, addr):
        """(what must be handed up, link quality), or None for an unknown sender."""
        d = raw[4:-1]
        cl = d[2] | d[3] << 8
        if raw[3] == 0x81:
            nwk, ieee, rest = d[4:6], None, d[6:8] + d[9:10] + d[17:]
        else:
            nwk = d[5:7] if d[4] == 2 else None
            ieee = d[5:13] if d[4] == 3 else None
            rest = d[13:14] + d[16:17] + d[18:19] + d[27:]
        for n, i in addr.values():
            if (u16(n) == nwk or i == ieee) and not 0x7000 <= n < 0x7100:
                return (i, n, cl, rest[0], rest[1], bytes(rest[3:])), rest[2]
        return None


# -- P16 ---------------------------------------------------------------------
class P16:
    id = "P16"
    RUNS = {"quick": 5000, "thorough": 300000}
    REAL, STUB, SIMPLE = REAL_ALL, STUB, flow.SIMPLE
    ASSUME = ASSUME + ["an address is used by one device at a time; where announcements were "
                       "lost because nothing was connected, messages from an address that two "
                       "known devices were announced with are not judged"]
    RULE = ("Seeded: up to 25 announcements of 1 to 6 known and new devices, repeated, under "
            "new addresses, addresses taken over by others, with messages from them and "
            "requests to them in between, during startup, sends, stalls and reconnections. "
            "Non-trivial: an announcement arrived.")

    def gen(self, r, tier, i):
        n = r.choice((1, 2, 3, 6, 12, 25))
        devices = r.choice((1, 2, 3, 6))
        cfg = gen_link(r)
        base = gen_base(r, cfg)
        style = r.choice((0.0, 0.002, 0.02, 0.3, 2.0))
        start = r.random() < 0.25
        t, evs = 0.0, []
        addr = {k: base + k for k in range(1, devices + 1)}
        free = [0x2000 + k for k in range(8)] + [0x10, 0x100, 0xFFF7, 0x1234]
        for k in range(n):
            t += style * r.random()
            dev = r.randrange(devices) + 1
            x = r.random()
            ev = {"i": k, "t": round(t, 4), "dev": dev}
            if not start and r.random() < 0.2:
                ev["on"], ev["lag"] = r.randrange(1, 15), r.choice((0.0, 0.001, 0.003, 0.006))
            if x < 0.5:
                ev["k"] = "annce"
                if r.random() < 0.6:
                    free.append(addr[dev])
                    addr[dev] = free.pop(r.randrange(len(free) - 1))
                ev["nwk"] = addr[dev]
                if r.random() < 0.1:
                    ev["src"] = 0
                ev["cap"] = r.choice((0x8E, 0x80, 0x84, 0))
            elif x < 0.8:
                ev["k"] = "msg"
                ev["m"] = dict(gen_msg(r, k, 1), src=dev)
            else:
                ev["k"] = "req"
                ev["reply"] = r.random() < 0.5
            evs.append(ev)
        ops = flow.gen_sends(r, r.choice((0, 0, 0, 4, 10)), SENDS,
                             r.choice((0.0, 0.01, 0.3)), devices=3)
        ops = [o for o in ops if o.get("dst") is None]     # by address: see "req"
        top = t + 1
        faults = flow.gen_faults(r, CALM[:-2] + LOSSES if r.random() < 0.35 else CALM[:-2], top)
        return {"cfg": dict(cfg, form=r.random() < 0.1, start=start),
                "evs": evs, "ops": ops, "events": faults}

    def execute(self, run):
        plan, w = run.plan, run.world
        f = flow.Flow(run, devices=3, pass_messages=True)
        d, h, app = f.d, f.h, f.app
        ieee = {k: ieee_of(k) for k in range(1, 7)}
        table = {ieee_of(k): f.base + k for k in (1, 2, 3)}
        place = {}                # device: its address in truth
        for k in (1, 2, 3):
            place[k] = f.base + k
        for k in (4, 5, 6):
            place[k] = f.base + k
            d.devs[f.base + k] = dongle.Dev(f.base + k, ieee[k])
        got, reqs, sent_to = [], [], {}
        told = collections.Counter()     # announcements handed up as messages
        removed = set()           # by the library: their interviews failed

        class Listener:
            def device_removed(self, dev):
                removed.add(bytes(dev.ieee.serialize()))
        app.add_listener(Listener())
        recorder = app.handle_message

        def handle_message(sender, profile, cluster, sep, dep, message, *a, **k):
            who = (bytes(sender.ieee.serialize()), int(sender.nwk))
            if sep or dep:
                got.append((w.now, who + (int(cluster), int(sep), int(dep), bytes(message))))
            elif int(cluster) == 0x13:
                told[who + (bytes(message)[1:11],)] += 1
            return recorder(sender, profile, cluster, sep, dep, message, *a, **k)
        app.handle_message = handle_message

        def request(ev):
            e = mt_ieee(ieee[ev["dev"]])
            if e not in app.devices:
                return
            data = b"\x01\x02\x03" + bytes([ev["i"], 0x5A, 0xA5])
            rec = h.call({"k": "req"}, lambda rec: app.request(
                app.devices[e], 0x0104, 6, 1, 1, 2, data, expect_reply=ev["reply"]))
            reqs.append((rec, ev, data))

        def fire(ev):
            dev = ev["dev"]
            if ev["k"] == "annce":
                old = place[dev]
                model = d.devs.get(old)
                if model is not None and model.ieee == ieee[dev]:
                    del d.devs[old]
                else:
                    model = dongle.Dev(ev["nwk"], ieee[dev])
                place[dev] = model.nwk = ev["nwk"]
                d.devs[ev["nwk"]] = model
                d.emit(mt.device_annce(ev["nwk"], ieee[dev], ev["cap"], ev.get("src")),
                       kind="annce", nwk=ev["nwk"], ieee=ieee[dev])
            elif ev["k"] == "msg":
                d.emit(raw_msg(ev["m"], place[dev], ieee[dev]), kind="af", ev=ev,
                       nwk=place[dev], ieee=ieee[dev])
            else:
                h.loop.call_soon(request, ev)

        def seen(fr):
            if fr.name == "dataRequest":
                sent_to.setdefault(bytes(fr.data[10:]), []).append(fr)
        d.on_host_frame.append(seen)
        evs = plan["evs"]
        if plan["cfg"]["start"]:
            for ev in evs:
                if ev["k"] != "req":
                    w.at(w.now + ev["t"], fire, ev)
        if not f.begin(plan["events"], form=plan["cfg"]["form"], ops=plan["ops"]):
            return
        base = len(d.wire)
        armed = [] if plan["cfg"]["start"] else [ev for ev in evs if ev.get("on")]
        for ev in evs:
            if plan["cfg"]["start"]:
                if ev["k"] == "req":
                    w.at(f.t0 + ev["t"], fire, ev)
            elif not ev.get("on"):
                w.at(f.t0 + ev["t"], fire, ev)

        def count(fr):
            for ev in list(armed):
                if len(d.wire) - base >= ev["on"]:
                    armed.remove(ev)
                    w.after(ev["lag"], fire, ev)
        d.on_host_frame.append(count)
        f.finish()
        h.run_until(max(w.now, f.t0 + max([ev["t"] for ev in evs] or [0])) + 8)

        # -- announcements
        joins = list(h.joins)
        history = []              # (read time, ieee, nwk)
        j, before = 0, (None, 0)
        for rec in d.sent:
            if rec["read"] is None or rec.get("kind") not in ("annce", "af"):
                continue
            use = open_by(rec)
            if use is False:
                continue
            rd = rec["read"]
            if rec["kind"] == "annce":
                key = (rec["nwk"], rec["ieee"])
                hit = j < len(joins) and joins[j][1:] == key
                if before[0] == key and rd < before[1] + 1e-6:
                    continue          # told twice in one breath
                if use is None and not hit:
                    continue
                if not run.check(hit and joins[j][0] <= rd + w.stalled + 1e-6, "not-joined",
                                 lambda: "%s announced itself as %04x at %.4f; reported to the "
                                 "library next: %s" % (rec["ieee"].hex(), rec["nwk"], rd,
                                                       joins[j] if j < len(joins) else None)):
                    return
                while j < len(joins) and joins[j][1:] == key and joins[j][0] < rd + 1e-6:
                    j += 1
                before = (key, rd)
                table[rec["ieee"]] = rec["nwk"]
                history.append((rd, rec["ieee"], rec["nwk"]))
            else:
                self.attribute(run, rec, table, got, use, removed)
        run.check(j == len(joins), "forged",
                  lambda: "a join nobody announced: %r" % (joins[j],))
        heard = collections.Counter((i8, nwk, u16(nwk) + i8) for _, nwk, i8 in joins)
        run.check(told == heard, "announcement-message", lambda: "announcements acted on: %s, "
                  "handed up to the device: %s" % (sorted(heard.items()), sorted(told.items())))
        for i8, nwk in table.items():
            if i8 in removed:
                w.probes["removed-by-library"] += 1
                continue
            devs = [x for x in app.devices.values() if bytes(x.ieee.serialize()) == i8]
            run.check(len(devs) == 1 and int(devs[0].nwk) == nwk, "device-table",
                      lambda: "%s was last announced as %04x and is known as %s" % (
                          i8.hex(), nwk, [hex(int(x.nwk)) for x in devs]))
        # -- requests
        for rec, ev, data in reqs:
            mine = [x for x in history if x[1] == ieee[ev["dev"]]]
            old = [x[2] for x in mine if x[0] < rec.t0 - 1e-9]
            ok = {old[-1] if old else f.base + ev["dev"]}
            for fr in sent_to.get(data, ()):
                fine = ok | {x[2] for x in mine if rec.t0 - 1e-6 <= x[0] <= fr.t0 + 1e-6}
                run.check(fr.data[0] | fr.data[1] << 8 in fine, "old-address",
                          lambda: "a request to device %d called at %.4f went to %04x, the "
                          "device was known to be %s" % (
                              ev["dev"], rec.t0, fr.data[0] | fr.data[1] << 8,
                              [hex(x) for x in fine]))
        run.nontrivial = bool(history)
        w.probes["announcements"] += len(history)
        w.probes["address-changes"] += len({(x[1], x[2]) for x in history}) - len(
            {x[1] for x in history})
        w.probes["requests-to-moved"] += len(sent_to)

    @staticmethod
    def attribute(run, rec, table, got, use, removed):
        """A message from a device: handed up as coming from it?"""
        m = rec["ev"]["m"]
        nwk, i8 = rec["nwk"], rec["ieee"]
        at = [x for x in got if x[0] <= rec["read"] + 1e-9 + run.world.stalled
              and x[0] >= rec["read"] - 1e-9
              and x[1][5].hex() == m["data"] and x[1][2] == m["cl"]]
        owners = [i for i, a in table.items() if a == nwk]
        if m["fmt"] == "ext3":
            owners = [i for i in (i8,) if i in table]
        if len(owners) > 1 or use is None or removed.intersection(owners):
            return
        if not owners:
            run.check(not any(x[1][1] == nwk for x in at), "forged",
                      lambda: "a message from the unknown address %04x was handed up" % nwk)
            return
        run.check(any(x[1][0] == owners[0] and x[1][1] == table[owners[0]]
                      and x[1][3:5] == (m["sep"], m["dep"]) for x in at), "attribution",
                  lambda: "the message %s read at %.4f comes from %s (known as %04x); handed "
                  "up: %s" % (rec["raw"].hex(), rec["read"], owners[0].hex(),
                              table[owners[0]], at))


def mt_ieee(b):
    import zigpy.types as zt
    return zt.EUI64.deserialize(b)[0]


# -- P18 ---------------------------------------------------------------------
class P18:
    id = "P18"
    RUNS = {"quick": 5000, "thorough": 300000}
    REAL, STUB, SIMPLE = REAL_ALL, STUB, flow.SIMPLE
    ASSUME = ASSUME + [
        "a reply to a request to open or close joining is not itself a report of the state: "
        "permitJoinInd is",
        "reports read before the driver knows the firmware family, or while a start that "
        "ends with the light off is in progress, are not judged"]
    RULE = ("Seeded: up to 12 reports of joining opened and closed, permit calls of the "
            "library with reports before and after the reply, replies of routers and failed "
            "ones, light commands refused, lost and slow, other sends, stalls, reconnections, "
            "reports during startup. Non-trivial: a report was judged.")

    def gen(self, r, tier, i):
        n = r.choice((1, 2, 3, 6, 12)) if r.random() > 0.005 else r.choice((70, 140, 270))
        style = r.choice((0.0, 0.001, 0.01, 0.3, 3.0, 10.0))
        start = r.random() < 0.2
        t, evs = 0.0, []
        for k in range(n):
            t += style * r.random()
            ev = {"t": round(t, 4)}
            x = r.random()
            if x < 0.6:
                ev.update(k="ind", dur=r.choice((0, 0, 60, 1, 254, 255)))
            elif x < 0.75:
                ev.update(k="rsp", src=r.choice((0, 0x1001)), status=r.choice((0, 0x85, 0xC2)))
                if ev["src"] == 0 and ev["status"] == 0:
                    ev["src"] = 0x1002
            elif not start:
                ev.update(k="permit", dur=r.choice((0, 0, 60, 254)),
                          ind=r.choice(("before", "before", "after", "none")),
                          node=r.choice((None, None, 0, 1)))
            else:
                ev.update(k="ind", dur=r.choice((0, 60)))
            if not start and r.random() < 0.15 and ev["k"] == "ind":
                ev["on"], ev["lag"] = r.randrange(1, 15), r.choice((0.0, 0.001, 0.003, 0.006))
            evs.append(ev)
        leds = [{} if r.random() < 0.6 else flow.gen_act(r) for _ in range(r.choice((0, 4, 12)))]
        ops = flow.gen_sends(r, r.choice((0, 0, 3, 8)), ("af", "af", "group", "bcast", "node"),
                             r.choice((0.0, 0.01, 0.3)), devices=3, hard=False)
        top = max([t] + [o["t"] for o in ops]) + 1
        kinds = ("stall", "short", "block") + (("drop", "unplug", "away")
                                               if r.random() < 0.25 else ())
        return {"cfg": dict(gen_link(r), form=r.random() < 0.4, start=start),
                "evs": evs, "leds": leds, "ops": ops,
                "events": flow.gen_faults(r, kinds, top)}

    def execute(self, run):
        plan, w = run.plan, run.world
        f = flow.Flow(run, devices=3)
        d, h, app = f.d, f.h, f.app
        leds = list(plan["leds"])
        inds = []                 # what goes with the next permit request

        def emit_ind(dur):
            d.emit(mt.named(mt.AREQ, "permitJoinInd", bytes([dur])), kind="ind", dur=dur)

        def start_permit(ev):
            async def go(rec):
                prev = chain[-1] if chain else None
                chain.append(rec)
                if prev is not None and not prev.done:
                    await asyncio.wait({prev.task})
                inds[:] = [ev]
                node = ev["node"]
                if node == 1:
                    await app.permit(ev["dur"], node=mt_ieee(ieee_of(1)))
                elif node == 0:
                    await app.permit(ev["dur"], node=mt_ieee(d.ieee))
                else:
                    await app.permit(ev["dur"])
            h.call({"k": "permit"}, go)
        chain = []

        def fire(ev):
            if ev["k"] == "ind":
                emit_ind(ev["dur"])
            elif ev["k"] == "rsp":
                d.emit(mt.named(mt.AREQ, "mgmtPermitJoinRsp", u16(ev["src"])
                                + bytes([ev["status"]])))
            else:
                h.loop.call_soon(start_permit, ev)

        evs = plan["evs"]
        if plan["cfg"]["start"]:
            for ev in evs:
                if ev["k"] != "permit":
                    w.at(w.now + ev["t"], fire, ev)
        if not f.begin(plan["events"], form=plan["cfg"]["form"], ops=plan["ops"]):
            return
        base_dir, base_ota = d.directive, d.ota

        def directive(fr, k):
            if fr.name == "ledControl" and leds:
                return dict(leds.pop(0))
            return base_dir(fr, k)

        def ota(name, dst, data):
            if name == "mgmtPermitJoinReq":
                ev = inds[0] if inds else None
                if ev and dst == 0 and ev["ind"] != "none":
                    w.after(0.0 if ev["ind"] == "before" else 0.3, emit_ind, data[3])
            return base_ota(name, dst, data)
        d.directive, d.ota = directive, ota
        base = len(d.wire)
        armed = []
        if not plan["cfg"]["start"]:
            armed = [ev for ev in evs if ev.get("on")]
            for ev in evs:
                if not ev.get("on"):
                    w.at(f.t0 + ev["t"], fire, ev)

        def count(fr):
            for ev in list(armed):
                if len(d.wire) - base >= ev["on"]:
                    armed.remove(ev)
                    w.after(ev["lag"], fire, ev)
        d.on_host_frame.append(count)
        f.finish()
        h.run_until(max(w.now, f.t0 + max([ev["t"] for ev in evs] or [0]) + 1))
        for _ in range(20):       # lost answers to light commands delay those behind
            n = len(d.wire)
            h.run_until(w.now + 7 + 12 * (not all(c.done for c in chain)))
            if len(d.wire) == n and d.conn is not None and all(c.done for c in chain):
                break
        f.answers()
        lights = [fr for fr in d.wire if fr.name == "ledControl"]
        for fr in lights:
            run.check(d.product != 1, "light-on-3x0", lambda: "a light command was sent to a "
                      "Z-Stack 3.x.0 adapter: %r" % fr)
            run.check(bytes(fr.data) in (b"\x03\x00", b"\x03\x01"), "light-command",
                      lambda: "not a command to switch the light: %r" % fr)
        flow.judge_truth(f)
        run.check(not w.loop_errors or w.stalled, "loop-error",
                  lambda: "an error reached the event loop: %s" % w.loop_errors[:1])
        if d.product == 1:
            run.nontrivial = bool(d.sent)
            return
        # -- what the light must show in the end
        conn = d.conn
        if conn is None:
            return
        version = [rec["read"] for rec in d.sent if rec.get("kind") == "srsp"
                   and rec["req"].name == "version" and rec["read"] is not None]
        known = min(version or [1e9])
        info = [rec["read"] for rec in d.sent if rec.get("kind") == "srsp" and
                rec["conn"] is conn and rec["req"].name == "getDeviceInfo"
                and rec["read"] is not None]
        if not info:
            w.probes["not-recovered"] += 1
            return
        forms = plan["cfg"]["form"] or len(d.conns) > 1
        begin, end = conn.opened_at, info[-1]
        reports = [rec for rec in d.sent if rec.get("kind") == "ind" and rec["read"] is not None]
        here = [fr for fr in lights if fr.conn is conn]
        if forms:
            run.check(bool(here), "not-off", "a start did not switch the light off")
        late = [x for x in reports if x["conn"] is conn and x["read"] > (end if forms else known)
                + 1e-9]
        unsure = [x for x in reports if x["conn"] is conn and x not in late
                  and open_by(x) is not False and (forms or x["read"] >= known)]
        first_off = here[0].t0 if here else 1e9
        if late:
            want = 1 if late[-1]["dur"] else 0
            run.nontrivial = True
            what = "the last report (read at %.4f) says joining is %s" % (
                late[-1]["read"], "open" if want else "closed")
        elif forms and not [x for x in unsure if x["read"] > first_off - 0.5]:
            want, what = 0, "the start ended at %.4f" % end
        else:
            w.probes["not-judged"] += 1
            return
        opened = [fr for fr in d.wire if fr.name == "mgmtPermitJoinReq" and fr.data[3]
                  and fr.t0 >= (late[-1]["read"] if late else end) - 1.0]
        if want == 0 and opened:
            w.probes["not-judged"] += 1        # opened since: its reply may say so
            return
        mode = here[-1].data[1] if here else None
        run.check(mode == want, "light", lambda: "%s; the last command sent to the light: %s"
                  % (what, here[-1] if here else None))
        w.probes["light-judged"] += 1


PROPS = {"P15": P15(), "P16": P16(), "P18": P18()}
