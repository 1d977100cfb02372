"""P01 framing and P02 containment of line damage."""
import asyncio

from .. import core, dongle, host, mt
from . import ASSUME, REAL_API, REAL_ALL, STUB

SUBSYS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 21]


def rand_data(r, n):
    style = r.randrange(4)
    if style == 0:
        return bytes(r.choice((0xFE, 0x00, 0xFE, 0x02, 0x44)) for _ in range(n))
    if style == 1:
        return bytes([0xFE] * n)
    return bytes(r.randrange(256) for _ in range(n))


def rand_len(r):
    return r.choice((0, 0, 0, 1, 1, 2, 3, 5, 8, 20, r.randrange(0, 60),
                     r.randrange(0, 251), 250))


# frames without payload that are complete as such
EMPTY = [(1, 1, 1), (1, 1, 2), (1, 1, 4), (1, 1, 0x0C), (1, 5, 0x50), (2, 6, 9), (1, 6, 0),
         (3, 6, 0), (3, 6, 1), (3, 6, 3), (3, 6, 7), (3, 5, 0x52), (1, 7, 0), (2, 7, 0xE0)]


class UartStub:
    def __init__(self, world):
        self.world = world
        self.frames = []
        self.lost = 0

    def data_received(self, frame):
        self.frames.append((self.world.now, int(frame.command_type), int(frame.subsystem),
                            int(frame.command_id), bytes(frame.data)))

    def connection_lost(self, *a):
        self.lost += 1


class P01:
    id = "P01"
    RUNS = {"quick": 24000, "thorough": 1500000}
    REAL = ["zigpy_cc.uart (Parser, UnpiFrame, Gateway, connect)",
            "pyserial-asyncio SerialTransport", "asyncio event loop core"]
    STUB = STUB[:1] + STUB[2:] + ["the layer above the serial gateway (records frames)"]
    ASSUME = ASSUME[2:] + ["between frames the line carries only bytes other than the "
                           "start byte"]
    RULE = ("Seeded: a stream of well-formed frames (all types and subsystems, payloads of "
            "0..250 bytes, many with start bytes inside) with noise between them, cut into "
            "reads at seeded places and times, over one or two connections, the first cut "
            "off inside a frame. Non-trivial: at least two frames and two reads.")
    SIMPLE = {"chunk": "whole", "trunc": 0, "cap": 0}

    def gen(self, r, tier, i):
        n = r.choice((1, 2, 3, 4, 6, 9))
        frames = []
        two = r.random() < 0.25
        for k in range(n):
            noise = b""
            if r.random() < 0.3:
                noise = bytes(r.choice((0, 1, 0xEF, 0xFD, 0xFF, 0x45))
                              for _ in range(r.randrange(1, 7)))
                if r.random() < 0.02:
                    # another baud rate, a boot message
                    noise = noise * r.choice((60, 300, 900))
            frames.append({
                "c": 1 if two and k >= n // 2 else 0,
                "ty": r.randrange(4), "s": r.choice(SUBSYS), "id": r.randrange(256),
                "d": rand_data(r, rand_len(r)).hex(), "n": noise.hex()})
            if r.random() < 0.004:
                frames[-1]["x"] = r.choice((70, 140, 270, 600))
        return {"cfg": {"chunk": r.choice(("whole", "bytes", "small", "random", "large")),
                        "gap": r.choice((0.0, 0.0, 0.001, 0.02, 3.0, 70.0)),
                        "cap": r.choice((0, 0, 0, 1, 2, 7, 64)),
                        "trunc": r.choice((0, 1, 2, 3, 4, 5, 9)) if two else 0,
                        "tail": r.choice(("", "", "00", "ef01", "fe", "fe03"))},
                "frames": frames}

    def execute(self, run):
        w, plan = run.world, run.plan
        cfg = plan["cfg"]
        peer = dongle.RawPeer(w)
        w.ports.peers["/dev/null"] = peer
        h = host.Host(w)
        h.boot()
        stub = UartStub(w)
        config = host.device_config()
        expected = []
        for c in (0, 1):
            frames = [f for f in plan["frames"] if f["c"] == c]
            if c == 1 and not frames:
                break
            w.ports.conf = lambda ser: setattr(ser, "cap_read", cfg["cap"])
            rec = h.run_call({"k": "connect"},
                             lambda rec: host.zigpy_cc.uart.connect(config, stub))
            if not rec.ok:
                run.fail("connect", "the port could not be opened: %r" % rec.exc)
                return
            gw = rec.res
            ser = peer.conn
            stream, ends = b"", []
            for f in (f for f in frames for _ in range(f.get("x", 1))):
                d = bytes.fromhex(f["d"])
                stream += bytes.fromhex(f["n"]) + mt.frame(f["ty"], f["s"], f["id"], d)
                ends.append((len(stream), f, d))
            if c == 0 and cfg["trunc"] and stream:
                stream = stream[:-cfg["trunc"]]
            elif c == 0:
                stream += bytes.fromhex(cfg["tail"])
            for end, f, d in ends:
                if end <= len(stream):
                    expected.append((c, end, (f["ty"], f["s"], f["id"], d)))
            r = core.rng_for(plan["seed"], "cut", c)
            t = w.now + 0.01
            for piece in dongle.cut(stream, cfg["chunk"], r):
                w.at(t, ser.deliver, piece)
                if cfg["gap"] and r.random() < 0.7:
                    t += cfg["gap"] * r.random()
            h.run_until(t + 0.5)
            gw.close()
            h.run_until(w.now + 0.2)
        got = [(x[1:], x[0]) for x in stub.frames]
        run.nontrivial = len(expected) >= 2 and len(peer.reads) >= 2
        w.probes["empty-payload-frame"] += sum(1 for e in expected if not e[2][3])
        w.probes["frame-over-several-reads"] += len(peer.reads) > len(expected)
        run.check([g for g, _ in got] == [e[2] for e in expected], "frames",
                  lambda: "delivered %s, the line carried %s" % (
                      brief([g for g, _ in got]), brief([e[2] for e in expected])))
        if not run.violations:
            for (c, end, f), (_, t) in zip(expected, got):
                due = peer.read_time(c, end)
                run.check(due is not None and abs(t - due) < 1e-6, "late",
                          lambda: "frame %s complete at %s, delivered at %s" % (
                              brief([f]), due, t))


def brief(frames):
    return "[" + ", ".join("%d/%d/%d:%s" % (f[0], f[1], f[2], f[3].hex()[:16])
                           + ("..%d" % len(f[3]) if len(f[3]) > 8 else "")
                           for f in frames) + "]"


# ---------------------------------------------------------------------------
NWK = 0x4A21
IEEE = bytes([1, 2, 3, 4, 5, 6, 7, 8])


def nwk_ieee_in(f, nwk, ieee):
    """The frame is an announcement or a trust centre report of that device."""
    body = f[4:-1]
    if f[3] == 0xC1:
        return body[2:12] == mt.u16(nwk) + ieee
    return f[3] == 0xCA and body[:10] == mt.u16(nwk) + ieee


def good_frame(k, r):
    """A data indication with unique content and no start byte inside."""
    while True:
        data = bytes([0x18, k & 0x7F, k >> 7, 0x0A]) + bytes(
            r.randrange(1, 0xF0) for _ in range(r.randrange(0, 12)))
        raw = mt.incoming_msg(NWK, 1, 1, 6, data, lqi=k & 0x7F)
        if 0xFE not in raw[1:]:
            return raw, data


class P02:
    id = "P02"
    RUNS = {"quick": 12000, "thorough": 400000}
    REAL = REAL_ALL
    STUB = STUB
    ASSUME = ASSUME[2:] + [
        "resynchronisation is promised after 260 undamaged bytes free of start bytes "
        "inside frames (the length field bounds the bytes a false start can swallow)"]
    RULE = ("Seeded: data indications interleaved with damage (flipped, lost, inserted, "
            "duplicated bytes, cut frames, false start bytes) and with well-formed frames "
            "nobody understands (unknown subsystem, unknown command, short, long or odd "
            "payloads), in seeded reads; a quiet stretch and a command follow. Non-trivial: "
            "some damage or odd frame is on the line.")
    SIMPLE = {"chunk": "whole", "cap": 0, "mode": "api"}

    def gen(self, r, tier, i):
        items = []
        style = r.choice(("odd", "damage", "both"))
        for k in range(r.choice((2, 3, 4, 6, 9, 14))):
            x = r.random()
            if x < 0.45:
                items.append({"k": "good", "seed": r.getrandbits(30)})
            elif style != "damage" and (style == "odd" or x < 0.75):
                items.append({"k": "odd", "seed": r.getrandbits(30),
                              "kind": r.choice(("subsys", "cmd", "short", "long", "rand",
                                                "type", "rpc", "known", "alias", "alias"))})
            else:
                items.append({"k": "bad", "seed": r.getrandbits(30),
                              "base": r.choice(("data", "data", "data", "empty", "small")),
                              "kind": r.choice(("flip", "drop", "insert", "noise", "cut",
                                                "sof", "len", "fcs", "fe"))})
            if r.random() < 0.004:
                # the same over and over
                items[-1]["x"] = r.choice((20, 70, 140, 270))
        return {"cfg": {"mode": r.choice(("api", "app")),
                        "chunk": r.choice(("whole", "bytes", "small", "random", "large")),
                        "gap": r.choice((0.0, 0.001, 0.01, 0.01, 2.0, 15.0)),
                        "cap": r.choice((0, 0, 0, 3, 50)),
                        "product": r.choice((0, 1, 2)),
                        "early": r.random() < 0.25},
                "items": items}

    def odd(self, it, r):
        kind = it["kind"]
        data = rand_data(r, r.choice((0, 1, 2, 3, 5, 9, 20, 60)))
        if kind == "subsys":
            return mt.frame(r.choice((1, 2, 3)), r.choice([s for s in range(32)
                                                          if s not in SUBSYS]),
                            r.randrange(256), data)
        if kind == "cmd":
            return mt.frame(2, r.choice(SUBSYS), r.choice((0x70, 0x7B, 0xE1, 0xEE, 0xF7)),
                            data)
        if kind == "short":
            s, c = r.choice(((4, 0x81), (5, 0xC1), (5, 0xC0), (5, 0x82), (5, 0x84),
                             (5, 0x85), (5, 0xB1), (1, 0x80), (4, 0x80), (5, 0xCB),
                             (3, 0x01), (5, 0x80), (5, 0xB6)))
            return mt.frame(2, s, c, data[:r.randrange(0, 3)])
        if kind == "long":
            return mt.frame(2, 5, r.choice((0xA1, 0xC9, 0xC4, 0xB8, 0x8A)),
                            data + bytes(30))
        if kind == "type":
            return mt.frame(r.choice((0, 4, 5, 6, 7)), r.choice(SUBSYS), r.randrange(256),
                            data)
        if kind == "alias":
            # one bit away from a frame somebody would act on
            raw = bytearray(r.choice((
                lambda: mt.incoming_msg(NWK, 1, 1, 6, bytes([0x18, 1, r.randrange(250), 1])),
                lambda: mt.device_annce(0x5000 + r.randrange(256), IEEE[:7] + b"\x77"),
                lambda: mt.named(2, "tcDeviceInd", b"\x33\x44" + IEEE + b"\x00\x00"),
                lambda: mt.named(3, "ping", b"\x79\x07"),
                lambda: mt.named(2, "resetInd", b"\x00\x02\x00\x02\x06\x03")))())
            raw[r.choice((2, 2, 2, 3))] ^= 1 << r.choice((3, 4, 5, 6, 7))
            raw[-1] = mt.fcs(raw[1:-1])
            return bytes(raw)
        if kind == "rpc":
            return mt.frame(3, 0, 0, bytes([2, 0x25, 0x17]))
        if kind == "known":
            return r.choice((
                mt.named(2, "permitJoinInd", b"\x3c"), mt.named(2, "permitJoinInd", b"\x00"),
                mt.named(2, "mgmtPermitJoinRsp", b"\x00\x00\x00"),
                mt.named(2, "stateChangeInd", b"\x09"),
                mt.named(2, "tcDeviceInd", b"\x33\x44" + IEEE + b"\x00\x00"),
                mt.named(2, "srcRtgInd", b"\x33\x44\x01\x21\x4a"),
                mt.named(2, "mgmtLqiRsp", b"\x21\x4a\x00\x01\x00\x01" + bytes(22)),
                mt.frame(2, 5, 0x80, b"\x00" + IEEE + b"\x21\x4a\x00\x01\x33\x44"),
                mt.frame(2, 5, 0xB3, b"\x21\x4a\x00\x01\x00\x01" + bytes(21)),
                mt.frame(2, 5, 0xB2, b"\x21\x4a\x00\x01\x00\x01" + bytes(5)),
                mt.incoming_msg(0x7777, 1, 1, 6, b"\x18\x01\x0a"),
            ))
        return mt.frame(r.randrange(1, 4), r.choice((1, 4, 5, 7, 15)), r.randrange(256), data)

    def bad(self, it, r):
        raw, _ = good_frame(r.randrange(4000), r)
        base = it.get("base")
        if base == "empty":
            raw = mt.frame(*r.choice(EMPTY))
        elif base == "small":
            raw = r.choice((mt.device_annce(0x5000 + r.randrange(256), IEEE[:7] + b"\x77"),
                            mt.named(3, "ping", b"\x79\x07"),
                            mt.named(2, "permitJoinInd", b"\x3c"),
                            mt.named(2, "resetInd", b"\x00\x02\x00\x02\x06\x03")))
        raw = bytearray(raw)
        kind = it["kind"]
        if kind == "flip":
            for _ in range(r.choice((1, 1, 2, 5))):
                raw[r.randrange(len(raw))] ^= 1 << r.randrange(8)
        elif kind == "drop":
            del raw[r.randrange(len(raw))]
        elif kind == "insert":
            raw.insert(r.randrange(len(raw)), r.randrange(256))
        elif kind == "noise":
            raw = bytearray(rand_data(r, r.randrange(1, 40)))
            if r.random() < 0.01:
                raw = bytearray(b for b in rand_data(r, r.choice((300, 1200)))
                                if b != mt.SOF)
        elif kind == "cut":
            raw = raw[:r.randrange(1, len(raw))]
        elif kind == "sof":
            del raw[0]
        elif kind == "len":
            raw[1] = r.randrange(256)
        elif kind == "fcs":
            raw[-1] ^= r.randrange(1, 256)
        elif kind == "fe":
            raw = bytearray([0xFE] * r.randrange(1, 8))
        return bytes(raw)

    def execute(self, run):
        w, plan = run.world, run.plan
        cfg = plan["cfg"]
        d = dongle.Dongle(w, product=cfg["product"], seed=plan["seed"],
                          link={"cap_read": cfg["cap"]})
        d.configured()
        w.ports.peers["/dev/null"] = d
        # -- the stream
        stream, goods, last_damage = b"", [], -1
        mask = []
        k = 0
        for it, j in ((it, j) for it in plan["items"] for j in range(it.get("x", 1))):
            r = core.rng_for(it["seed"], *([j] if j else []))
            if j:
                w.probes["repeated-item"] += 1
            if it["k"] == "good":
                raw, data = good_frame(k, r)
                goods.append((len(stream), len(stream) + len(raw), data))
                k += 1
            elif it["k"] == "odd":
                raw = self.odd(it, r)
                w.fired["odd-frame-" + it["kind"]] += 1
                run.nontrivial = True
            else:
                raw = self.bad(it, r)
                w.fired["damage-" + it["kind"]] += 1
                run.nontrivial = True
                last_damage = len(stream) + len(raw)
            stream += raw
            if it["k"] == "odd" and last_damage >= 0 and mt.SOF in raw[1:]:
                last_damage = len(stream)     # may be taken for more false starts
        r = core.rng_for(plan["seed"], "flush")
        flush_from = len(stream)
        while len(stream) < flush_from + 300:
            raw, data = good_frame(k, r)
            goods.append((len(stream), len(stream) + len(raw), data))
            stream += raw
            k += 1
        tail_from = len(stream)
        for _ in range(3):
            raw, data = good_frame(k, r)
            goods.append((len(stream), len(stream) + len(raw), data))
            stream += raw
            k += 1
        # -- the host
        if cfg["mode"] == "api":
            h = host.Host(w)
            h.boot()
            stub = host.StubApp(w)
            api = host.zigpy_cc.api.API(host.device_config())
            api.set_application(stub)
            rec = h.run_call({"k": "connect"}, lambda rec: api.connect())
        else:
            h = host.AppHost(w, host.app_config())
            h.boot()
            app = h.create()
            h.pass_messages = h.pass_joins = False
            h.add_device(NWK, IEEE)
            if cfg["early"]:
                # odd frames while the adapter is still being started
                rr = core.rng_for(plan["seed"], "early")
                for j, it in enumerate(plan["items"]):
                    if it["k"] == "odd" and it["kind"] in ("known", "cmd", "short", "subsys"):
                        raw = self.odd(it, core.rng_for(it["seed"]))
                        w.at(w.now + 1.0 + rr.random() * 0.3, d.emit, raw)
                        w.probes["odd-frame-during-startup"] += 1
            rec = h.run_call({"k": "startup"}, lambda rec: app.startup(True))
            api = None
        if not rec.ok:
            run.fail("startup", "a healthy adapter could not be started: %s" % rec.outcome())
            return
        h.run_until(w.now + 1.0)
        ser = d.conn
        opens = len(w.ports.opens)
        base = ser.read_off
        t = w.now + 0.01
        if cfg["mode"] == "api":
            before = len(stub.objs)
        else:
            before, joined = len(h.messages), len(h.joins)
        r = core.rng_for(plan["seed"], "cut")
        for piece in dongle.cut(stream, cfg["chunk"], r):
            w.at(t, ser.deliver, piece)
            if cfg["gap"] and r.random() < 0.7:
                t += cfg["gap"] * r.random()
        ser.last_out = t              # answers queue behind the stream
        objs = joins = None
        h.run_until(t + 0.5)
        if cfg["mode"] == "api":
            objs = stub.objs[before:]
        else:
            joins = h.joins[joined:]
        # -- what came out
        if cfg["mode"] == "api":
            got = [bytes(o.payload["data"]) for _, o in stub.objs[before:]
                   if o.command == "incomingMsg" and int(o.command_type) == 2
                   and o.payload["srcaddr"] == NWK]
        else:
            got = [m[6] for m in h.messages[before:] if m[1].nwk == NWK and m[3] == 6]
        valid = []
        for a, b in mt.valid_frames_in(stream):
            if stream[a + 2] == (2 << 5) | 4 and stream[a + 3] == 0x81 and b - a >= 22:
                body = stream[a + 4:b - 1]
                n = body[16]
                if body[4] | body[5] << 8 == NWK and len(body) >= 17 + n:
                    valid.append((a, b, body[17:17 + n]))
        # (a) nothing is delivered that the line did not carry intact, in order
        pos = 0
        for g in got:
            m = next((v for v in valid if v[0] >= pos and v[2] == g), None)
            if not run.check(m is not None, "forged",
                             lambda: "delivered %s: no intact frame on the line carries it "
                             "(again) here" % g.hex()):
                return
            pos = m[1]
        # and nothing the layers above get was put together from something else
        frames = [bytes(stream[a:b]) for a, b in mt.valid_frames_in(stream)]
        kinds = {(f[2] >> 5, f[2] & 0x1F, f[3]) for f in frames}
        if cfg["mode"] == "api":
            for _, o in objs:
                s_c = mt.IDS.get(o.command)
                kind = (int(o.command_type), int(o.subsystem), s_c and s_c[1])
                if s_c is None:
                    ok = any(x[:2] == kind[:2] for x in kinds)
                else:
                    ok = kind in kinds
                run.check(ok, "forged-kind", lambda: "%s/%s %s was passed on: no frame of "
                          "that kind was on the line" % (kind[0], kind[1], o.command))
        else:
            for _, nwk, ieee in joins:
                ok = any(f[2] >> 5 == 2 and f[2] & 0x1F == 5 and nwk_ieee_in(f, nwk, ieee)
                         for f in frames)
                run.check(ok, "forged-join", lambda: "a join of %#06x was reported: no "
                          "frame on the line says so" % nwk)
        # (b) what must have come through
        must = [g for g in goods if last_damage < 0 or g[0] >= last_damage + 260]
        for a, b, data in must:
            run.check(data in got, "lost",
                      lambda: "intact frame %s at offset %d was lost (last damage ends at "
                      "%d)" % (data.hex(), a, last_damage))
        # (c) the connection is still the same one, and it works
        run.check(len(w.ports.opens) == opens and ser.is_open and d.conn is ser, "dropped",
                  lambda: "the connection was given up")
        if cfg["mode"] == "api":
            rec = h.run_call({"k": "ping"}, lambda rec: api.request(1, "ping", {}))
        else:
            dev = app.get_device(nwk=NWK)
            rec = h.run_call({"k": "send"}, lambda rec: app.request(
                dev, 0x0104, 6, 1, 1, 7, b"\x01\x07\x01", expect_reply=False))
        run.check(rec.ok, "dead", lambda: "a command after the disturbance: %s" % rec.outcome())


PROPS = {"P01": P01(), "P02": P02()}
