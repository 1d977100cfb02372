"""P03 one command at a time, P04 own answers, P05 bounded time: the command queue."""
import json
import os
import struct

import zigpy.types

from .. import core, dongle, host, mt
from ..mt import u16
from . import ASSUME, REAL_ALL, REAL_API, STUB
from . import appkit, flow

SREQ_LIMIT, START_LIMIT, RESET_LIMIT = 6.0, 20.0, 30.0
EPS = 0.02


def limit_of(fr):
    if fr.ctype == mt.AREQ:
        return RESET_LIMIT
    return START_LIMIT if fr.name in ("startupFromApp", "bdbStartCommissioning") else SREQ_LIMIT


def is_reset(fr):
    return fr.ctype == mt.AREQ and (fr.subsys, fr.cmd) in ((mt.SYS, 0), (mt.SAPI, 9))


# ---------------------------------------------------------------------------
# the commands used: (subsystem, name, parameters), what must be on the wire,
# and how an answer reads
# ---------------------------------------------------------------------------
def nv_value(i):
    return bytes([0xA0, i & 0xFF, i >> 8, 0x55])


def build(op, i):
    """(subsystem, command, payload, wire data) of op number i (i makes it unique)."""
    k = op["k"]
    if k == "any":
        return op["s"], op["name"], any_payload(op), bytes.fromhex(op["data"])
    if k == "nvr":
        return 1, "osalNvRead", {"id": 0x400 + i, "offset": 0}, u16(0x400 + i) + b"\x00"
    if k == "nvlen":
        return 1, "osalNvLength", {"id": 0x400 + i}, u16(0x400 + i)
    if k == "nvw":
        v = bytes([i & 0xFF, 0x77, 0, 1])
        return (1, "osalNvWrite", {"id": 0x400 + i, "offset": 0, "len": 4, "value": v},
                u16(0x400 + i) + b"\x00\x04" + v)
    if k == "cfg":
        return 6, "readConfiguration", {"configid": 0x10 + i}, bytes([0x10 + i])
    if k == "grp":
        return (5, "extFindGroup", {"endpoint": 9, "groupid": 0x2000 + i},
                b"\x09" + u16(0x2000 + i))
    if k == "led":
        return 7, "ledControl", {"ledid": 1 + i, "mode": 1}, bytes([1 + i, 1])
    if k == "random":
        return 1, "random", {}, b""
    if k == "ping":
        return 1, "ping", {}, b""
    if k == "reset":
        return 1, "resetReq", {"type": 1}, b"\x01"
    if k == "start":
        return 5, "startupFromApp", {"startdelay": 100 + i}, u16(100 + i)
    if k == "bdb":
        return 15, "bdbStartCommissioning", {"mode": 2}, b"\x02"
    raise KeyError(k)


# every other synchronous command of the protocol (subsystem, id, name, parameters)
with open(os.path.join(os.path.dirname(__file__), "..", "mt_table.json")) as _f:
    TABLE = json.load(_f)
INTS = {"UINT8": 1, "UINT16": 2, "UINT32": 4}


def gen_value(r, name, typ, nxt):
    """A value for a parameter (the number of what follows stays small)."""
    if typ == "INT8":
        return r.randrange(-128, 128)
    if typ in INTS:
        if nxt in ("BUFFER", "LIST_UINT8"):
            return r.choice((0, 1, 2, 16, 30))
        if nxt in ("LIST_UINT16", "LIST_NEIGHBOR_LQI"):
            return r.choice((0, 1, 2, 3))
        if name.endswith("addrmode"):
            return r.choice((1, 2, 3, 15))
        n = INTS[typ]
        return r.choice((0, 1, 0xFE, 256 ** n - 1, r.randrange(256 ** n)))


def gen_params(r, params, status=0):
    """(values as JSON, bytes) of random parameters."""
    vals, data = [], b""
    for i, (name, typ) in enumerate(params):
        nxt = params[i + 1][1] if i + 1 < len(params) else None
        prev = vals[-1] if vals else 0

        def some(n):
            return bytes(r.choice((0, 0xFE, r.randrange(256))) for _ in range(n))
        if typ in INTS or typ == "INT8":
            v = status if name == "status" else gen_value(r, name, typ, nxt)
            raw = v.to_bytes(INTS.get(typ, 1), "little", signed=typ == "INT8")
        elif typ == "LIST_UINT16":
            v = [r.choice((0, 0xFFFE, r.randrange(65536))) for _ in range(prev)]
            raw = b"".join(u16(x) for x in v)
        elif typ == "LIST_UINT8":
            raw = some(prev)
            v = list(raw)
        elif typ == "LIST_NEIGHBOR_LQI":
            v, raw = [], b""
            for _ in range(prev):
                e, a, kind = some(8), some(8), r.randrange(128)
                rest = [r.randrange(4), r.randrange(256), r.randrange(256)]
                nwk = r.randrange(65536)
                raw += e + a + u16(nwk) + bytes([kind] + rest)
                v.append({"extPanId": e.hex(), "extAddr": a.hex(), "nwkAddr": nwk,
                          "deviceType": kind & 3, "rxOnWhenIdle": kind >> 2 & 3,
                          "relationship": kind >> 4, "permitJoin": rest[0],
                          "depth": rest[1], "lqi": rest[2]})
        else:
            n = 8 if typ == "IEEEADDR" else prev if typ == "BUFFER" else int(typ[6:])
            raw = some(n)
            v = raw.hex()
        vals.append(v)
        data += raw
    return vals, data


def gen_any(r, op):
    """One of all the commands, with random parameters and a random answer."""
    s, c, name, req, rsp = r.choice(TABLE)
    status, x = 0, r.random()
    if any(n == "status" for n, _ in rsp) and x < 0.3:
        status = r.choice((1, 2, 9, 0x10, 0xC7, 0xFF, r.randrange(1, 256)))
        if x < 0.15:
            op["exp"] = r.choice(([0, status], [status]))
    vals, data = gen_params(r, req)
    want, body = gen_params(r, rsp, status)
    op.update(s=s, c=c, name=name, types=[t for _, t in req], names=[n for n, _ in req],
              vals=vals, data=data.hex(), want=[[n, v] for (n, _), v in zip(rsp, want)])
    op["act"]["body"] = body.hex()


def any_payload(op):
    out = {}
    for n, t, v in zip(op["names"], op["types"], op["vals"]):
        if t == "IEEEADDR":
            v = zigpy.types.EUI64(bytes.fromhex(v))
        elif t == "BUFFER":
            v = bytes.fromhex(v)
        out[n] = v
    return out


def plain(v):
    """A value as it is kept in a plan."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, zigpy.types.EUI64):
        return bytes(v.serialize()).hex()
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).hex()
    if isinstance(v, int):
        return int(v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    return repr(v)


UNIQUE = ("any", "nvr", "nvlen", "nvw", "cfg", "grp", "led", "start")


def read_answer(name, d):
    """Parameters of an answer, as the protocol defines them."""
    if name == "osalNvRead":
        return {"status": d[0], "len": d[1], "value": bytes(d[2:2 + d[1]])}
    if name == "osalNvLength":
        return {"length": struct.unpack("<H", d)[0]}
    if name == "readConfiguration":
        return {"status": d[0], "configid": d[1], "len": d[2], "value": bytes(d[3:3 + d[2]])}
    if name == "extFindGroup":
        return {"status": d[0], "groupid": struct.unpack("<H", d[1:3])[0], "namelen": d[3],
                "groupname": bytes(d[4:4 + d[3]])}
    if name == "random":
        return {"value": struct.unpack("<H", d)[0]}
    if name == "ping":
        return {"capabilities": struct.unpack("<H", d)[0]}
    return {"status": d[0]}


def rand_noise(r):
    """An unsolicited frame, sometimes with the number of a command."""
    x = r.random()
    if x < 0.25:
        return mt.frame(2, 1, r.choice((0x08, 0x13, 0x01, 0x0C, 0x09)),
                        bytes(r.randrange(256) for _ in range(r.choice((0, 1, 3)))))
    if x < 0.5:
        return mt.named(2, r.choice(("stateChangeInd", "permitJoinInd")), b"\x08")
    if x < 0.6:
        return mt.named(2, "srcRtgInd", b"\x33\x44\x00")
    if x < 0.7:
        return mt.frame(r.choice((0, 1)), 1, r.choice((0x08, 0x01, 0x0C)), b"\x00\x00\x00")
    if x < 0.8:
        return mt.frame(2, 6, 4, b"\x00\x11\x00")
    return mt.incoming_msg(0x4A21, 1, 1, 6, bytes([0x18, r.randrange(128), 0x0A]))


def twin(r, op, i):
    """A frame like the answer, but of another type or subsystem."""
    s, name, _, data = build(op, i)
    cmd = op["c"] if op["k"] == "any" else mt.IDS[name][1]
    if r.random() < 0.6:
        return mt.frame(r.choice((0, 1, 2, 2)), s, cmd, data)
    return mt.frame(r.choice((2, 3)), r.choice([x for x in (1, 4, 5, 6, 7, 15) if x != s]), cmd,
                    bytes(r.choice((0, 1, 2, 4))))


class Session:
    """One API session against the adapter model."""

    def __init__(self, run, product=1):
        self.run, self.w = run, run.world
        plan, cfg = run.plan, run.plan["cfg"]
        self.ops = plan["ops"]
        d = self.d = dongle.Dongle(self.w, product=cfg.get("product", product),
                                   seed=plan["seed"],
                                   link={"chunk": cfg.get("chunk", "whole"),
                                         "gap": cfg.get("gap", 0.0),
                                         "cap_read": cfg.get("cap", 0),
                                         "lat": cfg.get("lat", 0.001)})
        d.configured()
        d.directive = self.directive
        d.reset_delay = cfg.get("reset_delay", 0.4)
        for op in self.ops:
            i = op["i"]
            d.nv[0x400 + i] = nv_value(i)
            d.nv[0x10 + i] = nv_value(i + 1000)[:2 + i % 3]
            if i % 3:
                d.groups.add((9, 0x2000 + i))
        d.nv[dongle.NV_LOGICAL] = b"\x00"
        self.w.ports.peers["/dev/null"] = d
        h = self.h = host.Host(self.w)
        h.write_first = cfg.get("write_first", False)
        h.boot()
        self.stub = host.StubApp(self.w)
        self.api = host.zigpy_cc.api.API(host.device_config())
        self.api.set_application(self.stub)
        self.recs = {}
        self.by_key = {}
        for op in self.ops:
            s, name, payload, data = build(op, op["i"])
            if op["k"] in UNIQUE:
                cmd = op["c"] if op["k"] == "any" else mt.IDS[name][1]
                self.by_key[(s, cmd, data)] = op
        self.seen = {}

    def connect(self):
        rec = self.h.run_call({"k": "connect"}, lambda rec: self.api.connect())
        if not rec.ok:
            self.run.fail("connect", "the port could not be opened: %r" % rec.exc)
            return False
        return True

    def op_of_frame(self, fr, count=None):
        op = self.by_key.get((fr.subsys, fr.cmd, bytes(fr.data)))
        if op is not None:
            return op
        # not unique: the n-th of its kind on the line is the n-th issued
        same = [o for o in sorted(self.ops, key=lambda o: (o["t"], o["i"]))
                if build(o, o["i"])[1] == fr.name and o["k"] not in UNIQUE]
        return same[count] if count is not None and count < len(same) else None

    def directive(self, fr, k):
        n = self.seen.get(fr.name, 0)
        self.seen[fr.name] = n + 1
        op = self.op_of_frame(fr, n)
        return dict(op["act"]) if op and op.get("act") else None

    def issue(self, t0):
        for op in sorted(self.ops, key=lambda o: (o["t"], o["i"])):
            s, name, payload, _ = build(op, op["i"])
            exp = op.get("exp")

            def go(rec, s=s, name=name, payload=payload, exp=exp):
                return self.api.request(s, name, payload, None, exp)
            self.w.at(t0 + op["t"], self._start, op, go)
            if op.get("cancel") is not None:
                self.w.at(t0 + op["t"] + op["cancel"], self._cancel, op)

    def _start(self, op, go):
        self.h.loop.call_soon(self._call, op, go)

    def _call(self, op, go):
        self.recs[op["i"]] = self.h.call(op, go)

    def _cancel(self, op):
        rec = self.recs.get(op["i"])
        if rec is not None:
            self.h.loop.call_soon(self.h.cancel, rec)

    def map_frames(self):
        """Match wire frames to calls. Returns {op index: frame} or None."""
        out, counts = {}, {}
        for fr in self.d.wire:
            n = counts.get(fr.name, 0)
            counts[fr.name] = n + 1
            op = self.op_of_frame(fr, n)
            if op is None or op["i"] in out:
                self.run.fail("duplicate", "unexpected or repeated command on the line: %r"
                              % fr)
                return None
            out[op["i"]] = fr
        return out

    def answers(self):
        """{wire frame number: answer record}."""
        return {rec["req"].n: rec for rec in self.d.sent
                if rec.get("kind") == "srsp" and rec.get("req") is not None}


def many(r, some):
    """How many calls: rarely a long history."""
    return r.choice(some) if r.random() > 0.005 else r.choice((70, 140, 200))


def gen_ops(r, n, cancels=True, mutes=True, resets=True, kinds=None):
    ops = []
    t = 0.0
    kinds = kinds or r.choice((
        ("nvr",), ("nvr", "nvw"), ("nvr", "nvw", "cfg", "grp", "led", "random", "ping"),
        ("cfg", "grp"), ("nvr", "nvlen", "random", "ping"), ("any",), ("any", "any", "nvr")))
    used = set()
    style = r.choice(("burst", "spread", "mix", "slow"))
    for i in range(n):
        t += {"burst": 0.0, "spread": r.random() * 0.05, "mix": r.choice((0, 0, 0.001, 0.3, 3)),
              "slow": r.random() * 4}[style]
        k = r.choice(kinds)
        if r.random() < 0.04:
            k = r.choice(("start", "bdb"))
        if resets and r.random() < 0.05:
            k = "reset"
        op = {"i": i, "t": round(t, 4), "k": k, "act": {}}
        x = r.random()
        if x < 0.25:
            op["act"]["delay"] = r.choice((0.05, 0.5, 2.0, 4.0, 5.5, 5.9))
        elif x < 0.35:
            op["act"]["delay"] = round(r.random() * 0.1, 4)
        if k in ("start", "bdb") and r.random() < 0.5:
            op["act"]["delay"] = r.choice((3.0, 8.0, 15.0, 19.5))
        if r.random() < 0.15 and k in ("nvr", "nvw", "cfg", "grp", "led", "start"):
            op["act"]["status"] = r.choice((1, 2, 0x0A, 0x10, 0xC8, 0xFF, r.randrange(1, 256)))
            if r.random() < 0.5:
                op["exp"] = r.choice(([0, 1], [0, 2], [0, 9], [0, op["act"]["status"]],
                                      [op["act"]["status"]]))
        elif r.random() < 0.06 and k in ("nvr", "nvw", "cfg", "grp", "led", "start"):
            op["exp"] = r.choice(([1], [9], [2, 255]))       # (success is not what is wanted)
        if k == "any":
            gen_any(r, op)
            key = (op["s"], op["c"], op["data"])
            if key in used:
                continue
            used.add(key)
        if r.random() < 0.3 and k != "reset":
            op["act"]["before"] = [(rand_noise(r) if r.random() < 0.7 else
                                    twin(r, op, i)).hex() for _ in range(r.choice((1, 1, 2, 4)))]
        if k == "grp" and "exp" not in op:
            op["exp"] = [0, 1]
        if k == "start" and "exp" not in op:
            op["exp"] = [0, 1]
        if mutes and r.random() < 0.06 and k != "reset":
            op["act"].pop("status", None)
            op["act"][r.choice(("mute", "ignore"))] = True
        elif cancels and k in UNIQUE and r.random() < 0.25:
            op["cancel"] = r.choice((0.0, 0.0005, 0.0015, 0.002, 0.004, 0.01,
                                     round(r.random() * 2, 4), round(r.random() * 6, 4)))
            if op["act"].get("delay", 0) > 1 and r.random() < 0.8:
                op["act"]["delay"] = r.choice((0.1, 0.5, 1.0))
        ops.append(op)
    return ops


def gen_cfg(r):
    return {"chunk": r.choice(("whole", "whole", "bytes", "mixed")),
            "gap": r.choice((0.0, 0.0, 0.002)),
            "cap": r.choice((0, 0, 0, 3, 20)),
            "lat": r.choice((0.001, 0.0, 0.01)),
            "product": r.choice((0, 1, 2)),
            "reset_delay": r.choice((0.05, 0.4, 3.0, 12.0, 29.0)),
            "write_first": r.random() < 0.2}


def gen_events(r, kinds, top=8.0):
    out = []
    for _ in range(r.choice((0, 0, 1, 1, 2, 3))):
        e = r.choice(kinds)
        ev = {"t": round(r.random() * top, 4), "e": e}
        if e == "stall":
            ev["d"] = r.choice((0.01, 0.2, 0.8))
        elif e == "block":
            ev["d"] = r.choice((0.01, 0.2, 1.0))
        elif e == "short":
            ev["n"] = [r.randrange(1, 8) for _ in range(r.choice((1, 2, 5)))]
        elif e == "noise":
            ev["raw"] = rand_noise(r).hex()
        elif e == "hang":
            ev["d"] = r.choice((1.0, 5.0, 7.0, 15.0, 40.0))
        out.append(ev)
    return out


def play_events(w, d, t0, events, api=None, loop=None):
    def short(ns):
        if d.conn:
            d.conn.short_writes = list(ns)

    def block(dur):
        if d.conn:
            d.conn.blocked_until = w.now + dur

            def wake():
                pass
            w.after(dur, wake)
            w.fired["blocked-write"] += 1

    def stall(dur):
        w.fired["host-stall"] += 1
        w.stall(dur)

    def hang(dur):
        w.fired["adapter-hang"] += 1
        d.hang()
        w.after(dur, d.unhang)

    def fire(name, fn):
        w.fired[name] += 1
        fn()

    for ev in events:
        t, e = t0 + ev["t"], ev["e"]
        if e == "stall":
            w.at(t, stall, ev["d"])
        elif e == "block":
            w.at(t, block, ev["d"])
        elif e == "short":
            w.at(t, short, ev["n"])
        elif e == "noise":
            w.at(t, d.emit, bytes.fromhex(ev["raw"]))
        elif e == "hang":
            w.at(t, hang, ev["d"])
        elif e == "unplug":
            w.at(t, fire, "unplug", d.unplug)
        elif e == "drop":
            w.at(t, fire, "line-drop", d.drop_line)
        elif e == "close":
            w.at(t, lambda: loop.call_soon(lambda: fire("driver-closed", api.close)))


def release_times(d, answers, cancel_of=lambda fr: None):
    """When each command on the line stopped being outstanding: {frame n: time}."""
    out = {}
    resets_in = [rec["read"] for rec in d.sent
                 if rec.get("kind") == "resetInd" and rec["read"] is not None]
    for fr in d.wire:
        cand = [fr.t0 + limit_of(fr)]
        if fr.ctype == mt.AREQ and not is_reset(fr):
            cand = [fr.t0]
        elif is_reset(fr):
            later = [t for t in resets_in if t >= fr.t0]
            if later:
                cand.append(later[0])
        else:
            a = answers.get(fr.n)
            if a is not None and a["read"] is not None:
                cand.append(a["read"])
        c = cancel_of(fr)
        if c is not None:
            cand.append(max(c, fr.t0))
        out[fr.n] = min(cand)
    return out


def too_late(d, answers):
    """From when on answers may be taken for others: the protocol cannot tell an answer
    that comes after its command's time limit from the answer to the next command."""
    t = float("inf")
    for fr in d.wire:
        a = answers.get(fr.n)
        if a is not None and (a["read"] or a["t"]) > fr.t0 + limit_of(fr) - EPS:
            t = min(t, fr.t0 + limit_of(fr) - EPS)
    return t


def check_line(run, d, rel, eps=1e-6, until=float("inf")):
    """The line carries whole commands, never two outstanding ones (per connection)."""
    prev = {}
    for fr in d.wire:
        if fr.t0 >= until:
            break
        p = prev.get(id(fr.conn))
        if p is not None:
            run.check(fr.t >= rel[p.n] - eps, "overlap",
                      lambda: "%r was put on the line at %.6f while %r (since %.6f) was "
                      "outstanding until %.6f" % (fr, fr.t, p, p.t0, rel[p.n]))
        prev[id(fr.conn)] = fr
    for ser in d.conns:
        run.check(not ser.deframer.bad and bytes(ser.deframer.stray) in (b"", b"\xef"),
                  "garbled", lambda: "bytes on the line that are no command: stray %s bad %s"
                  % (bytes(ser.deframer.stray).hex(), [b.hex() for b in ser.deframer.bad]))


class P03:
    id = "P03"
    RUNS = {"quick": 14000, "thorough": 1000000}
    REAL = REAL_ALL
    STUB = STUB + ["the application above the API layer (in three of four runs)"]
    ASSUME = ASSUME
    RULE = ("Seeded: 2 to 14 commands of up to 10 kinds issued in bursts or over time, with "
            "slow answers, refusals, lost answers, resets, cancellations before and after "
            "sending, short and blocked writes, host stalls and unsolicited frames; or the "
            "whole driver with sends of all kinds, light changes and reconnections. "
            "Non-trivial: at some moment a command had to wait for another.")
    SIMPLE = {"chunk": "whole", "cap": 0, "gap": 0.0, "lat": 0.001, "write_first": False}

    def gen(self, r, tier, i):
        if r.random() < 0.25:
            return self.gen_driver(r)
        return {"cfg": gen_cfg(r),
                "ops": gen_ops(r, many(r, (2, 3, 4, 6, 9, 14))),
                "events": gen_events(r, ("stall", "block", "short", "noise", "noise"))}

    def gen_driver(self, r):
        """The whole driver: sends of all kinds, the light, and reconnections."""
        cfg = dict(appkit.gen_link(r), driver=True, form=r.random() < 0.2)
        ops = flow.gen_sends(r, r.choice((2, 5, 9, 14)), r.choice((
            flow.SENDS_ALL, ("af",), ("group", "bcast", "af", "ncp"))),
            r.choice((0.0, 0.002, 0.05, 0.5)), devices=3, cancels=r.choice((0.0, 0.2)))
        for op in ops:
            # while one given up has no answer, nobody knows what a later one answers
            if "cancel" in op or "cancel_with" in op:
                op["acts"] = [{k: v for k, v in a.items() if k not in ("mute", "ignore")}
                              for a in op["acts"]]
        top = max([op["t"] for op in ops] or [0]) + 1
        ev = flow.gen_faults(r, ("stall", "short", "block", "noise", "noise", "drop", "away"), top)
        for _ in range(r.choice((1, 3, 8))):
            raw = r.choice((mt.named(2, "permitJoinInd", bytes([r.choice((0, 60))])),
                            mt.named(2, "mgmtPermitJoinRsp", b"\0\0\0"),
                            mt.device_annce(0x1001, appkit.ieee_of(1))))
            ev.append({"e": "noise", "raw": raw.hex(), "t": round(r.random() * top, 4)})
        return {"cfg": cfg, "ops": ops, "events": ev}

    def execute_driver(self, run):
        plan, w = run.plan, run.world
        f = flow.Flow(run, devices=3)
        if not f.begin(plan["events"], form=plan["cfg"]["form"], ops=plan["ops"]):
            return
        f.finish()
        d = f.d
        ans = {rec["req"].n: rec for rec in d.sent
               if rec.get("kind") == "srsp" and rec.get("req") is not None}
        cancel = {fr.n: f.recs[i].cancelled for i, frs in f.frames.items() for fr in frs
                  if f.recs[i].cancelled is not None}
        rel = release_times(d, ans, lambda fr: cancel.get(fr.n))
        check_line(run, d, rel, until=too_late(d, ans))
        seen = {}
        for fr in d.wire:
            p = seen.get(id(fr.conn))
            if p is not None and fr.t <= rel[p.n] + 2e-6:
                run.nontrivial = True
            seen[id(fr.conn)] = fr
        w.probes["whole-driver"] += 1

    def execute(self, run):
        if run.plan["cfg"].get("driver"):
            return self.execute_driver(run)
        w = run.world
        s = Session(run)
        if not s.connect():
            return
        t0 = w.now + 0.1
        s.issue(t0)
        play_events(w, s.d, t0, run.plan["events"])
        total = max([op["t"] for op in s.ops] or [0])
        end = t0 + total + sum(limit_of(fr_of(op)) + 0.2 for op in s.ops) + 5
        h = s.h
        while w.now < end and (len(s.recs) < len(s.ops)
                               or not all(x.done for x in s.recs.values())):
            h.run_until(min(end, w.now + 5))
        h.run_until(w.now + 1)
        frames = s.map_frames()
        if frames is None:
            return
        ans = s.answers()
        cancel = {}
        for i, fr in frames.items():
            rec = s.recs.get(i)
            if rec is not None and rec.cancelled is not None:
                cancel[fr.n] = rec.cancelled
        rel = release_times(s.d, ans, lambda fr: cancel.get(fr.n))
        check_line(run, s.d, rel, until=too_late(s.d, ans))
        # order of issue, and each exactly once
        order = [i for i in sorted(frames, key=lambda i: frames[i].n)]
        issued = [op["i"] for op in sorted(s.ops, key=lambda o: (o["t"], o["i"]))]
        run.check(order == [i for i in issued if i in frames], "order",
                  lambda: "on the line: %s, issued: %s" % (order, issued))
        for i in issued:
            rec = s.recs.get(i)
            run.check(i in frames or (rec is not None and rec.cancelled is not None), "unsent",
                      lambda: "command %d never reached the line" % i)
        run.nontrivial = any(frames[i].t0 > s.recs[i].t0 + 1e-6 for i in frames)
        w.probes["cancelled-before-sent"] += sum(
            1 for i, x in s.recs.items() if x.cancelled is not None and i not in frames)
        w.probes["cancelled-after-sent"] += len(cancel)


def fr_of(op):
    s, name, payload, data = build(op, op["i"])
    ids = (op["s"], op["c"]) if op["k"] == "any" else mt.IDS[name]
    return mt.Frame(mt.AREQ if op["k"] == "reset" else mt.SREQ, *ids, data)


class P04:
    id = "P04"
    RUNS = {"quick": 14000, "thorough": 1000000}
    REAL = REAL_API
    STUB = STUB + ["the application above the API layer"]
    ASSUME = ASSUME + [
        "the protocol has no transaction numbers for command answers: a cancelled command "
        "that the adapter never answers, and answers later than the limit, are left out"]
    RULE = ("Seeded: as for P03, mostly commands of equal kind with distinct content, so "
            "that a wrong match shows; in a quarter of the runs any of the 159 synchronous "
            "commands of the protocol with random parameters and random answers, compared "
            "with a table of their layouts. Non-trivial: two commands of one kind overlap, or one "
            "was cancelled, refused or lost.")
    SIMPLE = P03.SIMPLE

    def gen(self, r, tier, i):
        return {"cfg": gen_cfg(r),
                "ops": gen_ops(r, many(r, (2, 3, 4, 6, 9)), resets=False),
                "events": gen_events(r, ("stall", "block", "short", "noise", "noise"))}

    def execute(self, run):
        w = run.world
        s = Session(run)
        if not s.connect():
            return
        t0 = w.now + 0.1
        s.issue(t0)
        play_events(w, s.d, t0, run.plan["events"])
        total = max([op["t"] for op in s.ops] or [0])
        end = t0 + total + sum(limit_of(fr_of(op)) + 0.2 for op in s.ops) + 5
        while w.now < end and (len(s.recs) < len(s.ops)
                               or not all(x.done for x in s.recs.values())):
            s.h.run_until(min(end, w.now + 5))
        frames = s.map_frames()
        if frames is None:
            return
        ans = s.answers()
        until = too_late(s.d, ans)
        for op in s.ops:
            rec, fr = s.recs.get(op["i"]), frames.get(op["i"])
            if rec is None or fr is None or rec.cancelled is not None:
                continue
            if not rec.done or rec.t1 >= until:
                w.probes["not-judged-after-late-answer"] += 1
                continue
            a = ans.get(fr.n)
            lim = limit_of(fr)
            if a is not None and a["read"] is not None and \
                    abs(a["read"] - fr.t0 - lim) <= EPS + w.stalled:
                continue              # a photo finish
            if a is None or a["read"] is None or a["read"] > fr.t0 + lim:
                run.check(not rec.ok, "invented",
                          lambda: "%r returned %r though the adapter did not answer it"
                          % (fr, rec.res))
                continue
            w.probes["any-command"] += op["k"] == "any"
            want = dict(op["want"]) if op["k"] == "any" else \
                read_answer(fr.name, a["raw"][4:-1])
            ok = op.get("exp") or [0]
            if "status" in want and want["status"] not in ok:
                run.check(rec.refused and rec.exc.status == want["status"], "status",
                          lambda: "%r was refused with status %d (acceptable %s): %s %r"
                          % (fr, want["status"], ok, rec.outcome(), rec.exc))
            else:
                got = dict(rec.res.payload) if rec.ok else None
                if got is not None and op["k"] == "any":
                    got = plain(got)
                run.check(got == want, "answer",
                          lambda: "%r was answered %s, the call ended with %s %r"
                          % (fr, want, rec.outcome(), got if rec.ok else rec.exc))
        kinds = [op["k"] for op in s.ops]
        run.nontrivial = len(kinds) > len(set(kinds)) or any(
            not x.ok for x in s.recs.values())
        w.probes["cancelled-answer-arrives-for-successor"] += sum(
            1 for i, fr in frames.items() if s.recs[i].cancelled is not None
            and ans.get(fr.n) and ans[fr.n]["read"]
            and any(f2.n > fr.n and f2.name == fr.name and f2.t < ans[fr.n]["read"]
                    for f2 in frames.values()))


class P05:
    id = "P05"
    RUNS = {"quick": 9000, "thorough": 700000}
    REAL = REAL_API
    STUB = STUB + ["the application above the API layer"]
    ASSUME = ASSUME
    RULE = ("Seeded: as for P03 with many lost answers and a hanging adapter, and in part of "
            "the runs the line drops, the adapter is unplugged or the driver is closed, "
            "followed by more commands. Non-trivial: some command did not succeed.")
    SIMPLE = P03.SIMPLE

    def gen(self, r, tier, i):
        ops = gen_ops(r, many(r, (2, 3, 4, 6, 9)))
        for op in ops:
            if op["k"] != "reset" and "cancel" not in op and r.random() < 0.2:
                op["act"] = {r.choice(("mute", "ignore")): True}
            if op["k"] == "reset" and r.random() < 0.3:
                op["act"] = {"mute": True}
        ev = gen_events(r, r.choice((("stall", "block", "noise"), ("hang", "noise"),
                                     ("unplug", "drop", "close", "hang"))), top=12.0)
        return {"cfg": gen_cfg(r), "ops": ops, "events": ev}

    def execute(self, run):
        w = run.world
        s = Session(run)
        d = s.d
        if not s.connect():
            return
        n_reset = sorted((op for op in s.ops if op["k"] == "reset"),
                         key=lambda o: (o["t"], o["i"]))
        for nth, op in enumerate(n_reset):
            if op["act"].get("mute"):
                d.actions.append({"cmd": "resetReq", "nth": nth, "mute": True})
        t0 = w.now + 0.1
        s.issue(t0)
        play_events(w, d, t0, run.plan["events"], s.api, s.h.loop)
        broken = []
        for ev in run.plan["events"]:
            if ev["e"] in ("unplug", "drop", "close"):
                broken.append(t0 + ev["t"])
        total = max([op["t"] for op in s.ops] or [0])
        end = t0 + total + sum(limit_of(fr_of(op)) + 0.2 for op in s.ops) + 60
        while w.now < end and (len(s.recs) < len(s.ops)
                               or not all(x.done for x in s.recs.values())):
            s.h.run_until(min(end, w.now + 5))
        frames = s.map_frames()
        if frames is None:
            return
        ans = s.answers()
        until = too_late(d, ans)
        slack = w.stalled + 0.001
        broke = min(broken) if broken else None
        blocks = sum(e.get("d", 0) for e in run.plan["events"] if e["e"] == "block")
        for op in s.ops:
            rec = s.recs[op["i"]]
            fr = frames.get(op["i"])
            if not run.check(rec.done, "endless", lambda: "%s issued at %.3f never ended"
                             % (op["k"], rec.t0)):
                continue
            if rec.cancelled is not None:
                run.check(rec.t1 <= rec.cancelled + slack, "cancel",
                          lambda: "%s cancelled at %.3f ended at %.3f"
                          % (op["k"], rec.cancelled, rec.t1))
                continue
            if not rec.ok:
                run.nontrivial = True
                run.check(rec.timed_out or rec.zigbee_error, "error-type",
                          lambda: "%s ended with %r" % (op["k"], rec.exc))
            if fr is not None:
                lim = limit_of(fr)
                # (bytes that waited in a blocked port count from the first attempt)
                run.check(rec.t1 <= max(fr.t0, rec.t0) + lim + 0.2 + slack + blocks, "late",
                          lambda: "%r on the line at %.4f, ended only at %.4f with %s"
                          % (fr, fr.t0, rec.t1, rec.outcome()))
                if rec.timed_out:
                    # t0: earliest moment a byte of it was offered to the port
                    run.check(rec.t1 >= fr.t0 + lim - 0.001 or (broke and broke <= rec.t1),
                              "early", lambda: "%r on the line at %.4f timed out at %.4f"
                              % (fr, fr.t0, rec.t1))
                    a = ans.get(fr.n)
                    run.check(broke is not None or fr.ctype != mt.SREQ or rec.t1 >= until
                              or a is None or a["read"] is None
                              or a["read"] > fr.t0 + lim - EPS - w.stalled, "not-served",
                              lambda: "%r was answered in time (%.4f) and timed out"
                              % (fr, a["read"]))
            elif broke is None:
                run.fail("unsent", "%s (%d) never reached the line" % (op["k"], op["i"]))
        # nobody behind a finished command waits longer than it takes to switch
        issued = [op["i"] for op in sorted(s.ops, key=lambda o: (o["t"], o["i"]))]
        free = 0.0
        for i in issued:
            rec, fr = s.recs[i], frames.get(i)
            if fr is not None and (broke is None or fr.t0 < broke):
                run.check(fr.t0 <= max(free, rec.t0) + 0.02 + slack + blocks, "held-up",
                          lambda: "%r issued at %.4f, the line was free at %.4f, sent only "
                          "at %.4f" % (fr, rec.t0, free, fr.t0))
            if rec.done:
                free = max(free, rec.t1)
        if broke is not None:
            shut = min([t0 + e["t"] for e in run.plan["events"] if e["e"] == "close"]
                       or [1e9])
            prev = None
            for i in issued:
                rec = s.recs[i]
                lim = limit_of(fr_of([o for o in s.ops if o["i"] == i][0]))
                start = max(rec.t0, prev or 0)
                run.check(rec.done and rec.t1 <= start + lim + 0.2 + slack, "late-broken",
                          lambda: "%d: free to go at %.3f, ended at %s" % (i, start, rec.t1))
                if start > shut + 0.001 + w.stalled and rec.cancelled is None:
                    # closed by then: nothing to wait for
                    w.probes["commands-after-close"] += 1
                    run.check(rec.zigbee_error and rec.t1 <= start + 0.02 + slack,
                              "after-close", lambda: "%d: free to go at %.3f, driver closed "
                              "at %.3f, ended at %.3f with %r" % (i, start, shut, rec.t1,
                                                                  rec.exc or rec.res))
                prev = max(prev or 0, rec.t1 or 0)
            w.probes["commands-after-loss"] += sum(
                1 for x in s.recs.values() if x.t0 > broke)
            return
        # the queue is alive: once the adapter answers, commands are served
        s.h.run_until(max([w.now] + [t0 + e["t"] + e.get("d", 0) + 0.1
                                     for e in run.plan["events"]]))
        d.unhang()
        d.directive = None
        d.actions.clear()
        s.h.run_until(w.now + 0.5)
        while d.busy or d.queue:
            s.h.run_until(w.now + 0.5)
        rec = s.h.run_call({"k": "last"}, lambda rec: s.api.request(
            1, "osalNvRead", {"id": dongle.NV_LOGICAL, "offset": 0}))
        run.check(rec.ok and rec.t1 - rec.t0 < 1.0, "wedged",
                  lambda: "a command to the healthy adapter afterwards: %s after %.2f s"
                  % (rec.outcome(), rec.t1 - rec.t0))


PROPS = {"P03": P03(), "P04": P04(), "P05": P05()}
