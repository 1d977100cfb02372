"""A running, configured adapter and a mixture of sends: calls, what they must put on
the line (by an encoder of our own), and what came of them."""
import asyncio
import struct

import zigpy.exceptions
import zigpy.types as zt
from zigpy_cc.exception import CommandError

from .. import dongle, mt
from ..mt import u16
from .appkit import SIMPLE_LINK, AppSession, Faults, gen_link, gen_unsolicited, ieee_of
from .startup import EPS, GROUP
from .zdo import KINDS, NAMES, reply_body, request_body, tag_of_request

SIMPLE = dict(SIMPLE_LINK)
SENDS = {"dataRequest", "dataRequestExt"} | set(NAMES)
SENDS_ALL = ("af", "af", "af", "group", "bcast") + tuple(KINDS) + ("permitall", "ncp")
UNI = ("af",) + tuple(KINDS)
SETTLING = ("group", "bcast", "permitall")
LIMIT = {0: 2, 1: 16, 2: 2}
PROFILES = (0x0104, 0x0104, 0x0104, 0xC05E, 0xA1E0, 0x0109, 0x0101, 0x0001, 0xFFFF)
BCAST = (0xFFFF, 0xFFFD, 0xFFFC)
IN_TIME = 5.9


def wire_key(op):
    """The command this call has to put on the line (fields the call leaves open masked)."""
    k = op["k"]
    data = bytes.fromhex(op.get("data", ""))
    if k == "af":
        d = u16(op["dst"]) + bytes([op["dep"], op["sep"]]) + u16(op["cl"]) + bytes([op["tsn"]])
        return ("dataRequest", d.hex(), (bytes([len(data)]) + data).hex())
    if k == "group":
        d = (b"\x01" + struct.pack("<Q", op["grp"]) + b"\xff\x00\x00"
             + bytes([op["sep"] or 1]) + u16(op["cl"]) + bytes([op["tsn"]]))
        return ("dataRequestExt", d.hex(),
                (bytes([op["hops"] or 30]) + u16(len(data)) + data).hex())
    if k == "bcast":
        d = (b"\x02" + struct.pack("<Q", op["addr"]) + bytes([op["dep"]]) + b"\x00\x00"
             + bytes([op["sep"]]) + u16(op["cl"]) + bytes([op["tsn"]]))
        return ("dataRequestExt", d.hex(),
                (bytes([op["radius"]]) + u16(len(data)) + data).hex())
    if k == "permitall":
        return ("mgmtPermitJoinReq", (b"\x0f" + u16(0xFFFC) + bytes([op["tag"], op["tc"]])).hex())
    if k == "ncp":
        return ("mgmtPermitJoinReq", (b"\x0f" + u16(0xFFFC) + bytes([op["tag"], 0])).hex())
    if k == "permit":
        return ("mgmtPermitJoinReq", (b"\x02" + u16(op["dst"])
                                      + request_body(k, op["tag"])).hex())
    return (KINDS[k][2], (u16(op["dst"]) + request_body(k, op["tag"])).hex())


def frame_key(fr):
    d = bytes(fr.data)
    if fr.name == "dataRequest":
        return (fr.name, d[:7].hex(), d[9:].hex())
    if fr.name == "dataRequestExt":
        return (fr.name, d[:16].hex(), d[17:].hex())
    return (fr.name, d.hex())


def gen_act(r, hard=True):
    act = {}
    x = r.random()
    if x < 0.14:
        act["status"] = r.choice((1, 2, 9, 0x10, 0x11, 0x80, 0xC7, 0xE1, 0xF0, 0xFF,
                                  r.randrange(1, 256), r.randrange(1, 256)))
    elif x < 0.22 and hard:
        act[r.choice(("mute", "ignore"))] = True
    if r.random() < 0.2:
        act["delay"] = r.choice((0.0, 0.05, 0.2, 0.3, 1.0, 2.5) + ((5.0,) if hard else ()))
    return act


def gen_sends(r, n, kinds, style, devices=2, cancels=0.12, hard=True, tries=0.1,
              plain=0.35, base=0x1000):
    """n different sends over time; `plain`: share of runs without refusals and losses."""
    ops, seen, t = [], set(), 0.0
    plain = r.random() < plain
    tags = list(range(1, 200))
    r.shuffle(tags)
    fixed_tsn = r.random() < 0.2
    small = r.random() < 0.3
    for i in range(n):
        t += style * r.random()
        for _ in range(50):
            k = r.choice(kinds)
            op = {"i": i, "t": round(t, 4), "k": k, "acts": [],
                  "tsn": 7 if fixed_tsn else r.choice((0, 255, i & 0xFF, r.randrange(256)))}
            if k in ("af", "group", "bcast"):
                top = 240 if k == "af" else 230
                size = r.choice((0, 1, 2, 3)) if small and r.random() < 0.4 else r.choice(
                    (3, 5, 12, 40, 100, top - 1, top))
                data = bytes([0x01, op["tsn"], r.randrange(8)]) + bytes([i & 0xFF, 0xFE]) + bytes(
                    r.getrandbits(8) for _ in range(max(0, size - 5)))
                op["data"] = data[:size].hex()
                op["cl"] = r.choice((0, 4, 6, 8, 0x300, 0x500, 0x502, 0xFC00, 0xFFFF,
                                     r.randrange(65536)))
                op["sep"] = r.choice((1, 1, 2, 11, 12, 13, 242, r.randrange(1, 255)))
                op["prof"] = r.choice(PROFILES)
            if k == "af":
                op["dst"] = base + 1 + r.randrange(devices)
                op["dep"] = r.choice((1, 1, 2, 11, 242, r.randrange(1, 255)))
                op["reply"] = r.random() < 0.7
                if r.random() < 0.1:
                    op["ieee"] = True
            elif k == "group":
                op["grp"] = r.choice((0, 1, 0x0B84, 0xFFFF, r.randrange(65536)))
                op["hops"] = r.choice((0, 0, 0, 1, 5, 30, 200, 255))
                op["nmr"] = r.choice((0, 3, 7))
                if r.random() < 0.15:
                    op["sep"] = r.choice((0, None))
            elif k == "bcast":
                op["addr"] = r.choice(BCAST)
                op["dep"] = r.choice((0xFF, 1, 2, 242))
                op["radius"] = r.choice((0, 1, 30, 255, r.randrange(256)))
            elif k in ("permitall", "ncp"):
                op["tag"] = tags[i % len(tags)]
                if r.random() < 0.25:
                    op["tag"] = r.choice((0, 0, 254))
                op["tc"] = r.choice((0, 1))
                if k == "ncp":
                    op["node"] = r.random() < 0.3
            else:
                op["dst"] = base + 1 + r.randrange(devices)
                if r.random() < 0.08 and k not in ("unbind", "bind"):
                    op["dst"] = 0
                op["tag"] = tags[i % len(tags)]
                op["delay"] = r.choice((0.001, 0.02, 0.2, 1.0))
            key = wire_key(op)
            if key not in seen:
                seen.add(key)
                break
        else:
            continue
        if k not in ("group", "bcast", "permitall", "ncp") and r.random() < tries:
            op["tries"] = r.choice((2, 3))
            op["rdelay"] = r.choice((0.0, 0.1, 1.0))
        if not plain:
            for _ in range(op.get("tries", 1)):
                op["acts"].append(gen_act(r, hard))
        if r.random() < cancels:
            op["cancel"] = r.choice((0.0, 0.0002, 0.001, 0.0015, 0.003, 0.005, 0.008,
                                     round(r.random() * 0.3, 4), round(r.random() * 4, 4)))
        if op.get("dst") == 0:
            op["lost"] = False
        elif k in KINDS and r.random() < 0.15:
            op["lost"] = True
        elif r.random() < cancels and i:
            # the caller of another send gives this one up as soon as that one has ended
            op["cancel_with"] = r.randrange(i)
        ops.append(op)
    return ops


def gen_faults(r, kinds, top, most=3, base=0x1000):
    out = []
    for _ in range(r.choice(tuple(range(most + 1)))):
        e = r.choice(kinds)
        ev = {"e": e}
        if r.random() < 0.6:
            ev["t"] = round(r.random() * top, 4)
        else:
            ev["on"], ev["n"] = "frame", r.randrange(1, 30)
            ev["lag"] = r.choice((0.0, 0.0005, 0.002, 0.004, 0.3))
        if e in ("unplug", "away"):
            ev["d"] = r.choice((0.01, 0.5, 3.0, 6.0, 14.0))
        elif e == "openfail":
            ev["how"] = [r.choice(("enoent", "busy", "eio"))]
        elif e == "hang":
            ev["d"] = r.choice((0.3, 2.0, 3.3))
        elif e == "stall":
            ev["d"] = r.choice((0.02, 0.25, 1.0))
        elif e == "block":
            ev["d"] = r.choice((0.02, 0.3))
        elif e == "short":
            ev["n_"] = [r.randrange(1, 8) for _ in range(r.choice((1, 2, 5)))]
        elif e == "noise":
            ev["raw"] = gen_unsolicited(r, base).hex()
        out.append(ev)
    return out


class Flow(AppSession):
    def __init__(self, run, devices=2, config=None, pass_messages=False):
        super().__init__(run, configured=True, formed=True, devices=devices, config=config)
        d, h = self.d, self.h
        h.pass_messages = pass_messages
        d.state = dongle.ST_COORD
        d.eps = dict(EPS)
        d.groups.add(GROUP)
        self.recs = {}            # op index: Rec
        self.by_key = {}
        self.frames = {}          # op index: frames on the line
        self.strange = []
        self.read_of = {}         # frame number: (read time, status)
        self.started_at = None
        self.watching = False

    def begin(self, events=(), form=False, ops=()):
        """Start the driver; returns False if that failed."""
        run, d, w = self.run, self.d, self.w
        self.ops = {op["i"]: op for op in ops}
        for op in ops:
            self.by_key[wire_key(op)] = op
        rec = self.startup(form, limit=300)
        if not rec.ok:
            run.fail("startup", "a healthy adapter could not be started: %r" % rec.exc)
            return False
        self.h.run_until(w.now + 1.0)
        self.t0 = w.now
        self.watching = True
        d.on_host_frame.append(self._seen)
        d.directive = self._directive
        d.ota = self._ota
        self.faults = Faults(w, d, list(events), lambda: self.h.loop)
        self.faults.start(self.t0)
        for op in ops:
            self._schedule(op)
        return True

    # -- adapter side --------------------------------------------------------
    def _op_of(self, fr):
        return self.by_key.get(frame_key(fr)) if fr.name in SENDS else None

    def _seen(self, fr):
        if fr.name not in SENDS:
            return
        op = self._op_of(fr)
        if op is None:
            if fr.name == "activeEpReq" and bytes(fr.data) == b"\0\0\0\0":
                return            # the driver's own question, at a reconnection
            self.strange.append(fr)
            return
        self.frames.setdefault(op["i"], []).append(fr)

    def _directive(self, fr, k):
        op = self._op_of(fr)
        if op is None:
            return None
        n = op.setdefault("_n", 0)
        op["_n"] += 1
        return dict(op["acts"][n]) if n < len(op["acts"]) else {}

    def _ota(self, name, dst, data):
        kind = NAMES.get(name)
        key = (name, bytes(data).hex())
        op = self.by_key.get(key)
        if op is None:
            return self.d.default_ota(name, dst, data)
        if op["k"] in ("permitall", "ncp"):
            return b"\x00", 0.01
        if op.get("lost"):
            return None
        return reply_body(kind, op["tag"]), op["delay"]

    # -- host side -----------------------------------------------------------
    def _schedule(self, op):
        w, h = self.w, self.h
        w.at(self.t0 + op["t"], lambda: h.loop.call_soon(self._start, op))
        if op.get("cancel") is not None:
            w.at(self.t0 + op["t"] + op["cancel"], lambda: h.loop.call_soon(self._cancel, op))

    def _start(self, op):
        rec = self.recs[op["i"]] = self.h.call(op, lambda rec: self._do(op))
        for other in self.ops.values():
            if other.get("cancel_with") == op["i"]:
                rec.then.append(lambda other=other: self._cancel(other))

    def _cancel(self, op):
        rec = self.recs.get(op["i"])
        if rec is not None:
            self.h.cancel(rec)

    def shutdown(self, again):
        """The host stops the driver (and starts it again later)."""
        h, w = self.h, self.w
        w.fired["driver-stopped"] += 1
        self.faults.losses.append(w.now)
        h.loop.call_soon(lambda: h.call({"k": "shutdown"}, lambda rec: self.app.shutdown()))
        if again is not None:
            w.after(again, lambda: h.loop.call_soon(lambda: h.call(
                {"k": "startup"}, lambda rec: self.app.startup(True))))

    def _do(self, op):
        app, k = self.app, op["k"]
        data = bytes.fromhex(op.get("data", ""))
        retry = {"tries": op["tries"], "delay": op["rdelay"]} if "tries" in op else {}
        if k == "af":
            if op.get("ieee"):
                retry["use_ieee"] = True
            return app.request(app.get_device(nwk=op["dst"]), op["prof"], op["cl"], op["sep"],
                               op["dep"], op["tsn"], data, expect_reply=op["reply"], **retry)
        if k == "group":
            return app.mrequest(op["grp"], op["prof"], op["cl"], op["sep"], op["tsn"], data,
                                hops=op["hops"], non_member_radius=op["nmr"])
        if k == "bcast":
            return app.broadcast(op["prof"], op["cl"], op["sep"], op["dep"], 0, op["radius"],
                                 op["tsn"], data, zt.BroadcastAddress(op["addr"]))
        if k == "permitall":
            return app.broadcast(0, 0x36, 0, 0, 0, 0, op["tsn"],
                                 bytes([op["tsn"], op["tag"], op["tc"]]),
                                 zt.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR)
        if k == "ncp":
            if op.get("node"):
                return app.permit(op["tag"], node=app.ieee)
            return app.permit_ncp(op["tag"])
        return app.request(app.get_device(nwk=op["dst"]), 0, KINDS[k][0], 0, 0, op["tsn"],
                           bytes([op["tsn"]]) + request_body(k, op["tag"]), **retry)

    # -- the end -------------------------------------------------------------
    def finish(self, extra=0.0):
        """Run until every call has ended (or far beyond the time that can take)."""
        h, w = self.h, self.w
        last = max([op["t"] for op in self.ops.values()] or [0])
        tries = sum(op.get("tries", 1) for op in self.ops.values())
        end = self.t0 + last + 7.4 * tries + 30 * (1 + len(self.faults.events)) + extra
        while w.now < end and not (len(self.recs) == len(self.ops)
                                   and all(x.done for x in self.recs.values())):
            h.run_until(min(end, w.now + 2))
        h.run_until(max(w.now + 0.3, self.faults.quiet_at))
        self.answers()

    def answers(self):
        for rec in self.d.sent:
            if rec.get("kind") == "srsp" and rec["read"] is not None \
                    and rec["conn"] is rec["req"].conn:
                raw = rec["raw"]
                self.read_of[rec["req"].n] = (rec["read"], raw[4] if raw[1] else None)

    def answer(self, fr):
        """(read time, status) of the adapter's answer to a frame, or None."""
        return self.read_of.get(fr.n)

    def tainted(self, fr):
        """An answer of the same kind may still be on its way: nobody could tell to
        which of the two an answer belongs."""
        for frs in self.frames.values():
            for g in frs:
                if g is fr or g.name != fr.name or g.conn is not fr.conn or g.n > fr.n:
                    continue
                a = self.answer(g)
                rec = self.recs[self.by_key[frame_key(g)]["i"]]
                gone = rec.cancelled is not None and rec.cancelled >= g.t0 - 1e-9
                if a is not None and a[0] > g.t0 + IN_TIME:
                    return True
                if a is None and gone and fr.t0 < g.t0 + 12.5:
                    return True
        return False


# -- what must hold of the outcome -------------------------------------------
def judge_truth(flow):
    """P19"""
    run = flow.run
    for i, rec in flow.recs.items():
        op = rec.op
        frs = flow.frames.get(i, [])
        what = "%s (op %d, called %.4f)" % (op["k"], i, rec.t0)
        if not run.check(rec.done, "no-end", lambda: what + " never ended"):
            continue
        if isinstance(rec.exc, asyncio.CancelledError):
            run.check(rec.cancelled is not None, "cancelled",
                      lambda: what + " was cancelled by nobody above the driver")
            continue
        if rec.exc is not None:
            run.check(isinstance(rec.exc, (asyncio.TimeoutError,
                                           zigpy.exceptions.ZigbeeException)), "error",
                      lambda: what + " failed with %r" % rec.exc)
        last = frs[-1] if frs else None
        if rec.exc is not None and last is None:
            run.check(any(t <= rec.t1 for t in flow.faults.losses), "false-failure",
                      lambda: what + " was never sent and failed with %r" % rec.exc)
        ans = flow.answer(last) if last is not None else None
        ok = rec.exc is None and (op["k"] == "ncp" or rec.res[0] == 0)
        clear = last is None or not any(flow.tainted(f) for f in frs)
        if ok:
            run.check(last is not None, "false-success",
                      lambda: what + " succeeded and nothing was sent")
            if last is not None and clear:
                run.check(ans is not None and ans[1] == 0 and ans[0] <= rec.t1 + 1e-6,
                          "false-success", lambda: what + " succeeded, the adapter's answer: %r"
                          % (ans,))
        elif rec.exc is None or isinstance(rec.exc, CommandError):
            got = rec.res[0] if rec.exc is None else rec.exc.status
            if clear:
                run.check(ans is not None and ans[1] == got and got != 0
                          and ans[0] <= rec.t1 + 1e-6, "false-status",
                          lambda: what + " reported status %r, the adapter's answer: %r"
                          % (got, ans))
        if last is not None and ans is not None and clear and ans[0] <= last.t0 + IN_TIME:
            before = rec.cancelled is None or rec.cancelled > ans[0] + 1e-6
            if ans[1] == 0 and before:
                run.check(ok, "false-failure", lambda: what + " was accepted by the adapter at "
                          "%.4f (sent %.4f) and ended with %r" % (
                              ans[0], last.t0, rec.exc or rec.res))
            elif ans[1] and before:
                got = rec.exc.status if isinstance(rec.exc, CommandError) else \
                    rec.res[0] if rec.exc is None and rec.res is not None else None
                run.check(got == ans[1], "false-status",
                          lambda: what + " was refused with %d and ended with %r"
                          % (ans[1], rec.exc or rec.res))


def judge_bytes(flow):
    """P14"""
    run = flow.run
    for fr in flow.strange:
        run.check(False, "altered", "a command nobody asked for is on the line: %r" % fr)
    for i, rec in flow.recs.items():
        op = rec.op
        frs = flow.frames.get(i, [])
        what = "%s (op %d, called %.4f)" % (op["k"], i, rec.t0)
        tries = op.get("tries", 1)
        ok = rec.done and rec.exc is None and (op["k"] == "ncp" or rec.res[0] == 0)
        if ok:
            run.check(1 <= len(frs) <= tries, "count",
                      lambda: "%s succeeded and was sent %d times" % (what, len(frs)))
        else:
            run.check(len(frs) <= tries, "count",
                      lambda: "%s ended with %s and was sent %d times" % (
                          what, rec.outcome(), len(frs)))
        for f in frs:
            if rec.cancelled is not None:
                run.check(f.t0 <= rec.cancelled + 1e-9, "cancelled-sent",
                          lambda: "%s was cancelled at %.4f and sent at %.4f"
                          % (what, rec.cancelled, f.t0))
            if f.name == "dataRequest":
                run.check(f.data[8] >= 1, "radius", lambda: what + " was sent with radius 0")
        # a send that nobody answered or refused is not tried again after success
        for f in frs[:-1]:
            a = flow.answer(f)
            run.check(a is None or a[0] > f.t0 + IN_TIME or flow.tainted(f), "again",
                      lambda: what + " was answered and sent again")


def judge_places(flow):
    """P17"""
    run, d = flow.run, flow.d
    limit = LIMIT[d.product]
    spans = []
    late = min([a[0] for frs in flow.frames.values() for f in frs
                for a in [flow.answer(f)] if a is not None and a[0] > f.t0 + IN_TIME]
               or [1e9])          # from then on answers may be taken for one another
    for i, frs in flow.frames.items():
        op, rec = flow.ops[i], flow.recs[i]
        for f in frs:
            ans = flow.answer(f)
            end = f.t0 + 6.0
            if ans is not None and ans[0] <= end:
                end = ans[0]
                if op["k"] in SETTLING and ans[1] == 0:
                    end = ans[0] + 0.2
            stop = rec.t1 if rec.t1 is not None else None
            if rec.cancelled is not None:
                end = min(end, rec.cancelled)
            elif stop is not None and ans is None:
                end = min(end, stop)
            # bytes handed over while the port was blocked: when exactly is not known
            merged = any(g.conn is f.conn and g.t0 == f.t0 for g in d.wire[:f.n])
            spans.append((f.t if merged else f.t0, end, f, op))
    spans.sort(key=lambda s: s[2].n)
    for k, (t0, end, f, op) in enumerate(spans):
        busy = [s for s in spans[:k] if s[1] > t0 + 2e-3]
        if t0 >= late:
            break
        run.check(len(busy) < limit, "flood",
                  lambda: "%s (op %d) was sent at %.4f while %d other sends were in progress "
                  "or settling (limit %d): %s" % (
                      op["k"], op["i"], t0, len(busy), limit,
                      [(s[3]["k"], s[3]["i"], round(s[0], 4), round(s[1], 4)) for s in busy]))
    called = {i: n for n, i in enumerate(flow.recs)}
    firsts = sorted((frs[0].n, called[i], i) for i, frs in flow.frames.items()
                    if "tries" not in flow.ops[i])
    for (_, a, i), (_, b, j) in zip(firsts, firsts[1:]):
        run.check(a < b, "order", lambda: "%s (op %d, called %.4f) was sent after %s (op %d, "
                  "called %.4f)" % (flow.ops[j]["k"], j, flow.recs[j].t0, flow.ops[i]["k"], i,
                                    flow.recs[i].t0))
    most = max([sum(1 for s in spans[:k] if s[1] > spans[k][0] + 2e-3) + 1
                for k in range(len(spans))] or [0])
    flow.w.probes["all-places-taken"] += most >= limit
