"""P06: replies from devices reach the request that asked for them."""
import struct

from .. import core, dongle, host, mt
from ..mt import u16
from . import ASSUME, REAL_ALL, STUB

KINDS = {  # kind: (request cluster, reply cluster, request name)
    "node": (0x0002, 0x8002, "nodeDescReq"),
    "simple": (0x0004, 0x8004, "simpleDescReq"),
    "active": (0x0005, 0x8005, "activeEpReq"),
    "lqi": (0x0031, 0x8031, "mgmtLqiReq"),
    "bind": (0x0021, 0x8021, "bindReq"),
    "unbind": (0x0022, 0x8022, "unbindReq"),
    "leave": (0x0034, 0x8034, "mgmtLeaveReq"),
    "permit": (0x0036, 0x8036, "mgmtPermitJoinReq"),
}
NAMES = {v[2]: k for k, v in KINDS.items()}
IEEE = bytes([1, 2, 3, 4, 5, 6, 7, 8])


def request_body(kind, tag):
    if kind == "node" or kind == "active":
        return u16(tag)
    if kind == "simple":
        return u16(tag) + b"\x01"
    if kind == "lqi":
        return bytes([tag])
    if kind in ("bind", "unbind"):
        return IEEE + b"\x01" + u16(tag) + b"\x03" + IEEE + b"\x01"
    if kind == "leave":
        return bytes([tag]) + IEEE[1:] + b"\x00"
    if kind == "permit":
        return bytes([tag, 0])
    raise KeyError(kind)


def tag_of_request(name, d):
    if name in ("nodeDescReq", "activeEpReq", "simpleDescReq"):
        return d[2] | d[3] << 8
    if name in ("bindReq", "unbindReq"):
        return struct.unpack("<H", d[11:13])[0]
    if name == "mgmtPermitJoinReq":
        return d[3]
    return d[2]


def neighbor(r, nwk=None):
    """One entry of a neighbor table (reserved bits are 0)."""
    return (bytes(r.randrange(256) for _ in range(8)) + bytes(r.randrange(256) for _ in range(8))
            + u16(r.randrange(0x10000) if nwk is None else nwk)
            + bytes([r.randrange(128), r.randrange(4), r.randrange(256), r.randrange(256)]))


def reply_body(kind, tag):
    """What the device answers (after its address)."""
    r = core.rng_for("reply", kind, tag)
    st = bytes([r.choice((0, 0, 0, 0, 0x80, 0x81, 0x84))])
    some = lambda n: bytes(r.choice((0, 1, 82, 0xFE, 0xFF, r.randrange(256))) for _ in range(n))
    if kind == "node":
        return st + u16(tag) + some(13)
    if kind == "active":
        n = r.choice((0, 1, 2, 2, 5, 13, 40, 77))
        return st + u16(tag) + bytes([n]) + some(n)
    if kind == "simple":
        i, o = r.choice((0, 1, 3, 8, 17, 40)), r.choice((0, 1, 2, 7, 18, 45))
        s = some(6) + bytes([i]) + some(2 * i) + bytes([o]) + some(2 * o)
        return st + u16(tag) + bytes([len(s)]) + s
    if kind == "lqi":
        n = r.choice((0, 1, 1, 2, 3, 10))
        return st + bytes([r.randrange(n, 256), tag, n]) + b"".join(neighbor(r) for _ in range(n))
    return bytes([tag])


def tag_of_message(kind, data):
    if kind in ("node", "active", "simple"):
        return data[2] | data[3] << 8
    if kind == "lqi":
        return data[3]
    return data[1]


class P06:
    id = "P06"
    RUNS = {"quick": 9000, "thorough": 700000}
    REAL = REAL_ALL
    STUB = STUB + ["the handlers of zigpy above handle_message (record only)"]
    ASSUME = ASSUME + [
        "replies carry no transaction number on this interface: replies of one kind from one "
        "device come in the order of the requests, and a request whose reply is lost is not "
        "followed by another of its kind to the same device within 10 s"]
    RULE = ("Seeded: 1 to 10 requests of 8 kinds to up to 4 devices with chosen transaction "
            "numbers (0 and 255 frequent), issued together or over time, refused, lost, "
            "cancelled; replies early, late, before the acknowledgement; unrelated replies. "
            "Non-trivial: two requests of one kind, or one that failed.")
    SIMPLE = {"chunk": "whole", "lat": 0.001, "product": 1}

    def gen(self, r, tier, i):
        n = r.choice((1, 2, 3, 4, 6, 10))
        kinds = r.choice((tuple(KINDS), tuple(KINDS), ("node", "active", "simple"),
                          (r.choice(tuple(KINDS)),)))
        # addresses that follow each other, or that differ in a bit or a byte
        addrs = [0x1001 + k for k in range(9)]
        if r.random() < 0.4:
            a = r.randrange(1, 0xFFF0)
            addrs = list(dict.fromkeys(
                [a, a ^ 1 << r.randrange(16), a & 0xFF | r.randrange(256) << 8,
                 a & 0xFF00 | r.randrange(256), (a << 8 | a >> 8) & 0xFFFF]))
            addrs = [x for x in addrs if 0 < x < 0xFFF8 and x not in (0x1009, 0x7777)]
            addrs += [0x1009]
        dsts = addrs[:r.choice((1, 1, 2, 4))]
        if r.random() < 0.15:
            dsts.append(0)
        tags = r.sample(range(1, 200), n)
        prompt = r.random() < 0.6
        ops, t = [], 0.0
        style = r.choice((0.0, 0.01, 0.5, 3.0))
        for k in range(n):
            t += style * r.random()
            op = {"i": k, "t": round(t, 4), "k": r.choice(kinds), "dst": r.choice(dsts),
                  "tag": tags[k], "tsn": r.choice((0, 0, 255, r.randrange(256), k + 1)),
                  "delay": r.choice((0.001, 0.02, 0.2, 1.0, 3.0, 4.6)), "act": {}}
            x = r.random()
            if x < 0.12:
                op["act"]["status"] = r.choice((1, 2, 9, 0x10, 0x80, 0xC7, 0xE1, 0xFF))
            elif x < 0.20 and not prompt:
                op["act"][r.choice(("mute", "ignore"))] = True
            elif x < 0.28:
                op["early"] = True
            elif x < 0.36:
                op["lost"] = True
            if r.random() < 0.2:
                op["act"]["delay"] = r.choice((0.05, 0.2, 0.28)) if prompt else r.choice(
                    (0.05, 0.3, 2.0, 5.0))
            if r.random() < 0.15 and not op["act"].get("mute"):
                op["cancel"] = r.choice((0.0, 0.0005, 0.0015, 0.003, 0.01,
                                         round(r.random() * 0.3, 4), round(r.random() * 4, 4)))
            ops.append(op)
        burst = []
        if r.random() < 0.08:
            # the host is busy with other devices while replies are on their way
            burst = [round(r.random() * max(t, 0.3), 4), r.choice((130, 270, 270, 530, 70))]
        events = []
        for _ in range(r.choice((0, 0, 1, 3))):
            k = r.choice(tuple(KINDS))
            events.append({"t": round(r.random() * (t + 1), 4), "k": k,
                           "src": r.choice([x for x in addrs + [0x7777] if x not in dsts]),
                           "tag": 201 + r.randrange(40)})
        return {"cfg": {"chunk": r.choice(("whole", "whole", "bytes", "mixed")),
                        "lat": r.choice((0.001, 0.001, 0.0, 0.005)),
                        "product": r.choice((0, 1, 1, 2)), "form": r.random() < 0.1,
                        "prompt": prompt, "addrs": addrs},
                "ops": ops, "noise": events, "burst": burst}

    def execute(self, run):
        w, plan = run.world, run.plan
        cfg = plan["cfg"]
        d = dongle.Dongle(w, product=cfg["product"], seed=plan["seed"],
                          link={"chunk": cfg["chunk"], "lat": cfg["lat"]})
        d.configured()
        d.state = dongle.ST_COORD
        w.ports.peers["/dev/null"] = d
        ops = plan["ops"]
        by_tag = {op["tag"]: op for op in ops}
        h = host.AppHost(w, host.app_config())
        h.pass_messages = False
        h.boot()
        app = h.create()
        for n, a in enumerate(cfg["addrs"]):
            h.add_device(a, bytes([n + 1, 9, 9, 9, 9, 9, 9, 9]))
        rec = h.run_call({"k": "startup"}, lambda rec: app.startup(cfg["form"]))
        if not rec.ok:
            run.fail("startup", "a healthy adapter could not be started: %r" % rec.exc)
            return
        sent = {}                 # op index: wire frame

        def seen(fr):
            if fr.name in NAMES and len(fr.data) > 2:
                op = by_tag.get(tag_of_request(fr.name, fr.data))
                if op is not None:
                    if op["i"] in sent:
                        run.fail("duplicate", "%r sent twice" % fr)
                    sent[op["i"]] = fr
        d.on_host_frame.append(seen)

        def waiting(op):
            """Is an earlier reply of this kind from this device still to come?"""
            return any(o.get("due") and (o["dst"], o["k"]) == (op["dst"], op["k"])
                       and not any(rec.get("kind") == "zdo" and rec["raw"][6:-1]
                                   == reply_body(o["k"], o["tag"]) for rec in d.sent)
                       for o in ops)

        def directive(fr, k):
            if fr.name not in NAMES:
                return None
            op = by_tag.get(tag_of_request(fr.name, fr.data))
            if op is None:
                return None
            act = dict(op["act"])
            kind = op["k"]
            if op.get("early") and not act and not waiting(op):
                op["was_early"] = True
                raw = mt.named(mt.AREQ, op_name(kind), u16(op["dst"]) + reply_body(kind, op["tag"]))
                act["before"] = [raw.hex()]
            return act

        def ota(name, dst, data):
            kind = NAMES.get(name)
            op = by_tag.get(tag_of_request(name, data)) if kind else None
            if op is None:
                return b"\x00", 0.01
            if op.get("was_early") or op.get("lost"):
                return None
            op["due"] = True
            return reply_body(kind, op["tag"]), op["delay"]

        d.directive, d.ota = directive, ota
        t0 = w.now + 0.5
        h.run_until(t0 - 0.1)
        base = len(h.messages)
        recs = {}

        def start(op):
            dev = app.get_device(nwk=op["dst"])
            data = bytes([op["tsn"]]) + request_body(op["k"], op["tag"])
            recs[op["i"]] = h.call(op, lambda rec: app.request(
                dev, 0, KINDS[op["k"]][0], 0, 0, op["tsn"], data))

        for op in ops:
            w.at(t0 + op["t"], lambda op=op: h.loop.call_soon(start, op))
            if op.get("cancel") is not None:
                w.at(t0 + op["t"] + op["cancel"], lambda op=op: h.loop.call_soon(
                    lambda: h.cancel(recs[op["i"]])))
        if plan["burst"]:
            other = app.get_device(nwk=0x1009)

            async def busy(rec):
                for k in range(plan["burst"][1]):
                    await app.request(other, 0x0104, 6, 1, 1, 9, b"\x01\x09\x01",
                                      expect_reply=False)

            def go():
                h.call({"k": "burst"}, busy)
            w.probes["bursts-of-other-commands"] += 1
            w.at(t0 + plan["burst"][0], lambda: h.loop.call_soon(go))
        for ev in plan["noise"]:
            raw = mt.named(mt.AREQ, op_name(ev["k"]), u16(ev["src"])
                           + reply_body(ev["k"], ev["tag"]))
            w.at(t0 + ev["t"], d.emit, raw)
            w.fired["unasked-reply"] += 1
        last = max([op["t"] for op in ops] or [0])
        end = t0 + last + 6.2 * len(ops) + 12
        while w.now < end and not (len(recs) == len(ops) and
                                   all(x.done for x in recs.values())):
            h.run_until(min(end, w.now + 3))
        h.run_until(w.now + 6.5)
        # -- what was handed up
        kinds_of = {v[1]: k for k, v in KINDS.items()}
        got = {}
        for t, dev, prof, cluster, sep, dep, data in h.messages[base:]:
            kind = kinds_of.get(cluster)
            if kind is None:
                run.fail("forged", "message of cluster %04x nobody sent" % cluster)
                continue
            tag = tag_of_message(kind, data)
            op = by_tag.get(tag)
            got.setdefault(tag, []).append((t, dev, kind, data))
            if op is None:
                run.fail("unasked", "an unasked reply was handed up: %s" % data.hex())
        # -- replies as they arrived
        arrived = {}
        for rec in d.sent:
            raw = rec["raw"]
            if rec["read"] is None or raw[2] != 0x45 or len(raw) < 8:
                continue
            name = mt.NAMES.get((5, raw[3]))
            if name is None or not name.endswith("Rsp"):
                continue
            kind = NAMES.get(name.replace("Rsp", "Req"))
            if kind is None:
                continue
            body = raw[4:-1]
            tag = tag_of_message(kind, b"\x00" + body[2:])
            if tag in by_tag:
                arrived[tag] = rec["read"]
        tainted = set()
        # an acknowledgement that comes when its request is over may be taken for another's
        late = {}
        for rec in d.sent:
            if rec.get("kind") == "srsp" and rec["read"] is not None and rec["req"].t0 \
                    and rec["read"] > rec["req"].t0 + 5.9:
                late.setdefault(rec["req"].name, rec["req"].n)
        for i in sorted(sent, key=lambda i: sent[i].n):
            op = next(o for o in ops if o["i"] == i)
            fr, rec = sent[i], recs[i]
            key = (op["dst"], op["k"])
            failed = rec.refused or op["act"].get("ignore")
            ta = arrived.get(op["tag"])
            g = got.get(op["tag"], [])
            inside = ta is None or ta <= fr.t0 + 5 and (
                rec.t1 is None or rec.ok or rec.cancelled is not None or ta <= rec.t1)
            if not inside or ta is None and not failed or (
                    op["act"].get("ignore") and rec.cancelled is not None):
                # reply lost or late (or the adapter never got the request of a caller
                # who gave up): from here on outside the statement
                tainted.add(key)
            if late.get(fr.name, 1e9) <= fr.n:
                tainted.add(key)
            run.check(len(g) <= 1, "repeated",
                      lambda: "the reply to %s (tsn %d) was handed up %d times"
                      % (op["k"], op["tsn"], len(g)))
            if key in tainted:
                w.probes["not-judged-after-lost-reply"] += 1
                continue
            for t, dev, kind, data in g:
                want = bytes([op["tsn"]]) + reply_body(op["k"], op["tag"])
                run.check(kind == op["k"] and int(dev.nwk) == op["dst"] and data == want,
                          "mismatch", lambda: "the reply to %s of %04x, tsn %d, was handed "
                          "up as %s from %04x, expected %s" % (
                              op["k"], op["dst"], op["tsn"], data.hex(), int(dev.nwk),
                              want.hex()))
            if ta is None:
                continue
            run.check(len(g) == 1, "lost",
                      lambda: "the reply to %s of %04x, tsn %d, arrived at %.4f and was not "
                      "handed up (request sent %.4f)" % (op["k"], op["dst"], op["tsn"], ta,
                                                         fr.t0))
        keys = [(o["dst"], o["k"]) for o in ops]
        run.nontrivial = len(keys) > len(set(keys)) or any(not x.ok for x in recs.values())
        w.probes["tsn-zero"] += sum(1 for o in ops if o["tsn"] == 0)
        w.probes["reply-before-acknowledgement"] += sum(
            1 for o in ops if o.get("was_early"))


def op_name(kind):
    return KINDS[kind][2].replace("Req", "Rsp")


PROPS = {"P06": P06()}
