"""Model of a TI Z-Stack (ZNP) adapter and of the mesh behind it.

The adapter is a peer of `core.SimSerial`.  It executes MT commands one after
another, keeps durable state (non-volatile items and the formed network) apart
from volatile state (registered endpoints, groups, running state), and does
what the plan says about delays, refusals, lost answers, line damage, unplugs.
"""
import collections
import struct

from . import mt
from .core import rng_for
from .mt import u16

Z12, Z3X0, Z30X = 0, 1, 2

# non-volatile item ids (from the Z-Stack documentation)
NV_STARTUP = 3
NV_EXTPAN = 45
NV_KEY = 98
NV_KEYS_ENABLE = 99
NV_PANID = 131
NV_CHANLIST = 132
# the firmware's own choice until it is told otherwise
BDB_DEFAULT = (0x00000800, 0x07FFF000)
NV_LOGICAL = 135
NV_DIRECTCB = 143
NV_TCLK = 257
NV_HASCONF = {Z12: 3840, Z3X0: 96, Z30X: 96}

ST_HOLD, ST_STARTING, ST_COORD = 0, 8, 9

WANT_EPS = {1, 2, 3, 4, 5, 6, 8, 11, 0x6E, 12, 13, 47, 242}


class Dev:
    """A device on the mesh."""

    def __init__(self, nwk, ieee, man=0x1234, eps=None, router=False, neighbors=(),
                 latency=0.05):
        self.nwk = nwk
        self.ieee = ieee          # 8 bytes, wire order
        self.man = man
        self.router = router
        self.eps = eps or {1: (0x0104, 0x0100, [0, 6], [25])}
        self.neighbors = list(neighbors)
        self.latency = latency
        self.answers = True

    def node_desc(self):
        return struct.pack("<BBBHBHHHB", 1 if self.router else 2, 0x40,
                           0x8E if self.router else 0x80, self.man, 82, 82, 0, 82, 0)

    def simple_desc(self, ep):
        prof, dev, inc, outc = self.eps[ep]
        return (struct.pack("<BHHBB", ep, prof, dev, 1, len(inc))
                + b"".join(map(u16, inc)) + bytes([len(outc)]) + b"".join(map(u16, outc)))


class Dongle:
    def __init__(self, world, url="/dev/null", product=Z3X0, seed=0, link=None, ieee=None):
        self.world = world
        self.url = url
        self.product = product
        self.seed = seed
        self.ieee = ieee or bytes([0x10, product, 3, 4, 5, 0x4B, 0x12, 0])
        self.present = True
        self.silent = False          # firmware hangs: nothing is processed
        link = dict(link or {})
        self.lat = link.get("lat", 0.001)
        self.chunk = link.get("chunk", "whole")
        self.gap = link.get("gap", 0.0)
        self.cap_read = link.get("cap_read", 0)
        self.pace = link.get("pace", 0.004)      # ordinary processing time
        self.jitter = link.get("jitter", 0.004)
        self.effect_late = link.get("effect_late", False)
        self.apply_time = {}
        # durable
        self.nv = {}
        self.nib = None
        self.leds = []
        self.factory()
        # volatile
        self.conn = None
        self.epoch = 0                # power cycles
        self.boot_count = 0
        self.state = ST_HOLD
        self.eps = {}
        self.groups = set()
        self.queue = collections.deque()
        self.busy = False
        # mesh
        self.devs = {}
        # record
        self.wire = []                # host frames as written, in order
        self.rcvd = []                # host frames as the adapter got them
        self.sent = []                # frames for the host: dict
        self.conns = []
        self.resets = []
        self.nv_writes = []
        self.formed = []
        self.bad_commands = []
        self.actions = []             # command-level misbehaviour (from the plan)
        self.on_host_frame = []       # callbacks(frame)
        self.counts = collections.Counter()
        self.tx_n = 0
        self.last_reply = {}
        self.last_af = 0.0
        self.state_delay = 0.3
        self.reset_delay = 0.4
        self.ind_before_srsp = False
        self.ota = self.default_ota
        self.confirm_status = 0
        self.on_af = None             # what the devices do with a message
        self.lose_confirm = 0.0       # share of confirmations that never come
        self.busy_air = False         # no network can be formed on the configured channels
        self.bdb = list(BDB_DEFAULT)  # channels for forming (first, second choice)

    # -- durable state ----------------------------------------------------
    def factory(self):
        self.nv = {
            NV_STARTUP: b"\x00", NV_EXTPAN: b"\xff" * 8, NV_KEY: bytes(range(16)),
            NV_KEYS_ENABLE: b"\x01", NV_PANID: b"\xff\xff",
            NV_CHANLIST: struct.pack("<I", 0x800), NV_LOGICAL: b"\x02",
            NV_DIRECTCB: b"\x00", NV_TCLK: b"\x00" * 32,
        }
        self.nib = None

    def configured(self, panid=0x1A62, extpan=b"\xdd" * 8, key=None, channels=None,
                   formed=True):
        """As a successful initialisation with these settings leaves it."""
        if key is None:
            key = bytes([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])
        if channels is None:
            channels = (1 << 15) | (1 << 20) | (1 << 25)
        self.nv.update({
            NV_EXTPAN: extpan, NV_KEY: key, NV_KEYS_ENABLE: b"\x00",
            NV_PANID: u16(panid), NV_CHANLIST: struct.pack("<I", channels),
            NV_LOGICAL: b"\x00", NV_DIRECTCB: b"\x01", NV_HASCONF[self.product]: b"\x55",
        })
        if self.product == Z12:
            self.nv[NV_TCLK] = b"\xff" * 8 + b"ZigBeeAlliance09" + b"\x00" * 8
        if formed:
            self.form()
            self.formed.clear()

    def form(self, channels=None):
        nv = self.nv
        panid = nv[NV_PANID]
        if panid == b"\xff\xff":
            panid = u16(0x3D0B)
        self.nib = dict(panid=panid, extpan=nv[NV_EXTPAN], key=nv[NV_KEY],
                        channels=nv[NV_CHANLIST] if channels is None
                        else struct.pack("<I", channels), serial=len(self.formed))
        self.formed.append(self.world.now)
        self.world.log("network-formed", panid.hex())

    # -- power ------------------------------------------------------------
    def reboot(self):
        self.epoch += 1
        self.state = ST_HOLD
        self.eps = {}
        self.groups = set()
        self.queue.clear()
        self.busy = False
        self.bdb = list(BDB_DEFAULT)
        if self.nv[NV_STARTUP][0] & 0x02:
            # only the state of the network: configuration items survive
            self.nib = None

    def unplug(self):
        self.world.log("unplug", self.url)
        self.present = False
        self.break_line()
        self.reboot()

    def plug(self):
        self.world.log("plug", self.url)
        self.present = True

    def drop_line(self):
        """The connection breaks and the port is there again at once (USB hiccup):
        the adapter keeps its power."""
        self.world.log("line-drop", self.url)
        self.break_line()

    def break_line(self):
        for ser in self.conns:
            if ser.is_open and not ser.dead:
                ser.unplug()
        self.conn = None

    # -- peer interface ---------------------------------------------------
    def host_opened(self, ser):
        ser.cap_read = self.cap_read
        self.conn = ser
        self.conns.append(ser)
        ser.deframer = mt.Deframer()
        ser.raw = bytearray()
        ser.last_in = ser.last_out = self.world.now
        ser.outstream = []        # [end offset, record]
        ser.out_off = 0
        ser.read_off = 0
        ser.frames = []
        ser.wire_pos = 0
        self.world.log("opened", self.url)

    def host_closed(self, ser):
        if self.conn is ser:
            # another opening of the same port may still be there
            self.conn = next((s for s in reversed(self.conns)
                              if s.is_open and not s.broken and not s.dead), None)

    def host_wrote(self, ser, data, t0):
        ser.raw += data
        for fr in ser.deframer.feed(data):
            fr.t = self.world.now
            fr.t0 = t0 if t0 is not None else self.world.now
            fr.conn = ser
            fr.n = len(self.wire)
            self.wire.append(fr)
            ser.frames.append(fr)
            for cb in list(self.on_host_frame):
                cb(fr)
            if ser.broken:
                return
            t = max(ser.last_in, self.world.now + self.lat)
            ser.last_in = t
            self.world.at(t, self._arrive, ser, fr, self.epoch)

    def host_read(self, ser, data):
        ser.read_off += len(data)
        while ser.outstream and ser.outstream[0][0] <= ser.read_off:
            _, rec = ser.outstream.pop(0)
            rec["read"] = self.world.now

    # -- output -----------------------------------------------------------
    def emit(self, raw, **info):
        """Send bytes to the host (if one listens)."""
        rec = dict(raw=raw, t=self.world.now, read=None, conn=self.conn, **info)
        self.sent.append(rec)
        ser = self.conn
        if ser is None:
            return rec
        n = self.tx_n
        self.tx_n += 1
        data = raw
        mangle = info.get("mangle")
        if mangle:
            data = mangle(raw)
            rec["mangled"] = data != raw
        ser.out_off += len(data)
        ser.outstream.append([ser.out_off, rec])
        r = rng_for(self.seed, "link", n)
        t = max(ser.last_out, self.world.now + self.lat)
        if self.chunk == "whole":
            pieces = [data]
        elif self.chunk == "bytes":
            pieces = [data[i:i + 1] for i in range(len(data))]
        else:
            pieces, i = [], 0
            while i < len(data):
                k = r.choice((1, 1, 2, 3, 5, 8, 64))
                pieces.append(data[i:i + k])
                i += k
        for i, p in enumerate(pieces):
            if i and self.gap:
                t += self.gap * r.random()
            self.world.at(t, ser.deliver, p)
        ser.last_out = t
        return rec

    # -- input ------------------------------------------------------------
    def _arrive(self, ser, fr, epoch):
        if epoch != self.epoch or not self.present:
            return
        if fr.ctype == mt.SREQ or fr.ctype == mt.AREQ:
            self.queue.append(fr)
            self._pump()

    def _pump(self):
        if self.busy or not self.queue or self.silent:
            return
        fr = self.queue.popleft()
        self.rcvd.append(fr)
        self.world.log("cmd", fr.name, bytes(fr.data).hex())
        if fr.ctype == mt.AREQ:
            if (fr.subsys, fr.cmd) in ((mt.SYS, 0), (mt.SAPI, 9)):
                self._reset(fr)
            self.world.after(0, self._pump)
            return
        self.counts[fr.name] += 1
        k = self.counts["sreq"]
        self.counts["sreq"] += 1
        act = self._action(fr, k)
        r = rng_for(self.seed, "cmd", k)
        delay = self.pace + self.jitter * r.random()
        if "delay" in act:
            delay = act["delay"]
            self.world.fired["slow-answer"] += 1
        self.busy = True
        epoch = self.epoch
        late = act.get("late", self.effect_late)
        if act.get("ignore"):
            self.world.fired["lost-command"] += 1
            self.world.after(0.001, self._done, epoch)
            return
        if act.get("body") is not None:
            self.world.after(delay, self._respond, fr, epoch, bytes.fromhex(act["body"]), [],
                             act)
        elif act.get("status") is not None:
            self.world.fired["error-status"] += 1
            rsp, after = self._refusal(fr, act["status"]), []
            self.world.after(delay, self._respond, fr, epoch, rsp, after, act)
        elif late:
            self.world.after(delay, self._exec_and_respond, fr, epoch, act)
        else:
            rsp, after = self._execute(fr)
            self.world.after(delay, self._respond, fr, epoch, rsp, after, act)

    def _exec_and_respond(self, fr, epoch, act):
        if epoch != self.epoch:
            return
        rsp, after = self._execute(fr)
        self._respond(fr, epoch, rsp, after, act)

    directive = None

    def _action(self, fr, k):
        if self.directive is not None:
            act = self.directive(fr, k)
            if act is not None:
                return act
        for a in self.actions:
            if "n" in a and a["n"] != k:
                continue
            if "cmd" in a and a["cmd"] != fr.name:
                continue
            if "nth" in a and a["nth"] != self.counts[fr.name] - 1:
                continue
            if a.get("left", 1) <= 0:
                continue
            if "left" in a:
                a["left"] -= 1
            return a
        return {}

    def _respond(self, fr, epoch, rsp, after, act):
        if epoch != self.epoch:
            return
        if rsp is not None:
            if act.get("mute"):
                self.world.fired["lost-answer"] += 1
            else:
                for pre in act.get("before", ()):
                    self.emit(bytes.fromhex(pre), kind="noise")
                self.emit(mt.frame(mt.SRSP, fr.subsys, fr.cmd, rsp), kind="srsp", req=fr)
        for d, fn, args in after:
            self.world.after(d, self._later, epoch, fn, args)
        self._done(epoch)

    def _later(self, epoch, fn, args):
        if epoch == self.epoch and self.present:
            fn(*args)

    def _done(self, epoch):
        if epoch != self.epoch:
            return
        self.busy = False
        self._pump()

    def hang(self):
        self.silent = True

    def unhang(self):
        self.silent = False
        self._pump()

    def _refusal(self, fr, status):
        layouts = {
            "osalNvRead": bytes([status, 0]),
            "readConfiguration": bytes([status, fr.data[0] if fr.data else 0, 0]),
            "extFindGroup": bytes([status]) + b"\x00\x00\x00",
            "getDeviceInfo": bytes([status]) + self.ieee + u16(0) + bytes([7, self.state, 0]),
        }
        return layouts.get(fr.name, bytes([status]))

    def _reset(self, fr):
        self.resets.append(self.world.now)
        self.world.log("reset")
        self.reboot()
        for a in self.actions:
            if a.get("cmd") == "resetReq" and a.get("left", 1) > 0 and \
                    a.get("nth", len(self.resets) - 1) == len(self.resets) - 1:
                if "left" in a:
                    a["left"] -= 1
                if a.get("mute"):
                    self.world.fired["lost-reset-indication"] += 1
                    return
                if "delay" in a:
                    self.world.fired["slow-reset"] += 1
                    self.world.after(a["delay"], self._later, self.epoch, self._reset_ind, ())
                    return
        self.world.after(self.reset_delay, self._later, self.epoch, self._reset_ind, ())

    def _reset_ind(self):
        self.emit(mt.named(mt.AREQ, "resetInd", bytes([0, 2, self.product, 2, 7, 1])),
                  kind="resetInd")

    # -- commands ---------------------------------------------------------
    def _bad(self, fr, why):
        self.bad_commands.append((self.world.now, fr, why))
        return b"\x02"

    def _execute(self, fr):
        fn = getattr(self, "cmd_" + fr.name, None) if "/" not in fr.name else None
        if fn is None:
            if fr.subsys == mt.ZDO:
                return b"\x00", []
            return None, [(0, self.emit, (mt.frame(mt.SRSP, 0, 0, bytes(
                [2, (fr.ctype << 5) | fr.subsys, fr.cmd])),))]
        try:
            res = fn(fr.data)
        except (struct.error, IndexError) as e:
            return self._bad(fr, repr(e)), []
        if isinstance(res, tuple):
            return res
        return res, []

    def cmd_ping(self, d):
        return u16(0x0179)

    def cmd_version(self, d):
        return bytes([2, self.product, 2, 7, 1]) + struct.pack("<I", 20190608)

    def cmd_random(self, d):
        return u16(self.counts["random"])

    def cmd_osalNvLength(self, d):
        (i,) = struct.unpack("<H", d)
        return u16(len(self.nv.get(i, b"")))

    def cmd_osalNvRead(self, d):
        i, off = struct.unpack("<HB", d)
        if i not in self.nv:
            return bytes([2, 0])
        v = self.nv[i][off:]
        return bytes([0, len(v)]) + v

    def _nv_write(self, i, off, v):
        old = self.nv.get(i)
        if old is None or off + len(v) > len(old):
            return b"\x0a"
        self.nv[i] = old[:off] + v + old[off + len(v):]
        self.nv_writes.append((self.world.now, i, self.nv[i]))
        return b"\x00"

    def cmd_osalNvWrite(self, d):
        i, off, n = struct.unpack("<HBB", d[:4])
        v = d[4:]
        if len(v) != n:
            return b"\x02"
        return self._nv_write(i, off, v)

    def cmd_osalNvItemInit(self, d):
        i, n, k = struct.unpack("<HHB", d[:5])
        if i in self.nv:
            return b"\x00"
        self.nv[i] = (d[5:5 + k] + b"\xff" * n)[:n]
        self.nv_writes.append((self.world.now, i, self.nv[i]))
        return b"\x09"

    def cmd_readConfiguration(self, d):
        i = d[0]
        v = self.nv.get(i)
        if v is None:
            return bytes([2, i, 0])
        return bytes([0, i, len(v)]) + v

    def cmd_writeConfiguration(self, d):
        i, n = d[0], d[1]
        if len(d) != n + 2:
            return b"\x02"
        return self._nv_write(i, 0, d[2:])

    def cmd_register(self, d):
        ep, prof, dev, ver, lat, nin = struct.unpack("<BHHBBB", d[:8])
        p = 8
        inc = struct.unpack("<%dH" % nin, d[p:p + 2 * nin])
        p += 2 * nin
        nout = d[p]
        outc = struct.unpack("<%dH" % nout, d[p + 1:p + 1 + 2 * nout])
        if len(d) != p + 1 + 2 * nout:
            raise struct.error("register length")
        if ep in self.eps:
            return b"\xb8"
        self.eps[ep] = (prof, dev, inc, outc)
        return b"\x00"

    def _state(self, s):
        self.state = s
        if s == ST_COORD and self.nv[NV_STARTUP][0] & 0x02:
            # the firmware clears this when it saves the state of the new network
            self.nv[NV_STARTUP] = bytes([self.nv[NV_STARTUP][0] & ~0x02])
        self.emit(mt.named(mt.AREQ, "stateChangeInd", bytes([s])), kind="state")

    def _start(self, form, channels=None):
        """Bring the network up; returns the list of later events."""
        if form or self.nib is None:
            if self.nv[NV_LOGICAL] != b"\x00":
                return None
            if self.busy_air and (channels is None or not channels[1]):
                self.world.fired["formation-failed"] += 1
                return [(0, self._state, (ST_STARTING,))]
            if channels is None:
                self.form()
            else:
                self.form(channels[1] if self.busy_air else channels[0])
        return [(0, self._state, (ST_STARTING,)), (self.state_delay, self._state, (ST_COORD,))]

    def cmd_startupFromApp(self, d):
        struct.unpack("<H", d)
        fresh = self.nib is None
        later = self._start(False)
        if later is None:
            return b"\x02"
        if self.ind_before_srsp:
            for dl, fn, args in later:
                self.world.after(0, self._later, self.epoch, fn, args)
            later = []
        return bytes([1 if fresh else 0]), later

    def cmd_bdbSetChannel(self, d):
        prim, chan = struct.unpack("<BI", d)
        self.bdb[0 if prim else 1] = chan
        return b"\x00"

    def cmd_bdbStartCommissioning(self, d):
        mode = d[0]
        if mode & 4:
            if self.state != ST_COORD:
                later = self._start(self.nib is None, self.bdb)
                if later is None:
                    return b"\x02"
                if self.ind_before_srsp:
                    for dl, fn, args in later:
                        self.world.after(0, self._later, self.epoch, fn, args)
                    later = []
            else:
                later = []
            later.append((self.state_delay / 2, self._bdb_note, (0,)))
            return b"\x00", later
        return b"\x00"

    def _bdb_note(self, status):
        self.emit(mt.named(mt.AREQ, "bdbComissioningNotifcation", bytes([status, 0, 0])),
                  kind="bdb")

    def cmd_getDeviceInfo(self, d):
        assoc = sorted(self.devs)[:10]
        return (b"\x00" + self.ieee + u16(0 if self.state == ST_COORD else 0xFFFE)
                + bytes([7, self.state, len(assoc)]) + b"".join(map(u16, assoc)))

    def cmd_ledControl(self, d):
        led, mode = d[0], d[1]
        self.leds.append((self.world.now, led, mode))
        return b"\x00"

    def cmd_extFindGroup(self, d):
        ep, grp = struct.unpack("<BH", d)
        if (ep, grp) in self.groups:
            return b"\x00" + u16(grp) + b"\x00"
        return b"\x01" + u16(0) + b"\x00"

    def cmd_extAddGroup(self, d):
        ep, grp, n = struct.unpack("<BHB", d[:4])
        if len(d) != 4 + n:
            raise struct.error("group name")
        if (ep, grp) in self.groups:
            return b"\x02"
        self.groups.add((ep, grp))
        return b"\x00"

    # -- the mesh ---------------------------------------------------------
    def zdo_reply(self, nwk, name, payload, delay, tag=None):
        """Answers of one kind from one device arrive in the order of the requests."""
        key = (nwk, name)
        t = max(self.world.now + delay, self.last_reply.get(key, 0) + 1e-4)
        self.last_reply[key] = t
        self.world.at(t, self._later, self.epoch, self._zdo_out, (nwk, name, payload, tag))

    def _zdo_out(self, nwk, name, payload, tag):
        if callable(payload):
            payload = payload()
        self.emit(mt.named(mt.AREQ, name, u16(nwk) + payload), kind="zdo", src=nwk,
                  name=name, tag=tag)

    def default_ota(self, name, dst, d):
        """(payload after srcaddr, delay) of the device's answer, or None."""
        dev = self.devs.get(dst)
        if dst == 0:
            if name == "activeEpReq":
                eps = sorted(self.eps)
                return b"\x00" + u16(0) + bytes([len(eps)]) + bytes(eps), 0.01
            if name == "nodeDescReq":
                return b"\x00" + u16(0) + struct.pack(
                    "<BBBHBHHHB", 0, 0x40, 0x8F, 0, 80, 160, 0, 160, 0), 0.01
            if name == "mgmtPermitJoinReq":
                return b"\x00", 0.01
            return None
        if dev is None or not dev.answers:
            return None
        lat = dev.latency
        if name == "nodeDescReq":
            return b"\x00" + u16(dst) + dev.node_desc(), lat
        if name == "activeEpReq":
            eps = sorted(dev.eps)
            return b"\x00" + u16(dst) + bytes([len(eps)]) + bytes(eps), lat
        if name == "simpleDescReq":
            ep = d[4]
            if ep not in dev.eps:
                return None
            s = dev.simple_desc(ep)
            return b"\x00" + u16(dst) + bytes([len(s)]) + s, lat
        if name == "mgmtLqiReq":
            start = d[2]
            part = dev.neighbors[start:start + 2]
            return (b"\x00" + bytes([len(dev.neighbors), start, len(part)])
                    + b"".join(part)), lat
        if name in ("bindReq", "unbindReq", "mgmtPermitJoinReq", "mgmtLeaveReq"):
            return b"\x00", lat
        return None

    def _zdo(self, name, dst, d):
        res = self.ota(name, dst, d)
        later = []
        if res is not None:
            payload, delay = res
            later.append((0, self.zdo_reply, (dst, name.replace("Req", "Rsp"), payload, delay)))
        return b"\x00", later

    def cmd_nodeDescReq(self, d):
        dst, _ = struct.unpack("<HH", d)
        return self._zdo("nodeDescReq", dst, d)

    def cmd_activeEpReq(self, d):
        dst, _ = struct.unpack("<HH", d)
        return self._zdo("activeEpReq", dst, d)

    def cmd_simpleDescReq(self, d):
        dst, _, _ = struct.unpack("<HHB", d)
        return self._zdo("simpleDescReq", dst, d)

    def cmd_mgmtLqiReq(self, d):
        dst, _ = struct.unpack("<HB", d)
        return self._zdo("mgmtLqiReq", dst, d)

    def cmd_bindReq(self, d):
        if len(d) != 2 + 8 + 1 + 2 + 1 + 8 + 1:
            raise struct.error("bind")
        return self._zdo("bindReq", struct.unpack("<H", d[:2])[0], d)

    def cmd_unbindReq(self, d):
        if len(d) != 2 + 8 + 1 + 2 + 1 + 8 + 1:
            raise struct.error("unbind")
        return self._zdo("unbindReq", struct.unpack("<H", d[:2])[0], d)

    def cmd_mgmtLeaveReq(self, d):
        if len(d) != 11:
            raise struct.error("leave")
        return self._zdo("mgmtLeaveReq", struct.unpack("<H", d[:2])[0], d)

    def cmd_mgmtPermitJoinReq(self, d):
        mode, dst, dur, tc = struct.unpack("<BHBB", d)
        res = self._zdo("mgmtPermitJoinReq", 0 if dst >= 0xFFF8 else dst, d)
        return res

    def cmd_dataRequest(self, d):
        dst, dep, sep, cl, trans, opt, rad, n = struct.unpack("<HBBHBBBB", d[:10])
        if len(d) != 10 + n:
            raise struct.error("data length")
        if self.on_af is not None:
            self.on_af(dst, dep, sep, cl, d[10:])
        return self._af(d, sep, trans)

    def cmd_dataRequestExt(self, d):
        mode = d[0]
        dep, pan, sep, cl, trans, opt, rad, n = struct.unpack("<BHBHBBBH", d[9:20])
        if len(d) != 20 + n:
            raise struct.error("data length")
        return self._af(d, sep, trans)

    def _af(self, d, sep, trans):
        r = rng_for(self.seed, "af", self.counts["sreq"])
        conf = mt.named(mt.AREQ, "dataConfirm", bytes([self.confirm_status, sep, trans]))
        if self.lose_confirm and r.random() < self.lose_confirm:
            self.world.fired["lost-confirmation"] += 1
            return b"\x00", []
        return b"\x00", [(0.01 + 0.1 * r.random(), self.emit, (conf,))]


class RawPeer:
    """A line that carries exactly the bytes the plan says."""

    def __init__(self, world, url="/dev/null"):
        self.world = world
        self.url = url
        self.present = True
        self.conn = None
        self.conns = []
        self.reads = []           # (time, connection number, bytes so far)

    def host_opened(self, ser):
        self.conn = ser
        ser.number = len(self.conns)
        ser.read_off = 0
        self.conns.append(ser)

    def host_closed(self, ser):
        if self.conn is ser:
            self.conn = None

    def host_wrote(self, ser, data, t0):
        pass

    def host_read(self, ser, data):
        ser.read_off += len(data)
        self.reads.append((self.world.now, ser.number, ser.read_off))

    def read_time(self, number, end):
        for t, n, off in self.reads:
            if n == number and off >= end:
                return t
        return None


def cut(data, mode, r):
    if mode == "whole" or not data:
        return [data] if data else []
    if mode == "bytes":
        return [data[i:i + 1] for i in range(len(data))]
    out, i = [], 0
    top = {"small": 4, "random": 12, "large": 80}[mode]
    while i < len(data):
        k = r.randint(1, top)
        out.append(data[i:i + k])
        i += k
    return out
