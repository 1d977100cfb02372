"""A small stand-in for a serial port, an adapter and a clock, for demonstrations.

The event loop runs in virtual time: when nothing is readable it jumps to the next
timer. The port is one end of a socket pair; the adapter answers at the other end.
"""
import asyncio
import os
import selectors
import socket
import struct
import sys
import time

sys.path.insert(0, os.environ.get("DEMO_REPO", os.getcwd()))
import serial  # noqa: E402
import serial.tools.list_ports  # noqa: E402


class _Jump:
    def __init__(self, loop):
        self.loop, self.real = loop, selectors.DefaultSelector()

    def __getattr__(self, name):
        return getattr(self.real, name)

    def select(self, timeout=None):
        ev = self.real.select(0)
        if ev or timeout == 0:
            return ev
        if timeout is None:
            if not self.loop.idle_ok:
                raise RuntimeError("nothing will ever happen any more")
            return self.real.select(1)
        self.loop.now += timeout
        return []


class Loop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.now = 1000.0
        self.idle_ok = False
        super().__init__(_Jump(self))
        self.errors = []
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))

    def time(self):
        return self.now


class Port:
    """Looks like a pyserial port."""

    def __init__(self, machine, url, kw):
        self.machine, self.url, self.settings = machine, url, kw
        self.sock, self.far = socket.socketpair()
        self.sock.setblocking(False)
        self.far.setblocking(False)
        self.is_open, self.broken = True, False
        self.timeout = self.write_timeout = 0
        self.port = self.name = url
        self.written = b""
        self.t_open = machine.loop.now
        self.t_close = None
        self.chunks = []

    def fileno(self):
        return self.sock.fileno()

    @property
    def in_waiting(self):
        return 1024

    @property
    def out_waiting(self):
        return 0

    def read(self, n=1):
        if self.broken:
            raise serial.SerialException("device disconnected")
        try:
            data = self.sock.recv(n)
        except BlockingIOError:
            return b""
        if not data:
            raise serial.SerialException("device disconnected")
        return data

    def write(self, data):
        if not self.is_open or self.broken:
            raise serial.SerialException("write failed")
        data = bytes(data)
        self.written += data
        self.machine.log.append((self.machine.loop.now, data))
        if self.machine.adapter is not None:
            self.machine.adapter.feed(self, data)
        return len(data)

    def flush(self):
        pass

    def to_host(self, data):
        if self.is_open and not self.broken:
            try:
                self.far.send(data)
            except OSError:
                pass

    def unplug(self):
        self.broken = True
        self.far.close()

    def close(self):
        if self.is_open:
            self.is_open = False
            self.t_close = self.machine.loop.now
            self.sock.close()
            self.far.close()


class Machine:
    def __init__(self, adapter=None):
        self.loop = Loop()
        asyncio.set_event_loop(self.loop)
        self.adapter = adapter
        self.ports, self.log, self.fail = [], [], []
        self.present = True
        if adapter is not None:
            adapter.machine = self
        serial.serial_for_url = self.open
        time.monotonic = lambda: self.loop.now

    def open(self, url, *a, **kw):
        if self.fail:
            raise self.fail.pop(0)
        if not self.present:
            raise serial.SerialException(2, "could not open port")
        p = Port(self, url, kw)
        self.ports.append(p)
        if self.adapter is not None:
            self.adapter.opened(p)
        return p

    @property
    def port(self):
        return self.ports[-1]

    def run(self, coro, limit=10000):
        return self.loop.run_until_complete(asyncio.wait_for(coro, limit))

    def sleep(self, d):
        self.loop.run_until_complete(asyncio.sleep(d))


def frame(kind, subsystem, cmd, data=b""):
    body = bytes([len(data), kind << 5 | subsystem, cmd]) + data
    x = 0
    for b in body:
        x ^= b
    return b"\xfe" + body + bytes([x])


SREQ, AREQ, SRSP = 1, 2, 3
SYS, AF, ZDO, SAPI, UTIL, CNF = 1, 4, 5, 6, 7, 15
KEY = bytes([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])


class Adapter:
    """Answers commands; `hook(subsystem, cmd, data)` may return a payload, "drop"
    or None for the usual answer; `delay` in seconds."""

    def __init__(self, product=1):
        self.product = product
        self.cmds = []            # (time, subsystem, cmd, data)
        self.buf = b""
        self.delay = 0.002
        self.hook = None
        self.state = 9
        self.eps = {1, 2, 3, 4, 5, 6, 8, 11, 110, 12, 13, 47, 242}
        self.group = True
        self.ieee = bytes([1, 2, 3, 4, 5, 6, 7, 8])
        self.resets = 0
        self.machine = None
        has = {0: 3840, 1: 96, 2: 96}[product]
        self.nv = {3: b"\x00", 45: b"\xdd" * 8, 98: KEY, 99: b"\x00", 131: b"\x62\x1a",
                   132: struct.pack("<I", 1 << 15 | 1 << 20 | 1 << 25), 135: b"\x00",
                   143: b"\x01", 257: b"\xff" * 8 + b"ZigBeeAlliance09" + b"\x00" * 8,
                   has: b"\x55"}

    def factory(self):
        for i in (3840, 96):
            self.nv.pop(i, None)
        self.nv[132] = struct.pack("<I", 0x800)
        self.nv[131] = b"\xff\xff"
        self.nv[45] = b"\xff" * 8
        self.nv[98] = bytes(range(16))
        self.nv[99] = b"\x01"
        self.nv[135] = b"\x02"
        self.nv[143] = b"\x00"
        self.state = 0
        self.eps, self.group = set(), False

    def opened(self, port):
        self.buf = b""

    def feed(self, port, data):
        self.buf += data
        while self.buf:
            if self.buf[0] != 0xFE:
                self.buf = self.buf[1:]
                continue
            n = self.buf[1] + 5 if len(self.buf) > 1 else 99
            if len(self.buf) < n:
                return
            fr, self.buf = self.buf[:n], self.buf[n:]
            self.got(port, fr[2] >> 5, fr[2] & 31, fr[3], fr[4:-1])

    def later(self, d, fn, *a):
        self.machine.loop.call_later(d, fn, *a)

    def send(self, raw, d=None):
        port = self.machine.port
        self.later(self.delay if d is None else d, port.to_host, raw)

    def areq(self, sub, cmd, data, d=None):
        self.send(frame(AREQ, sub, cmd, data), d)

    def got(self, port, kind, sub, cmd, data):
        self.cmds.append((self.machine.loop.now, sub, cmd, data))
        if kind == AREQ:
            if (sub, cmd) == (SYS, 0):
                self.resets += 1
                self.state, self.eps, self.group = 0, set(), False
                self.areq(SYS, 0x80, bytes([0, 2, self.product, 2, 7, 1]), 0.3)
            return
        res = self.hook(sub, cmd, data) if self.hook else None
        if res == "drop":
            return
        if res is None:
            res = self.answer(sub, cmd, data)
        self.send(frame(SRSP, sub, cmd, res))

    def answer(self, sub, cmd, d):
        if (sub, cmd) == (SYS, 1):
            return b"\x79\x01"
        if (sub, cmd) == (SYS, 2):
            return bytes([2, self.product, 2, 7, 1, 0, 0, 0, 0])
        if (sub, cmd) == (SYS, 8):
            i = struct.unpack("<H", d[:2])[0]
            v = self.nv.get(i)
            return b"\x02\x00" if v is None else bytes([0, len(v)]) + v
        if (sub, cmd) == (SYS, 9):
            i = struct.unpack("<H", d[:2])[0]
            if i not in self.nv:
                return b"\x0a"
            self.nv[i] = d[4:]
            return b"\x00"
        if (sub, cmd) == (SYS, 7):
            i, n, k = struct.unpack("<HHB", d[:5])
            if i in self.nv:
                return b"\x00"
            self.nv[i] = d[5:5 + k]
            return b"\x09"
        if (sub, cmd) == (SAPI, 4):
            v = self.nv[d[0]]
            return bytes([0, d[0], len(v)]) + v
        if (sub, cmd) == (SAPI, 5):
            self.nv[d[0]] = d[2:]
            return b"\x00"
        if (sub, cmd) == (UTIL, 0):
            return b"\x00" + self.ieee + b"\x00\x00" + bytes([7, self.state, 0])
        if (sub, cmd) == (ZDO, 5):
            if d[:2] == b"\x00\x00":
                eps = bytes(sorted(self.eps))
                self.areq(ZDO, 0x85, b"\x00\x00\x00\x00\x00" + bytes([len(eps)]) + eps, 0.02)
            return b"\x00"
        if (sub, cmd) == (AF, 0):
            if d[0] in self.eps:
                return b"\xb8"
            self.eps.add(d[0])
            return b"\x00"
        if (sub, cmd) == (ZDO, 0x4A):
            return b"\x00" + d[1:3] + b"\x00" if self.group else b"\x01\x00\x00\x00"
        if (sub, cmd) == (ZDO, 0x4B):
            self.group = True
            return b"\x00"
        if (sub, cmd) == (ZDO, 0x40) or (sub, cmd) == (CNF, 5):
            self.state = 9
            self.areq(ZDO, 0xC0, b"\x09", 0.2)
            if sub == CNF:
                self.areq(CNF, 0x80, b"\x00\x00\x00", 0.1)
            return b"\x00"
        return b"\x00"

    def count(self, sub, cmd):
        return sum(1 for _, s, c, _ in self.cmds if (s, c) == (sub, cmd))


def config(path="/dev/null", **nwk):
    from zigpy_cc.zigbee.application import ControllerApplication
    cfg = {"database_path": None, "device": {"path": path}}
    if nwk:
        cfg["network"] = nwk
    return ControllerApplication.SCHEMA(cfg)


def application(**kw):
    from zigpy_cc.zigbee.application import ControllerApplication
    return ControllerApplication(config(**kw))


def ieee_of(n):
    return bytes([n, 0, 0x33, 0x22, 0x11, 0x6F, 0x0D, 0])


def add_device(app, nwk, n=1):
    import zigpy.device
    import zigpy.types as zt
    dev = app.add_device(zt.EUI64(ieee_of(n)), nwk)
    dev.status = zigpy.device.Status.ENDPOINTS_INIT
    return dev


def started(product=1, form=True, **kw):
    """A machine with a configured adapter and a started application."""
    ad = Adapter(product)
    m = Machine(ad)
    app = application(**kw)
    m.run(app.startup(form))
    m.sleep(0.5)
    return m, ad, app


def require(cond, text):
    if not cond:
        print("FAILED: " + text)
        sys.exit(1)
    print("ok: " + text)
