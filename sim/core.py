"""Deterministic world: virtual clock, event heap, event loop and serial ports.

One `World` is one simulated execution.  Everything the code under test can
observe that is not a pure function of its inputs comes from here: the clock
(`loop.time`, `time.time`, `time.monotonic`, `time.sleep`), timers, file
descriptor readiness, the serial ports and the list of ports of the machine.
"""
import asyncio
import collections
import hashlib
import heapq
import itertools
import logging
import random as _random
import signal
import sys
import time as _time

import serial
import serial.tools.list_ports
import termios

REAL_TIME = _time.time
REAL_MONO = _time.monotonic
REAL_PERF = _time.perf_counter

EPOCH = 1_600_000_000.0
MAX_STEPS = 400_000


class HostCrash(BaseException):
    """The simulated host process dies here."""


class SimLimit(BaseException):
    """A run exceeded its step budget (a livelock at one instant, or endless work)."""


class SimQuiescent(BaseException):
    """Nothing can ever happen any more, and somebody still waits."""


class CpuHang(BaseException):
    """The code under test spins without ever returning to the loop."""


def rng_for(*key):
    """A PRNG that depends on the key only (stable across processes)."""
    h = hashlib.sha256(repr(key).encode()).digest()
    return _random.Random(int.from_bytes(h[:8], "big"))


class World:
    def __init__(self, start=1000.0):
        self.now = start
        self.heap = []
        self._seq = itertools.count()
        self.loop = None
        self.loops = []
        self.trace = []
        self.fired = collections.Counter()   # fault kinds that actually happened
        self.probes = collections.Counter()  # rare conditions reached
        self.steps = 0
        self.max_steps = MAX_STEPS
        self.stalls = []
        self.stalled = 0.0
        self.ports = None
        self.state_sigs = set()
        self.loop_errors = []
        self._fd = itertools.count(1000)
        self.fifo_timers = False             # timers due at the same moment run in order

    # -- events -----------------------------------------------------------
    def at(self, t, fn, *args):
        ev = [max(t, self.now), next(self._seq), fn, args]
        heapq.heappush(self.heap, ev)
        return ev

    def after(self, d, fn, *args):
        return self.at(self.now + max(0.0, d), fn, *args)

    @staticmethod
    def cancel(ev):
        ev[2] = None

    def log(self, kind, *detail):
        self.trace.append((round(self.now, 9), kind) + detail)

    def stall(self, d):
        """The host is blocked (or the process is paused) for d seconds."""
        if d > 0:
            t = max(self.now, self.loop.clock)
            self.now = t + d
            self.stalled += d
            self.stalls.append((t, t + d))
            self.loop.clock = self.now

    # -- digest -----------------------------------------------------------
    def digest(self):
        h = hashlib.sha256()
        for item in self.trace:
            h.update(repr(item).encode())
            h.update(b"\n")
        return h.hexdigest()

    # -- lifecycle --------------------------------------------------------
    def new_loop(self):
        loop = SimLoop(self)
        self.loop = loop
        self.loops.append(loop)
        asyncio.set_event_loop(loop)
        return loop


class _Selector:
    """What BaseEventLoop calls `_selector`: where virtual time passes."""

    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop, world = self.loop, self.loop.world
        world.steps += 1
        if world.steps > world.max_steps:
            raise SimLimit("more than %d loop iterations" % world.max_steps)
        heap = world.heap
        clock = loop.clock
        # what happened in the environment while the host was running/stalled
        while heap and heap[0][0] <= loop.clock:
            ev = heapq.heappop(heap)
            if ev[2] is not None:
                world.now = ev[0]
                ev[2](*ev[3])
        world.now = loop.clock
        ready = loop.ready_fds()
        if ready or timeout == 0 or loop._ready:
            return ready
        target = None if timeout is None else clock + timeout
        if loop._scheduled and (target is None or loop._scheduled[0]._when < target - 1e-9):
            return ready
        while heap and (target is None or heap[0][0] <= target):
            ev = heapq.heappop(heap)
            if ev[2] is None:
                continue
            if ev[0] > loop.clock:
                loop.clock = ev[0]
            world.now = loop.clock
            ev[2](*ev[3])
            ready = loop.ready_fds()
            if ready or loop._ready:
                return ready
            if loop._scheduled and (
                target is None or loop._scheduled[0]._when < target - 1e-9
            ):
                return ready
            world.steps += 1
            if world.steps > world.max_steps:
                raise SimLimit("more than %d events" % world.max_steps)
        if target is None:
            raise SimQuiescent("no timer, no input, nobody to wake the host")
        if target > loop.clock:
            loop.clock = target
        world.now = loop.clock
        return []

    def close(self):
        pass


class FifoTimer(asyncio.TimerHandle):
    def __lt__(self, other):
        return (self._when, self.n) < (other._when, other.n)


class SimLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, world):
        super().__init__()
        self.world = world
        self.clock = world.now
        self._clock_resolution = 1e-9
        self._selector = _Selector(self)
        self._readers = {}
        self._writers = {}
        self.files = {}
        self.tasks = []
        self.write_first = False
        self.set_exception_handler(self._on_error)

    @staticmethod
    def _on_error(loop, context):
        # only errors that escaped from callbacks: reports about forgotten tasks come
        # from the garbage collector, at no defined moment, and those of a transport
        # are of errors that it handles itself
        if "handle" in context:
            exc = context.get("exception")
            loop.world.loop_errors.append((loop.world.now, repr(exc)))
            loop.world.log("loop-error", type(exc).__name__)

    def time(self):
        return self.clock

    def call_at(self, when, callback, *args, context=None):
        if not self.world.fifo_timers:
            return super().call_at(when, callback, *args, context=context)
        self._check_closed()
        timer = FifoTimer(when, callback, args, self, context)
        timer.n = next(self.world._seq)
        heapq.heappush(self._scheduled, timer)
        timer._scheduled = True
        return timer

    def _process_events(self, events):
        for handle in events:
            if not handle._cancelled:
                self._ready.append(handle)

    def _write_to_self(self):
        pass

    def ready_fds(self):
        out_r, out_w = [], []
        for fd, handle in self._readers.items():
            f = self.files.get(fd)
            if f is not None and f.sim_readable():
                out_r.append(handle)
        for fd, handle in self._writers.items():
            f = self.files.get(fd)
            if f is not None and f.sim_writable():
                out_w.append(handle)
        return out_w + out_r if self.write_first else out_r + out_w

    @staticmethod
    def _fdnum(fd):
        return fd if isinstance(fd, int) else fd.fileno()

    def add_reader(self, fd, callback, *args):
        self._readers[self._fdnum(fd)] = asyncio.Handle(callback, args, self, None)

    def remove_reader(self, fd):
        h = self._readers.pop(self._fdnum(fd), None)
        if h is not None:
            h.cancel()
            return True
        return False

    def add_writer(self, fd, callback, *args):
        f = self.files.get(self._fdnum(fd))
        if f is not None and f.tx_first_try is None:
            f.tx_first_try = self.world.now     # the driver has bytes to send from now on
        self._writers[self._fdnum(fd)] = asyncio.Handle(callback, args, self, None)

    def remove_writer(self, fd):
        h = self._writers.pop(self._fdnum(fd), None)
        if h is not None:
            h.cancel()
            return True
        return False

    def create_task(self, coro, *, name=None):
        task = super().create_task(coro, name=name)
        self.tasks.append(task)
        if len(self.tasks) > 512:
            self.tasks = [t for t in self.tasks if not t.done()]
        return task

    def live_timers(self):
        return [h for h in self._scheduled if not h._cancelled]

    def live_tasks(self):
        return [t for t in self.tasks if not t.done()]

    async def shutdown_asyncgens(self):
        pass


# ---------------------------------------------------------------------------
# serial ports
# ---------------------------------------------------------------------------
class SimSerial:
    """What serial.serial_for_url returns in the simulation."""

    def __init__(self, ports, url, settings, peer):
        world = ports.world
        self.ports = ports
        self.world = world
        self.url = url
        self.settings = settings
        self.peer = peer
        self.fd = next(world._fd)
        self.rx = bytearray()
        self.broken = False        # unplugged
        self.closed_at = None
        self.opened_at = world.now
        self.dead = False          # its process is gone
        self.timeout = settings.get("timeout")
        self.write_timeout = settings.get("write_timeout")
        self.blocked_until = 0.0
        self.cap_read = 0
        self.short_writes = []     # lengths for the next partial writes
        self.flush_error = False
        self.tx_log = []           # (time, bytes) accepted from the host
        self.tx_first_try = None
        self.loop = world.loop
        self.loop.files[self.fd] = self
        self.is_open = True
        self.port = url
        self.name = url

    # -- simulator side ---------------------------------------------------
    def sim_readable(self):
        return bool(self.rx) or self.broken

    def sim_writable(self):
        return self.broken or self.world.now >= self.blocked_until

    def deliver(self, data):
        if self.is_open and not self.broken and not self.dead:
            self.rx += data

    def unplug(self):
        self.broken = True

    # -- pyserial side ----------------------------------------------------
    def fileno(self):
        if not self.is_open:
            raise serial.SerialException("Attempting to use a port that is not open")
        return self.fd

    @property
    def in_waiting(self):
        return len(self.rx)

    @property
    def out_waiting(self):
        return 0

    def read(self, size=1):
        if self.dead:
            return b""
        if not self.is_open:
            raise serial.SerialException("Attempting to use a port that is not open")
        if self.broken:
            self.world.fired["read-error"] += 1
            self.world.ports.on_error()
            raise serial.SerialException(
                "device reports readiness to read but returned no data "
                "(device disconnected or multiple access on port?)"
            )
        n = size if not self.cap_read else min(size, self.cap_read)
        data = bytes(self.rx[:n])
        del self.rx[:n]
        self.world.log("rx", self.fd, data.hex())
        self.peer.host_read(self, data)
        return data

    def write(self, data):
        data = bytes(data)
        if self.dead:
            return len(data)
        if not self.is_open:
            raise serial.SerialException("Attempting to use a port that is not open")
        if self.broken:
            self.world.fired["write-error"] += 1
            self.world.ports.on_error()
            raise serial.SerialException("write failed: [Errno 5] Input/output error")
        if self.tx_first_try is None:
            self.tx_first_try = self.world.now
        if self.world.now < self.blocked_until:
            self.world.fired["write-would-block"] += 1
            raise BlockingIOError()
        n = len(data)
        if self.short_writes:
            n = max(0, min(n, self.short_writes.pop(0)))
            if n < len(data):
                self.world.fired["short-write"] += 1
        sent = data[:n]
        self.world.log("tx", self.fd, sent.hex())
        self.tx_log.append((self.world.now, sent))
        first = self.tx_first_try
        if n == len(data):
            self.tx_first_try = None
        self.peer.host_wrote(self, sent, first)
        return n

    def flush(self):
        if self.dead:
            return
        if self.broken and self.flush_error:
            self.world.fired["flush-error"] += 1
            raise termios.error(5, "Input/output error")

    def reset_input_buffer(self):
        self.rx.clear()

    def reset_output_buffer(self):
        pass

    flushInput = reset_input_buffer
    flushOutput = reset_output_buffer

    def close(self):
        if self.is_open:
            self.is_open = False
            self.closed_at = self.world.now
            self.loop.files.pop(self.fd, None)
            if not self.dead:
                self.world.log("close", self.fd)
                self.peer.host_closed(self)


class PortInfo:
    """An entry of the machine's list of serial ports."""

    def __init__(self, device, hwid, description="dev"):
        self.device = device
        self.hwid = hwid
        self.description = description
        self.name = device.rsplit("/", 1)[-1]
        self.vid = self.pid = self.serial_number = None
        if "VID:PID=" in hwid:
            ids = hwid.split("VID:PID=")[1][:9].split(":")
            self.vid, self.pid = int(ids[0], 16), int(ids[1], 16)
        self.location = self.manufacturer = self.product = self.interface = None

    def __iter__(self):
        return iter((self.device, self.description, self.hwid))

    def __getitem__(self, i):
        return (self.device, self.description, self.hwid)[i]

    def __str__(self):
        return "{} - {}".format(self.device, self.description)


class Ports:
    """The serial ports of the simulated machine."""

    def __init__(self, world):
        self.on_error = lambda: None      # a read or write has failed
        self.world = world
        world.ports = self
        self.peers = {}           # url -> peer (object with host_* methods)
        self.infos = []           # what list_ports would list
        self.opens = []           # every SimSerial ever opened
        self.attempts = []        # (time, url, ok)
        self.settings = []        # of every attempt
        self.on_open = None
        self.fail_opens = []      # exceptions for the next opens
        self.slow_opens = []      # blocking seconds for the next opens
        self.max_simultaneous = 0
        self.conf = lambda ser: None

    def open_ports(self):
        return [s for s in self.opens if s.is_open and not s.dead]

    def serial_for_url(self, url, *args, **kwargs):
        world = self.world
        peer = self.peers.get(url)
        slow = self.slow_opens or getattr(peer, "slow_opens", None)
        if slow:
            d = slow.pop(0)
            if d:
                world.fired["slow-open"] += 1
                world.stall(d)
        fails = self.fail_opens or getattr(peer, "fail_opens", None)
        exc = fails.pop(0) if fails else None
        if exc is None and (peer is None or not peer.present):
            exc = serial.SerialException(
                2, "could not open port {}: [Errno 2] No such file".format(url)
            )
        settings = dict(kwargs)
        names = ("baudrate", "bytesize", "parity", "stopbits", "timeout", "xonxoff",
                 "rtscts")
        for name, value in zip(names, args):
            settings[name] = value
        self.attempts.append((world.now, url, exc is None))
        self.settings.append(settings)
        if self.on_open is not None:
            self.on_open(url, settings, exc is None)
        world.log("open", url, exc is None)
        if exc is not None:
            world.fired["open-failure"] += 1
            raise exc
        ser = SimSerial(self, url, settings, peer)
        self.conf(ser)
        self.opens.append(ser)
        self.max_simultaneous = max(self.max_simultaneous, len(self.open_ports()))
        peer.host_opened(ser)
        return ser

    def comports(self, include_links=False):
        self.world.log("list-ports", len(self.infos))
        return list(self.infos)


# ---------------------------------------------------------------------------
# patching of the seams
# ---------------------------------------------------------------------------
_ORIG = {}


def install(world):
    """Put the world behind every seam."""
    if not _ORIG:
        _ORIG.update(
            time=_time.time,
            monotonic=_time.monotonic,
            sleep=_time.sleep,
            url=serial.serial_for_url,
            comports=serial.tools.list_ports.comports,
        )
    _time.time = lambda: EPOCH + world.now
    _time.monotonic = lambda: world.now

    def sleep(d):
        world.fired["blocking-sleep"] += 1
        world.stall(d)

    _time.sleep = sleep
    if world.ports is None:
        Ports(world)
    serial.serial_for_url = world.ports.serial_for_url
    serial.tools.list_ports.comports = world.ports.comports


def uninstall():
    if _ORIG:
        _time.time = _ORIG["time"]
        _time.monotonic = _ORIG["monotonic"]
        _time.sleep = _ORIG["sleep"]
        serial.serial_for_url = _ORIG["url"]
        serial.tools.list_ports.comports = _ORIG["comports"]


def teardown(world):
    """Retire every loop of the run, so nothing of it can leak into the next."""
    if world.ports is not None:
        for ser in world.ports.opens:
            ser.dead = True
    world.heap.clear()
    world.max_steps = world.steps + 20_000
    for loop in world.loops:
        world.loop = loop
        for _ in range(4):
            pending = loop.live_tasks()
            if not pending:
                break
            for t in pending:
                t.cancel()
            try:
                async def drain():
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
                asyncio.set_event_loop(loop)
                loop.run_until_complete(asyncio.wait_for(
                    asyncio.gather(*pending, return_exceptions=True), 100))
            except (BaseException,):
                pass
        for t in loop.tasks:
            if t.done() and not t.cancelled():
                t.exception()  # mark as retrieved
            t._log_destroy_pending = False
        loop._ready.clear()
        loop._scheduled.clear()
        loop._readers.clear()
        loop._writers.clear()
        loop.files.clear()
        loop.tasks.clear()
        try:
            loop.close()
        except Exception:
            pass
    asyncio.set_event_loop(None)


class Watchdog:
    """CPU-time guard against code that never returns to the loop."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def fire(signum, frame):
            raise CpuHang("no return to the event loop within %gs of CPU" % self.seconds)

        self.old = signal.signal(signal.SIGVTALRM, fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)


class _Sink(logging.Handler):
    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            pass


_SINK = _Sink()


def logging_mode(debug):
    root = logging.getLogger()
    root.handlers[:] = [_SINK]
    logging.raiseExceptions = False
    root.setLevel(logging.DEBUG if debug else logging.CRITICAL)
    logging.lastResort = None
