"""The host side: sessions of the real code under test inside a World."""
import asyncio
import os
import sys


import zigpy.config  # noqa: E402
import zigpy.exceptions  # noqa: E402
import zigpy.types as zt  # noqa: E402
import zigpy.zdo.types as zdo_t  # noqa: E402
import zigpy.device  # noqa: E402
import zigpy.endpoint  # noqa: E402

import zigpy_cc.api  # noqa: E402
import zigpy_cc.config  # noqa: E402
import zigpy_cc.uart  # noqa: E402
from zigpy_cc.exception import CommandError  # noqa: E402
from zigpy_cc.zigbee.application import ControllerApplication  # noqa: E402
import serial  # noqa: E402

from . import REPO, core, mt  # noqa: E402

assert zigpy_cc.__file__.startswith(REPO), zigpy_cc.__file__


def device_config(path="/dev/null", baudrate=115200, flow=None):
    return zigpy_cc.config.SCHEMA_DEVICE(
        {"path": path, "baudrate": baudrate, "flow_control": flow})


def app_config(path="/dev/null", baudrate=115200, flow=None, nwk=None, database=None):
    cfg = {
        zigpy.config.CONF_DATABASE: database,
        "device": {"path": path, "baudrate": baudrate, "flow_control": flow},
    }
    if nwk:
        cfg[zigpy.config.CONF_NWK] = dict(nwk)
    return ControllerApplication.SCHEMA(cfg)


class Rec:
    """One call of the code under test: when, and how it ended."""

    __slots__ = ("op", "t0", "t1", "res", "exc", "task", "cancelled", "i", "tag", "tag2", "c0", "then")

    def __init__(self, op, t0, i):
        self.op, self.t0, self.i = op, t0, i
        self.t1 = self.res = self.exc = self.task = self.tag = self.tag2 = None
        self.cancelled = None      # when the caller gave up
        self.c0 = None
        self.then = []            # what the caller does right after it

    @property
    def done(self):
        return self.t1 is not None

    @property
    def ok(self):
        return self.done and self.exc is None

    @property
    def timed_out(self):
        return isinstance(self.exc, asyncio.TimeoutError)

    @property
    def zigbee_error(self):
        return isinstance(self.exc, zigpy.exceptions.ZigbeeException)

    @property
    def refused(self):
        return isinstance(self.exc, CommandError)

    def outcome(self):
        if not self.done:
            return "pending"
        if self.exc is None:
            return "ok"
        return type(self.exc).__name__

    def __repr__(self):
        return "<%s %s..%s %s>" % (self.op.get("k"), self.t0, self.t1, self.outcome())


class Host:
    """A host process: one event loop, and the calls made in it."""

    def __init__(self, world):
        self.world = world
        self.recs = []
        self.loop = None

    def boot(self):
        self.loop = self.world.new_loop()
        self.loop.write_first = getattr(self, "write_first", False)
        return self.loop

    def call(self, op, fn):
        """Start an asynchronous call now; returns its record."""
        rec = Rec(op, self.world.now, len(self.recs))
        self.recs.append(rec)
        rec.c0 = len(self.world.trace)
        self.world.log("invoke", rec.i, op.get("k"))

        async def run():
            try:
                rec.res = await fn(rec)
            except (core.HostCrash, core.SimLimit, core.SimQuiescent, core.CpuHang,
                    GeneratorExit):
                raise
            except BaseException as e:  # the outcome of the call, whatever it is
                rec.exc = e
            rec.t1 = self.world.now
            self.world.log("return", rec.i, op.get("k"), rec.outcome())
            for f in rec.then:
                f()

        def ended(task):
            if rec.t1 is None and task.cancelled():     # before its first step
                rec.exc = asyncio.CancelledError()
                rec.t1 = self.world.now
                for f in rec.then:
                    f()

        rec.task = self.loop.create_task(run())
        rec.task.add_done_callback(ended)
        return rec

    def later(self, t, op, fn):
        """Start the call at time t (absolute)."""
        self.world.at(t, lambda: self.loop.call_soon(self.call, op, fn))

    def cancel(self, rec):
        if not rec.done and rec.cancelled is None:
            rec.cancelled = self.world.now
            self.world.fired["cancelled-call"] += 1
            self.world.log("cancel", rec.i)
            rec.task.cancel()

    def run_until(self, t):
        """Let the simulation run to time t. Raises HostCrash if the plan says so."""
        async def idle():
            d = t - self.world.now
            if d > 0:
                await asyncio.sleep(d)
        self.loop.run_until_complete(idle())

    def run_call(self, op, fn, limit=None):
        """Run one call to its end (or to the limit)."""
        rec = self.call(op, fn)

        async def wait():
            if limit is None:
                await asyncio.wait({rec.task})
            else:
                await asyncio.wait({rec.task}, timeout=limit)
        self.loop.run_until_complete(wait())
        return rec


class StubApp:
    """Stands for the application above the API layer."""

    def __init__(self, world):
        self.world = world
        self.objs = []
        self.lost = 0

    def handle_znp(self, obj):
        self.objs.append((self.world.now, obj))

    def connection_lost(self, *a):
        self.lost += 1
        self.world.log("app-lost")


class AppHost(Host):
    """A host process running the whole controller application."""

    def __init__(self, world, config):
        super().__init__(world)
        self.config = config
        self.app = None
        self.messages = []     # (t, device, profile, cluster, src_ep, dst_ep, data)
        self.joins = []        # (t, nwk, ieee)

    def create(self):
        return self.adopt(ControllerApplication(self.config))

    def adopt(self, app):
        """Watch what the driver hands up to the library above it."""
        self.app = app
        real_msg, real_join = app.handle_message, app.handle_join
        world = self.world

        def handle_message(sender, profile, cluster, src_ep, dst_ep, message, *a, **k):
            self.messages.append((world.now, sender, profile, cluster, src_ep, dst_ep,
                                  bytes(message)))
            world.log("message", int(sender.nwk), int(cluster), bytes(message).hex())
            if self.pass_messages:
                return real_msg(sender, profile, cluster, src_ep, dst_ep, message, *a, **k)

        def handle_join(nwk, ieee, parent, *a, **k):
            self.joins.append((world.now, int(nwk), bytes(zt.EUI64(ieee).serialize())))
            world.log("join", int(nwk))
            if self.pass_joins:
                return real_join(nwk, ieee, parent, *a, **k)

        app.handle_message = handle_message
        app.handle_join = handle_join
        return app

    pass_messages = True
    pass_joins = True

    def add_device(self, nwk, ieee, eps=(1,), router=False, initialized=True):
        app = self.app
        dev = app.add_device(zt.EUI64(zt.EUI64.deserialize(ieee)[0]), nwk)
        if initialized:
            dev.status = zigpy.device.Status.ENDPOINTS_INIT
            dev.node_desc = zdo_t.NodeDescriptor(
                1 if router else 2, 0x40, 0x8E if router else 0x80, 0x1234, 82, 82, 0, 82, 0)
            for e in eps:
                ep = dev.add_endpoint(e)
                ep.profile_id = 0x0104
                ep.device_type = 0x0100
                ep.status = zigpy.endpoint.Status.ZDO_INIT
                ep.add_input_cluster(0)
                ep.add_input_cluster(6)
        return dev
