From 7dd371c8a847e0fba272a9cc3f4394e546dd9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 01/24] fix: deliver frames without payload as soon as they are
 complete

---
 zigpy_cc/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index da15a3a..fbb3711 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -37,7 +37,7 @@ class Parser:
     def write(self, b: int):
         self.buffer += bytes([b])
         if SOF == self.buffer[0]:
-            if len(self.buffer) > MinMessageLength:
+            if len(self.buffer) >= MinMessageLength:
                 dataLength = self.buffer[PositionDataLength]
 
                 fcsPosition = DataStart + dataLength
-- 
2.43.0


From a3fe4fa46ea14e884a9b878ec97d956f87350ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 02/24] fix: a frame that cannot be handled no longer discards
 the rest of the read

---
 zigpy_cc/uart.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index fbb3711..e45939e 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -145,11 +145,15 @@ class Gateway(asyncio.Protocol):
 
         found = False
         for b in data:
-            frame = self._parser.write(b)
-            if frame is not None:
-                found = True
-                LOGGER.debug("Frame received: %s", frame)
-                self._api.data_received(frame)
+            try:
+                frame = self._parser.write(b)
+                if frame is not None:
+                    found = True
+                    LOGGER.debug("Frame received: %s", frame)
+                    self._api.data_received(frame)
+            except Exception as e:
+                # a frame we do not understand must not cost us those after it
+                LOGGER.exception("Error while handling received data: %s", e)
 
         if not found:
             LOGGER.info("Bytes received: %s", data)
-- 
2.43.0


From 0d7fdfce5439fea12509531ccca2d121e5d4e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 03/24] fix: the response to a cancelled command is not taken
 for that of the next one

---
 zigpy_cc/api.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index e0944e3..4619a5e 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -137,8 +137,16 @@ class API:
             waiter = self.wait_for(
                 CommandType.SRSP, obj.subsystem, obj.command, {}, timeout
             )
-            self._uart.send(frame)
-            result = await waiter.wait()
+            try:
+                self._uart.send(frame)
+                result = await waiter.wait()
+            except asyncio.CancelledError:
+                # the waiter stays: it takes the response that is still to come,
+                # which must not be taken for the response to the next command
+                raise
+            except Exception:
+                self._waiters.pop(waiter.id, None)
+                raise
             if (
                 result
                 and "status" in result.payload
@@ -245,6 +253,9 @@ class API:
                 if waiter.sequence:
                     obj.sequence = waiter.sequence
                     break
+                if obj.command_type == CommandType.SRSP:
+                    # a response belongs to one command only
+                    break
 
         LOGGER.debug("<-- %s", obj)
 
-- 
2.43.0


From f76ac544092dfde4df0635c4e01fd899c715e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:55 +0000
Subject: [PATCH 04/24] fix: a command while not connected fails with a
 delivery error

---
 zigpy_cc/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 4619a5e..e469fea 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -124,6 +124,9 @@ class API:
         if expected_status is None:
             expected_status = [0]
 
+        if self._uart is None:
+            raise zigpy.exceptions.DeliveryError("Not connected to the adapter")
+
         LOGGER.debug("--> %s", obj)
         frame = obj.to_unpi_frame()
 
-- 
2.43.0


From e262307326cb629f60e77431225146abfb6ccc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 05/24] fix: replies to requests with transaction number 0 are
 handed up

---
 zigpy_cc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index e469fea..e818c15 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -253,7 +253,7 @@ class API:
             if waiter.match(obj):
                 self._waiters.pop(waiter_id)
                 waiter.set_result(obj)
-                if waiter.sequence:
+                if waiter.sequence is not None:
                     obj.sequence = waiter.sequence
                     break
                 if obj.command_type == CommandType.SRSP:
-- 
2.43.0


From 59b80a710361da195956df2ac9aafdb73f75b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 06/24] fix: replies to unbind and leave requests are handed up

---
 zigpy_cc/zigbee/application.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index d001efe..7a12cc9 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -38,6 +38,8 @@ REQUESTS = {
     "activeEpRsp": (ZDOCmd.Active_EP_rsp, 2),
     "simpleDescRsp": (ZDOCmd.Simple_Desc_rsp, 2),
     "bindRsp": (ZDOCmd.Bind_rsp, 2),
+    "unbindRsp": (ZDOCmd.Unbind_rsp, 2),
+    "mgmtLeaveRsp": (ZDOCmd.Mgmt_Leave_rsp, 2),
 }
 
 IGNORED = (
-- 
2.43.0


From e6038e4bd70964dedb8dc391fcf4d5151856379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:42 +0000
Subject: [PATCH 07/24] fix: a request that was not transmitted never takes the
 reply to another one

---
 zigpy_cc/api.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index e818c15..561a659 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -117,8 +117,24 @@ class API:
         return await self.request_raw(obj, waiter_id, expected_status)
 
     async def request_raw(self, obj: ZpiObject, waiter_id=None, expected_status=None):
-        async with self._lock:
-            return await self._request_raw(obj, waiter_id, expected_status)
+        sent = False
+        try:
+            async with self._lock:
+                sent = True
+                return await self._request_raw(obj, waiter_id, expected_status)
+        except asyncio.CancelledError:
+            if not sent:
+                self._drop_waiter(waiter_id)
+            raise
+        except Exception:
+            # no reply will come: the waiter must not take that of another request
+            self._drop_waiter(waiter_id)
+            raise
+
+    def _drop_waiter(self, waiter_id):
+        waiter = self._waiters.pop(waiter_id, None)
+        if waiter is not None:
+            waiter.set_result(None)
 
     async def _request_raw(self, obj: ZpiObject, waiter_id=None, expected_status=None):
         if expected_status is None:
@@ -155,9 +171,6 @@ class API:
                 and "status" in result.payload
                 and result.payload["status"] not in expected_status
             ):
-                if waiter_id is not None:
-                    self._waiters.pop(waiter_id).set_result(result)
-
                 raise CommandError(
                     result.payload["status"],
                     "SREQ '{}' failed with status '{}' (expected '{}')".format(
-- 
2.43.0


From 71851444033b7936ff92e20c82d6274367b9b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 08/24] fix: reply waiters are created in the order of
 transmission, not while queued

---
 zigpy_cc/zigbee/application.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 7a12cc9..fac63fe 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -190,12 +190,12 @@ class ControllerApplication(zigpy.application.ControllerApplication):
                 data,
                 addr_mode=AddressMode.ADDR_GROUP,
             )
-            waiter_id = None
-            waiter = self._api.create_response_waiter(obj, sequence)
-            if waiter:
-                waiter_id = waiter.id
-
             async with self._semaphore:
+                waiter_id = None
+                waiter = self._api.create_response_waiter(obj, sequence)
+                if waiter:
+                    waiter_id = waiter.id
+
                 await self._api.request_raw(obj, waiter_id)
                 """
                 As a group command is not confirmed and thus immediately returns
@@ -241,13 +241,13 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             obj = ZpiObject.from_cluster(
                 device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
             )
-            waiter_id = None
-            if expect_reply:
-                waiter = self._api.create_response_waiter(obj, sequence)
-                if waiter:
-                    waiter_id = waiter.id
-
             async with self._semaphore:
+                waiter_id = None
+                if expect_reply:
+                    waiter = self._api.create_response_waiter(obj, sequence)
+                    if waiter:
+                        waiter_id = waiter.id
+
                 await self._api.request_raw(obj, waiter_id)
 
         except CommandError as ex:
-- 
2.43.0


From 53d8e31c540d8506cd77155835fd57e730ac2550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:46 +0000
Subject: [PATCH 09/24] fix: the time allowed for a reply starts when the
 request is sent

---
 zigpy_cc/api.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 561a659..cc7a61b 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -121,6 +121,9 @@ class API:
         try:
             async with self._lock:
                 sent = True
+                if waiter_id in self._waiters:
+                    # the time allowed for the reply starts only now
+                    self._start_timer(self._waiters[waiter_id])
                 return await self._request_raw(obj, waiter_id, expected_status)
         except asyncio.CancelledError:
             if not sent:
@@ -201,7 +204,9 @@ class API:
             payload = {
                 "transid": obj.payload["transid"],
             }
-            return self.wait_for(CommandType.AREQ, Subsystem.AF, "dataConfirm", payload)
+            return self.wait_for(
+                CommandType.AREQ, Subsystem.AF, "dataConfirm", payload, start=False
+            )
 
         if obj.command_type == CommandType.SREQ and obj.command.endswith("Req"):
             rsp = obj.command.replace("Req", "Rsp")
@@ -209,7 +214,12 @@ class API:
                 if rsp == cmd["name"]:
                     payload = {"srcaddr": obj.payload["dstaddr"]}
                     return self.wait_for(
-                        CommandType.AREQ, Subsystem.ZDO, rsp, payload, sequence=sequence
+                        CommandType.AREQ,
+                        Subsystem.ZDO,
+                        rsp,
+                        payload,
+                        sequence=sequence,
+                        start=False,
                     )
 
         LOGGER.warning("no response cmd configured for %s", obj.command)
@@ -223,6 +233,7 @@ class API:
         payload=None,
         timeout=Timeouts.default,
         sequence=None,
+        start=True,
     ):
         waiter = Waiter(
             self._waiter_id,
@@ -235,24 +246,27 @@ class API:
         )
         self._waiters[waiter.id] = waiter
         self._waiter_id += 1
+        if start:
+            self._start_timer(waiter)
+
+        return waiter
 
+    def _start_timer(self, waiter: Waiter):
         def callback():
             if not waiter.future.done() or waiter.future.cancelled():
                 LOGGER.warning(
                     "No response for: %s %s %s %s",
-                    command_type.name,
-                    subsystem.name,
-                    command,
-                    payload,
+                    waiter.matcher.command_type.name,
+                    waiter.matcher.subsystem.name,
+                    waiter.matcher.command,
+                    waiter.matcher.payload,
                 )
                 try:
                     self._waiters.pop(waiter.id)
                 except KeyError:
                     LOGGER.warning("Waiter not found: %s", waiter)
 
-        asyncio.get_event_loop().call_later(timeout / 1000 + 0.1, callback)
-
-        return waiter
+        asyncio.get_event_loop().call_later(waiter.timeout / 1000 + 0.1, callback)
 
     def data_received(self, frame):
         try:
-- 
2.43.0


From d38c8669aa181ed4edc2ef2988291e205563f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 10/24] fix: a connection lost before the application is set
 does not raise

---
 zigpy_cc/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index cc7a61b..1a064b6 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -108,7 +108,8 @@ class API:
             self._uart = None
 
     def connection_lost(self):
-        self._app.connection_lost()
+        if self._app is not None:
+            self._app.connection_lost()
 
     async def request(
         self, subsystem, command, payload, waiter_id=None, expected_status=None
-- 
2.43.0


From 64c00e559cd17fe6481b50dac6343ca62b470e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 11/24] fix: a connection attempt that fails or is cancelled
 closes the port

---
 zigpy_cc/uart.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index e45939e..785ec16 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -197,7 +197,7 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         xonxoff, rtscts = True, False
 
     LOGGER.debug("Connecting on port %s with boudrate %d", port, baudrate)
-    _, protocol = await serial_asyncio.create_serial_connection(
+    transport, protocol = await serial_asyncio.create_serial_connection(
         loop,
         lambda: protocol,
         url=port,
@@ -208,9 +208,14 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         rtscts=rtscts,
     )
 
-    await connected_future
+    try:
+        await connected_future
 
-    protocol.write(b"\xef")
-    await asyncio.sleep(1)
+        protocol.write(b"\xef")
+        await asyncio.sleep(1)
+    except BaseException:
+        # nobody else could close it
+        transport.close()
+        raise
 
     return protocol
-- 
2.43.0


From 8a565f25d03e01778c21d4f74a7103f9fed15294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 12/24] fix: only one recovery of a lost connection is in
 progress

---
 zigpy_cc/zigbee/application.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index fac63fe..867a0a6 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -64,6 +64,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
     def __init__(self, config: Dict[str, Any]):
         super().__init__(config=zigpy.config.ZIGPY_SCHEMA(config))
         self._api = None
+        self._reconnect_task = None
 
         self.discovering = False
         self.version = {}
@@ -73,10 +74,14 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         self._api.close()
 
     def connection_lost(self):
-        asyncio.create_task(self.reconnect())
+        if self._reconnect_task is not None:
+            self._reconnect_task.cancel()
+        self._reconnect_task = asyncio.create_task(self.reconnect())
 
     async def reconnect(self):
-        while True:
+        task = self._reconnect_task
+        # wait_for() may swallow the cancellation of a recovery given up
+        while self._reconnect_task is task:
             if self._api is not None:
                 self._api.close()
             await asyncio.sleep(5)
-- 
2.43.0


From 4e0a338f7cbcf41058f62d3dc525e93db29744f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:52 +0000
Subject: [PATCH 13/24] fix: shutdown ends a recovery in progress and works at
 any moment

---
 zigpy_cc/zigbee/application.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 867a0a6..cd0650b 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -71,7 +71,11 @@ class ControllerApplication(zigpy.application.ControllerApplication):
 
     async def shutdown(self):
         """Shutdown application."""
-        self._api.close()
+        if self._reconnect_task is not None:
+            self._reconnect_task.cancel()
+            self._reconnect_task = None
+        if self._api is not None:
+            self._api.close()
 
     def connection_lost(self):
         if self._reconnect_task is not None:
-- 
2.43.0


From 809bba1a793aef4b242c2b2852eeef479e9fc092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 14/24] fix: a configured PAN id of 0 is used

---
 zigpy_cc/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/types.py b/zigpy_cc/types.py
index c3b56c8..1dc1940 100644
--- a/zigpy_cc/types.py
+++ b/zigpy_cc/types.py
@@ -109,7 +109,9 @@ class NetworkOptions(Repr):
         self.networkKey = config[zigpy.config.CONF_NWK_KEY] or (
             zigpy.config.cv_key([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])
         )
-        self.panID = config[zigpy.config.CONF_NWK_PAN_ID] or t.PanId(0x1A62)
+        self.panID = config[zigpy.config.CONF_NWK_PAN_ID]
+        if self.panID is None:
+            self.panID = t.PanId(0x1A62)
         self.extendedPanID = config[zigpy.config.CONF_NWK_EXTENDED_PAN_ID] or (
             t.ExtendedPanId([0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD])
         )
-- 
2.43.0


From 6be8ba52f732848c2739c852d9f64b32e25acf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:18 +0000
Subject: [PATCH 15/24] fix: endpoint list of another device is not taken for
 the adapter's own

---
 zigpy_cc/zigbee/start_znp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index d0d7114..dd32938 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -150,7 +150,9 @@ async def boot(znp: API):
 async def registerEndpoints(znp: API):
     LOGGER.debug("Register endpoints...")
 
-    active_ep_response = znp.wait_for(CommandType.AREQ, Subsystem.ZDO, "activeEpRsp")
+    active_ep_response = znp.wait_for(
+        CommandType.AREQ, Subsystem.ZDO, "activeEpRsp", {"srcaddr": 0}
+    )
     asyncio.create_task(
         znp.request(
             Subsystem.ZDO, "activeEpReq", {"dstaddr": 0, "nwkaddrofinterest": 0}
-- 
2.43.0


From 049992d88b0b009852ea09c24302905d6f1145e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 16/24] fix: a different PAN id or extended PAN id on Z-Stack
 1.2 is not ignored

---
 zigpy_cc/zigbee/start_znp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index dd32938..12950b8 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -123,6 +123,8 @@ async def needsToBeInitialised(znp: API, version, options):
                     LOGGER.debug("Skip enforcing panID because a random panID is used")
                 else:
                     raise e
+            else:
+                raise e
 
         return False
     except AssertionError as e:
-- 
2.43.0


From 3180de0cbb6c52ae9d4d25fb1a9cc68ecfec91a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:24 +0000
Subject: [PATCH 17/24] fix: messages of every application profile are sent as
 such

Only the Home Automation profile was; a message of any other profile (0xC05E,
0xA1E0, ...) was taken for a management request with the number of its cluster.
---
 zigpy_cc/zpi_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index d69c6a6..fed9157 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -1,4 +1,3 @@
-from zigpy.profiles import zha
 from zigpy.types import BroadcastAddress
 
 from zigpy_cc import uart
@@ -6,6 +5,8 @@ from zigpy_cc.buffalo import Buffalo, BuffaloOptions
 from zigpy_cc.definition import Definition
 from zigpy_cc.types import CommandType, ParameterType, Subsystem, AddressMode
 
+ZDO_PROFILE_ID = 0x0000
+
 BufferAndListTypes = [
     ParameterType.BUFFER,
     ParameterType.BUFFER8,
@@ -103,7 +104,7 @@ class ZpiObject:
         radius=30,
         addr_mode=None
     ):
-        if profile == zha.PROFILE_ID:
+        if profile != ZDO_PROFILE_ID:
             subsystem = Subsystem.AF
             if addr_mode is None:
                 cmd = next(c for c in Definition[subsystem] if c["ID"] == 1)
-- 
2.43.0


From 1054a0eab11ed3e761427b6f1f7e7ddcd17dc266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 18/24] fix: the number of hops given for a group message is
 used

mrequest() documents that the message is delivered within this number of hops,
but every group message was sent with the default radius.
---
 zigpy_cc/zigbee/application.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index cd0650b..74297cc 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -24,6 +24,7 @@ LOGGER = logging.getLogger(__name__)
 
 CHANGE_NETWORK_WAIT = 1
 SEND_CONFIRM_TIMEOUT = 60
+MAX_HOPS = 30
 PROTO_VER_WATCHDOG = 0x0108
 
 REQUESTS = {
@@ -197,6 +198,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
                 0xFF,
                 sequence,
                 data,
+                radius=hops or MAX_HOPS,
                 addr_mode=AddressMode.ADDR_GROUP,
             )
             async with self._semaphore:
-- 
2.43.0


From bc19cde5b97789fa6b848d41809b6936eafb6a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 19/24] fix: the limit of concurrent sends holds across a
 reconnection

Every reconnection replaced the semaphore, so sends waiting on the old one and
those waiting on the new one were let through side by side.
---
 zigpy_cc/zigbee/application.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 74297cc..1b5aecf 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -66,6 +66,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         super().__init__(config=zigpy.config.ZIGPY_SCHEMA(config))
         self._api = None
         self._reconnect_task = None
+        self._concurrent = None
 
         self.discovering = False
         self.version = {}
@@ -113,7 +114,10 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         concurrent = 16 if self.version["product"] == ZnpVersion.zStack3x0 else 2
         LOGGER.debug("Adapter concurrent: %d", concurrent)
 
-        self._semaphore = asyncio.Semaphore(concurrent)
+        if concurrent != self._concurrent:
+            # kept otherwise: sends waiting from before a reconnection count as well
+            self._concurrent = concurrent
+            self._semaphore = asyncio.Semaphore(concurrent)
 
         ver = ZnpVersion(self.version["product"]).name
         LOGGER.info("Detected znp version '%s' (%s)", ver, self.version)
-- 
2.43.0


From 3f16c404886d5e05a910b2f290122354c01dee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:09 +0000
Subject: [PATCH 20/24] fix: a send cancelled just when its turn comes does not
 block all later sends

---
 zigpy_cc/zigbee/application.py | 41 +++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 1b5aecf..2320980 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -1,4 +1,5 @@
 import asyncio
+import collections
 import logging
 from asyncio.locks import Semaphore
 from typing import Any, Dict, Optional
@@ -54,6 +55,44 @@ IGNORED = (
 )
 
 
+class SendSemaphore(Semaphore):
+    """A semaphore which hands a released slot directly to the longest waiting task.
+
+    asyncio.Semaphore of Python 3.9 blocks forever once a waiter is cancelled right
+    after it has been woken up.
+    """
+
+    def __init__(self, value: int):
+        super().__init__(value)
+        self._queue = collections.deque()
+
+    async def acquire(self):
+        if self._value > 0:
+            self._value -= 1
+            return True
+
+        fut = asyncio.get_event_loop().create_future()
+        self._queue.append(fut)
+        try:
+            await fut
+        except asyncio.CancelledError:
+            if fut.cancelled():
+                self._queue.remove(fut)
+            else:
+                # the slot was already handed to this task
+                self.release()
+            raise
+        return True
+
+    def release(self):
+        for fut in self._queue:
+            if not fut.done():
+                self._queue.remove(fut)
+                fut.set_result(True)
+                return
+        self._value += 1
+
+
 class ControllerApplication(zigpy.application.ControllerApplication):
     _semaphore: Semaphore
     _api: Optional[API]
@@ -117,7 +156,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         if concurrent != self._concurrent:
             # kept otherwise: sends waiting from before a reconnection count as well
             self._concurrent = concurrent
-            self._semaphore = asyncio.Semaphore(concurrent)
+            self._semaphore = SendSemaphore(concurrent)
 
         ver = ZnpVersion(self.version["product"]).name
         LOGGER.info("Detected znp version '%s' (%s)", ver, self.version)
-- 
2.43.0


From 739b4b8220d40829cb589bb3ab86cff139c6afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 21/24] fix: messages reported in the extended format are
 attributed to their sender

---
 zigpy_cc/zigbee/application.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 2320980..6878e06 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -384,6 +384,12 @@ class ControllerApplication(zigpy.application.ControllerApplication):
 
         nwk = obj.payload["srcaddr"] if "srcaddr" in obj.payload else None
         ieee = obj.payload["ieeeaddr"] if "ieeeaddr" in obj.payload else None
+        if obj.subsystem == t.Subsystem.AF and obj.command == "incomingMsgExt":
+            # the sender is given by its extended or by its network address
+            if obj.payload["srcaddrmode"] == AddressMode.ADDR_64BIT:
+                nwk, ieee = None, obj.payload["srcaddr"]
+            else:
+                nwk = zigpy.types.NWK.deserialize(obj.payload["srcaddr"].serialize())[0]
         profile_id = zha.PROFILE_ID
         src_ep = 0
         dst_ep = 0
-- 
2.43.0


From c9dcce10ec321106de52c62022eb81e24563abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 22/24] fix: the light is not left on when joining is closed

---
 zigpy_cc/zigbee/application.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 6878e06..e669c36 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -106,6 +106,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         self._api = None
         self._reconnect_task = None
         self._concurrent = None
+        self._permit_time = 0
 
         self.discovering = False
         self.version = {}
@@ -365,8 +366,13 @@ class ControllerApplication(zigpy.application.ControllerApplication):
 
         return 0, "broadcast send success"
 
+    async def permit(self, time_s=60, node=None):
+        self._permit_time = time_s
+        return await super().permit(time_s, node)
+
     async def permit_ncp(self, time_s=60):
         assert 0 <= time_s <= 254
+        self._permit_time = time_s
         payload = {
             "addrmode": AddressMode.ADDR_BROADCAST,
             "dstaddr": BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR,
@@ -406,7 +412,9 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             return
 
         if obj.subsystem == t.Subsystem.ZDO and obj.command == "mgmtPermitJoinRsp":
-            self.set_led(LedMode.On)
+            # also comes from other routers, when refused and when joining is closed
+            if nwk == 0 and obj.payload["status"] == 0 and self._permit_time:
+                self.set_led(LedMode.On)
 
         if obj.subsystem == t.Subsystem.ZDO and obj.command == "permitJoinInd":
             self.set_led(LedMode.Off if obj.payload["duration"] == 0 else LedMode.On)
-- 
2.43.0


From 993e9e3d6c0e86ccdde0c76be9c429e8c38fe430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 23/24] fix: probing a port does not raise OSError or
 termios.error

---
 zigpy_cc/api.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 1a064b6..116e99f 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -2,7 +2,6 @@ import asyncio
 import logging
 from typing import Any, Dict, Optional
 
-import serial
 import zigpy.exceptions
 
 from zigpy_cc import uart
@@ -320,11 +319,10 @@ class API:
         try:
             await asyncio.wait_for(api._probe(), timeout=COMMAND_TIMEOUT)
             return True
-        except (
-            asyncio.TimeoutError,
-            serial.SerialException,
-            zigpy.exceptions.ZigbeeException,
-        ) as exc:
+        except asyncio.CancelledError:
+            raise
+        except Exception as exc:
+            # opening a port may also fail with OSError or termios.error
             LOGGER.debug(
                 "Unsuccessful radio probe of '%s' port",
                 device_config[CONF_DEVICE_PATH],
-- 
2.43.0


From 42db3c554023fd8e34d23b6dd3a6af819cf4c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 24/24] fix: connecting can be cancelled before the connection
 is made

---
 zigpy_cc/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index 785ec16..a6507fe 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -124,7 +124,7 @@ class Gateway(asyncio.Protocol):
         LOGGER.debug("Connection made")
         self._open = True
         self._transport = transport
-        if self._connected_future:
+        if self._connected_future and not self._connected_future.done():
             self._connected_future.set_result(True)
 
     def close(self):
-- 
2.43.0

