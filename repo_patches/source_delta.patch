From 19f0f23eadc1ca240721b2217785d30a4e15f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:25 +0000
Subject: [PATCH 01/57] fix: stop serving a connection after failed
 authentication

authenticate() wrote ERR and returned, after which the connection went on to
session.init and the command phase (handshake) or kept serving commands under
the previous identity (COM_CHANGE_USER).
---
 mysql_mimic/connection.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 5160192..c4d40cd 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -71,6 +71,10 @@ class Connection:
         self.prepared_stmt_seq = seq(self._MAX_PREPARED_STMT_ID)
         self.prepared_stmts: Dict[int, PreparedStatement] = {}
 
+        # Outcome of the latest authentication exchange.
+        # Commands are only served while this is true.
+        self._authenticated = False
+
         self.connection_id: int = 0
         self._kill: Optional[KillKind] = None
         self._task: Optional[asyncio.Task] = None
@@ -95,6 +99,8 @@ class Connection:
         logger.info("Started new connection: %s", self.connection_id)
         try:
             await self.connection_phase()
+            if not self._authenticated:
+                return
             await self.session.init(self)
         except Exception as e:
             await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
@@ -193,6 +199,8 @@ class Connection:
             client_plugin_name=com_change_user.client_plugin,
             connect_attrs=com_change_user.connect_attrs,
         )
+        if not self._authenticated:
+            return
 
         await self.session.reset()
 
@@ -205,6 +213,7 @@ class Connection:
         auth_state: Optional[AuthState] = None,
         server_plugin: Optional[AuthPlugin] = None,
     ) -> None:
+        self._authenticated = False
         user = await self.identity_provider.get_user(username)
 
         if not user:
@@ -271,6 +280,7 @@ class Connection:
 
         if isinstance(decision, Success):
             self.session.username = decision.authenticated_as
+            self._authenticated = True
             await self.stream.write(self.ok())
         else:
             logger.info(
@@ -287,7 +297,8 @@ class Connection:
 
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
-        while True:
+        # A failed COM_CHANGE_USER ends the connection
+        while self._authenticated:
             try:
                 data = await self.stream.read()
             except ConnectionClosed:
-- 
2.43.0


From d84ad17c05082317e423129d17958280cb2e5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:59 +0000
Subject: [PATCH 02/57] fix: reject truncated and unterminated strings in
 packets

read_str_null() looped forever at the end of the packet, blocking the event
loop; fixed and length-encoded strings shorter than announced were accepted.
---
 mysql_mimic/types.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index 81b2e67..f2c4169 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -4,6 +4,8 @@ import struct
 
 from enum import IntEnum, IntFlag, auto
 
+from mysql_mimic.errors import ErrorCode, MysqlError
+
 
 class ColumnType(IntEnum):
     DECIMAL = 0x00
@@ -308,7 +310,10 @@ def read_uint_len(reader: io.BytesIO) -> int:
 
 
 def read_str_fixed(reader: io.BytesIO, l: int) -> bytes:
-    return reader.read(l)
+    data = reader.read(l)
+    if len(data) < l:
+        raise MysqlError("Truncated string", ErrorCode.MALFORMED_PACKET)
+    return data
 
 
 def read_str_null(reader: io.BytesIO) -> bytes:
@@ -317,6 +322,8 @@ def read_str_null(reader: io.BytesIO) -> bytes:
         b = reader.read(1)
         if b == b"\x00":
             return data
+        if not b:
+            raise MysqlError("Missing string terminator", ErrorCode.MALFORMED_PACKET)
         data += b
 
 
-- 
2.43.0


From 2aa5fe9eedca0fa1a32d8e1530347846ab9f8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 03/57] fix: send each COM_FIELD_LIST column definition in its
 own packet

---
 mysql_mimic/connection.py | 25 ++++++++++++-------------
 mysql_mimic/packets.py    |  3 +--
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index c4d40cd..be18d03 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -404,19 +404,18 @@ class Connection:
         com_field_list = parse_com_field_list(self.client_charset, data)
         sql = com_field_list_to_show_statement(com_field_list)
         result = await self.query(sql=sql, query_attrs={})
-        columns = b"".join(
-            [
-                make_column_definition_41(
-                    server_charset=self.server_charset,
-                    table=com_field_list.table,
-                    name=row[0],
-                    is_com_field_list=True,
-                    default=row[4],
-                )
-                async for row in aiterate(result.rows)
-            ]
-        )
-        await self.stream.write(columns)
+        columns = [
+            make_column_definition_41(
+                server_charset=self.server_charset,
+                table=com_field_list.table,
+                name=row[0],
+                is_com_field_list=True,
+                default=row[4],
+            )
+            async for row in aiterate(result.rows)
+        ]
+        for column in columns:
+            await self.stream.write(column, drain=False)
         await self.stream.write(self.ok_or_eof())
 
     async def handle_query(self, data: bytes) -> None:
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 19604d0..fe1b1d6 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -377,8 +377,7 @@ def make_column_definition_41(
         if default is None:
             parts.append(uint_len(0))
         else:
-            default_values = server_charset.encode(default)
-            parts.extend([uint_len(len(default_values)), str_len(default_values)])
+            parts.append(str_len(server_charset.encode(default)))
     return _concat(*parts)
 
 
-- 
2.43.0


From cac4cd87dc7471ac44a5e61c0c0108253758ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 04/57] fix: omit the EOF after prepare parameters when the
 client deprecated it

---
 mysql_mimic/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index be18d03..3dc6d11 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -670,4 +670,5 @@ class Connection:
                 yield packets.make_column_definition_41(
                     server_charset=self.server_charset, name="?"
                 )
-            yield self.eof()
+            if not self.deprecate_eof():
+                yield self.eof()
-- 
2.43.0


From ed636de104698487ccf3e18092bf195736ed0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 05/57] fix: accept any async iterable as row source

---
 mysql_mimic/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index e1444af..676f045 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import asyncio
-import inspect
 import sys
 from collections.abc import Iterator
 import random
@@ -103,7 +102,7 @@ def dict_depth(d: dict) -> int:
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
     """Iterate either an async iterable or a regular iterable"""
-    if inspect.isasyncgen(iterable):
+    if isinstance(iterable, AsyncIterable):
         async for item in iterable:
             yield item
     else:
-- 
2.43.0


From b353461fa36cbcb0d508914898772f4cd8c32226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 06/57] fix: never answer COM_STMT_SEND_LONG_DATA for an
 unknown statement

---
 mysql_mimic/connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 3dc6d11..e4fd391 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -470,7 +470,10 @@ class Connection:
         COM_STMT_SEND_LONG_DATA sends the data for a column.
         """
         com_stmt_send_long_data = packets.parse_com_stmt_send_long_data(data)
-        stmt = self.get_stmt(com_stmt_send_long_data.stmt_id)
+        stmt = self.prepared_stmts.get(com_stmt_send_long_data.stmt_id)
+        if stmt is None:
+            # This command never has a response, not even an error
+            return
         if stmt.param_buffers is None:
             stmt.param_buffers = {}
         buffer = stmt.param_buffers.setdefault(
-- 
2.43.0


From 78790ea9f89442bc0919265d81517a40cfb7990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 07/57] fix: reset the session before answering COM_CHANGE_USER
 with OK

---
 mysql_mimic/connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index e4fd391..4767e76 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -173,6 +173,8 @@ class Connection:
             auth_response=response.auth_response,
             connect_attrs=response.connect_attrs,
         )
+        if self._authenticated:
+            await self.stream.write(self.ok())
         self.stream.reset_seq()
 
     async def handle_change_user(self, data: bytes) -> None:
@@ -203,6 +205,7 @@ class Connection:
             return
 
         await self.session.reset()
+        await self.stream.write(self.ok())
 
     async def authenticate(
         self,
@@ -281,7 +284,6 @@ class Connection:
         if isinstance(decision, Success):
             self.session.username = decision.authenticated_as
             self._authenticated = True
-            await self.stream.write(self.ok())
         else:
             logger.info(
                 "Access denied for user '%s' with plugin '%s'",
-- 
2.43.0


From 7671e799ba1c29dd4fa88fd0ce094cfaebaa9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 08/57] fix: announce metadata in prepared results when
 OPTIONAL_RESULTSET_METADATA is negotiated

---
 mysql_mimic/connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 4767e76..bba40b0 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -506,7 +506,11 @@ class Connection:
             await self.stream.write(self.ok())
             return
 
-        await self.stream.write(types.uint_len(len(result_set.columns)))
+        await self.stream.write(
+            packets.make_column_count(
+                capabilities=self.capabilities, column_count=len(result_set.columns)
+            )
+        )
 
         for column in result_set.columns:
             await self.stream.write(
-- 
2.43.0


From 4a2ac3050270d082948100b2867db9ee6314960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 09/57] fix: deliver every cursor row exactly once and drop
 stale cursors

---
 mysql_mimic/connection.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index bba40b0..f293115 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -497,6 +497,7 @@ class Connection:
         )
 
         com_stmt_execute.stmt.param_buffers = None
+        com_stmt_execute.stmt.cursor = None
 
         result_set = await self.query(
             com_stmt_execute.sql, com_stmt_execute.query_attrs
@@ -549,15 +550,27 @@ class Connection:
         com_stmt_fetch = packets.parse_handle_stmt_fetch(data)
 
         stmt = self.get_stmt(com_stmt_fetch.stmt_id)
-        assert stmt.cursor is not None
+        cursor = stmt.cursor
+        if cursor is None:
+            raise MysqlError(
+                f"Statement has no open cursor: {stmt.stmt_id}",
+                ErrorCode.UNKNOWN_PROCEDURE,
+            )
         count = 0
 
-        async for packet in cooperative_iterate(stmt.cursor):
-            if count >= com_stmt_fetch.num_rows:
-                break
-            await self.stream.write(packet, drain=False)
-            count += 1
-        await self.stream.drain()
+        try:
+            if com_stmt_fetch.num_rows > 0:
+                async for packet in cursor:
+                    await self.stream.write(packet, drain=False)
+                    count += 1
+                    # Never pull a row that isn't sent
+                    if count >= com_stmt_fetch.num_rows:
+                        break
+            await self.stream.drain()
+        except BaseException:
+            # The position of the cursor is unknown, it can't be used anymore
+            stmt.cursor = None
+            raise
 
         done = count < com_stmt_fetch.num_rows
 
-- 
2.43.0


From 3cf3104ea4729f77f51a9cbc4a488c12387679f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 10/57] fix: don't let the send buffer change under the
 transport nor split a payload

The transport keeps a reference to what the socket doesn't accept, so clearing
the shared bytearray corrupted or lost data under back-pressure. Draining in
the middle of a multi-packet payload let a cancellation truncate it.
---
 mysql_mimic/stream.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index ed8c280..3ba97b7 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -62,17 +62,25 @@ class MysqlStream:
             packet = payload_length + sequence_id + payload
 
             self._buffer.extend(packet)
-            if drain or len(self._buffer) >= self._buffer_size:
-                await self.drain()
 
             # We are done unless len(send) == 0xFFFFFF
             if len(payload) != 0xFFFFFF:
-                return
+                break
 
-    async def drain(self) -> None:
+        # Only hand over whole payloads: we could be cancelled while draining
+        if drain or len(self._buffer) >= self._buffer_size:
+            await self.drain()
+
+    def flush(self) -> None:
+        """Hand everything that's buffered over to the transport, without waiting"""
         if self._buffer:
-            self.writer.write(self._buffer)
+            # The transport keeps a reference to what it can't send right away
+            data = bytes(self._buffer)
             self._buffer.clear()
+            self.writer.write(data)
+
+    async def drain(self) -> None:
+        self.flush()
         await self.writer.drain()
 
     def reset_seq(self) -> None:
-- 
2.43.0


From a80df95b83a9030212aaecfbc79c43fd3c9036c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 11/57] fix: read packet headers that arrive in pieces

---
 mysql_mimic/stream.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 3ba97b7..590f37d 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -27,10 +27,7 @@ class MysqlStream:
     async def read(self) -> bytes:
         data = b""
         while True:
-            header = await self.reader.read(4)
-
-            if not header:
-                raise ConnectionClosed()
+            header = await self._readexactly(4)
 
             i = struct.unpack("<I", header)[0]
             payload_length = i & 0x00FFFFFF
@@ -46,11 +43,20 @@ class MysqlStream:
             if payload_length == 0:
                 return data
 
-            data += await self.reader.readexactly(payload_length)
+            data += await self._readexactly(payload_length)
 
             if payload_length < 0xFFFFFF:
                 return data
 
+    async def _readexactly(self, n: int) -> bytes:
+        try:
+            data = await self.reader.readexactly(n)
+        except asyncio.IncompleteReadError as e:
+            raise ConnectionClosed() from e
+        if len(data) < n:
+            raise ConnectionClosed()
+        return data
+
     async def write(self, data: bytes, drain: bool = True) -> None:
         while True:
             # Grab first 0xFFFFFF bytes to send
-- 
2.43.0


From 21c73e34609e6eb059bcd7bec8ae155c0292a689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 12/57] fix: don't lose TLS handshake bytes read along with the
 SSL request

---
 mysql_mimic/stream.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 590f37d..662e7ed 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -96,6 +96,16 @@ class MysqlStream:
         transport = self.writer.transport
         protocol = transport.get_protocol()
         loop = asyncio.get_event_loop()
+
+        # The first bytes of the TLS handshake may have been read along with the SSL request
+        buffer = self.reader._buffer  # type: ignore # pylint: disable=protected-access
+        pending = bytes(buffer)
+        buffer.clear()
+
+        if pending:
+            # Runs right after the TLS protocol is connected, before anything else is read
+            loop.call_soon(loop.call_soon, self._feed_tls, transport, pending)
+
         new_transport = await loop.start_tls(
             transport=transport,
             protocol=protocol,
@@ -106,3 +116,16 @@ class MysqlStream:
         # This seems to be the easiest way to wrap the socket created by asyncio
         self.writer._transport = new_transport  # type: ignore # pylint: disable=protected-access
         self.reader._transport = new_transport  # type: ignore # pylint: disable=protected-access
+
+    @staticmethod
+    def _feed_tls(transport: asyncio.Transport, data: bytes) -> None:
+        protocol = transport.get_protocol()
+        if isinstance(protocol, asyncio.BufferedProtocol):  # python >=3.11
+            while data:
+                buffer = protocol.get_buffer(len(data))
+                n = min(len(buffer), len(data))
+                buffer[:n] = data[:n]
+                protocol.buffer_updated(n)
+                data = data[n:]
+        elif isinstance(protocol, asyncio.Protocol):
+            protocol.data_received(data)
-- 
2.43.0


From 47f84fb29d6c4b42da76b4167c1cb0f1e6bcaa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 13/57] fix: KILL QUERY aborts only an executing command and
 never breaks the conversation

KILL QUERY is ignored unless a command is executing whose response hasn't been
ended yet, and KILL CONNECTION is never downgraded. Pending cancellations are
consumed, so they don't hit a later command or the closing of the session.
---
 mysql_mimic/connection.py | 113 +++++++++++++++++++++++++++++---------
 1 file changed, 86 insertions(+), 27 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index f293115..41ce81a 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -76,7 +76,13 @@ class Connection:
         self._authenticated = False
 
         self.connection_id: int = 0
+        # The accepted request to kill this connection or its current command
         self._kill: Optional[KillKind] = None
+        # A command is executing, i.e. the end of its response hasn't been written yet.
+        # KILL QUERY is only accepted meanwhile.
+        self._executing = False
+        # The session is being closed
+        self._closing = False
         self._task: Optional[asyncio.Task] = None
 
     @property
@@ -88,9 +94,14 @@ class Connection:
         return CharacterSet[self.session.variables.get("character_set_client")]
 
     async def start(self) -> None:
-        self._task = asyncio.create_task(self._start())
+        if self._kill == KillKind.CONNECTION:
+            return
+        task = self._task = asyncio.create_task(self._start())
         try:
-            await self._task
+            await task
+        except asyncio.CancelledError:
+            if self._kill != KillKind.CONNECTION or not task.cancelled():
+                raise
         finally:
             self._task = None
 
@@ -108,25 +119,49 @@ class Connection:
 
         try:
             await self.command_phase()
-        except asyncio.CancelledError:
-            if self._kill == KillKind.CONNECTION:
-                logger.info("Connection %s killed", self.connection_id)
-                await self.stream.write(
-                    self.error(
-                        msg="Session was killed", code=ErrorCode.SESSION_WAS_KILLED
-                    )
-                )
-                self._kill = None
-            else:
-                raise
         finally:
+            self._closing = True
+            if self._kill:
+                logger.info("Connection %s killed", self.connection_id)
+                await self._receive_cancellation()
             await self.session.close()
 
     def kill(self, kind: KillKind = KillKind.CONNECTION) -> None:
+        if self._closing or self._kill == KillKind.CONNECTION:
+            return
+        if kind == KillKind.QUERY and not self._executing:
+            return
+        self._kill = kind
         if self._task:
-            self._kill = kind
             self._task.cancel()
 
+    async def _executed(self) -> None:
+        """
+        Must be awaited before writing the end of a response.
+
+        From then on, the command can't be killed anymore.
+        """
+        if self._kill:
+            # The command may have killed itself
+            await asyncio.sleep(0)
+        self._executing = False
+
+    @staticmethod
+    async def _receive_cancellation() -> None:
+        """Make sure a requested cancellation isn't delivered later on"""
+        try:
+            await asyncio.sleep(0)
+        except asyncio.CancelledError:
+            pass
+
+    async def _clear_query_kill(self) -> None:
+        await self._receive_cancellation()
+        if self._kill == KillKind.QUERY:
+            self._kill = None
+            if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
+                while self._task.cancelling():
+                    self._task.uncancel()
+
     async def connection_phase(self) -> None:
         default_auth_plugin = self.identity_provider.get_default_plugin()
         auth_data, auth_state = await default_auth_plugin.start()
@@ -300,12 +335,15 @@ class Connection:
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
         # A failed COM_CHANGE_USER ends the connection
-        while self._authenticated:
+        while self._authenticated and self._kill != KillKind.CONNECTION:
             try:
                 data = await self.stream.read()
             except ConnectionClosed:
                 logger.info("Connection closed")
                 return
+            error: Optional[bytes] = None
+            # KILL QUERY must not leave an authentication exchange halfway
+            self._executing = data[:1] != bytes([types.Commands.COM_CHANGE_USER])
             try:
                 command = data[0]
                 rest = data[1:]
@@ -346,25 +384,33 @@ class Connection:
 
             except MysqlError as e:
                 logger.error(e)
-                await self.stream.write(self.error(msg=e.msg, code=e.code))
+                error = self.error(msg=e.msg, code=e.code)
             except asyncio.CancelledError:
-                if self._kill == KillKind.QUERY:
-                    logger.info("Query killed on connection %s", self.connection_id)
-                    if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
-                        self._task.uncancel()
+                if not self._kill or not self._executing:
+                    raise
+                if self._kill == KillKind.CONNECTION:
                     await self.stream.write(
                         self.error(
-                            msg="Query was killed", code=ErrorCode.SESSION_WAS_KILLED
-                        )
+                            msg="Session was killed", code=ErrorCode.SESSION_WAS_KILLED
+                        ),
+                        drain=False,
                     )
-                    self._kill = None
-                else:
+                    self.stream.flush()
                     raise
+                logger.info("Query killed on connection %s", self.connection_id)
+                error = self.error(
+                    msg="Query was killed", code=ErrorCode.SESSION_WAS_KILLED
+                )
             except Exception as e:  # pylint: disable=broad-except
                 logger.exception(e)
-                await self.stream.write(self.error(msg=e))
-            finally:
-                self.stream.reset_seq()
+                error = self.error(msg=e)
+
+            self._executing = False
+            if self._kill == KillKind.QUERY:
+                await self._clear_query_kill()
+            if error is not None:
+                await self.stream.write(error)
+            self.stream.reset_seq()
 
     async def handle_ping(self, data: bytes) -> None:  # pylint: disable=unused-argument
         """
@@ -372,6 +418,7 @@ class Connection:
 
         COM_PING check if the server is alive.
         """
+        await self._executed()
         await self.stream.write(self.ok())
 
     async def handle_reset_connection(
@@ -384,6 +431,7 @@ class Connection:
 
         For now, we're just treating this like a no-op.
         """
+        await self._executed()
         await self.stream.write(self.ok())
 
     async def handle_debug(
@@ -396,10 +444,12 @@ class Connection:
 
         For now, we're just treating this like a no-op.
         """
+        await self._executed()
         await self.stream.write(self.ok())
 
     async def handle_init_db(self, data: bytes) -> None:
         await self.session.use(parse_com_init_db(self.client_charset, data))
+        await self._executed()
         await self.stream.write(self.ok())
 
     async def handle_field_list(self, data: bytes) -> None:
@@ -416,6 +466,7 @@ class Connection:
             )
             async for row in aiterate(result.rows)
         ]
+        await self._executed()
         for column in columns:
             await self.stream.write(column, drain=False)
         await self.stream.write(self.ok_or_eof())
@@ -436,6 +487,7 @@ class Connection:
         result_set = await self.query(com_query.sql, com_query.query_attrs)
 
         if not result_set:
+            await self._executed()
             await self.stream.write(self.ok())
             return
 
@@ -461,6 +513,7 @@ class Connection:
         )
         self.prepared_stmts[stmt_id] = stmt
 
+        await self._executed()
         for packet in self.com_stmt_prepare_response(stmt):
             await self.stream.write(packet, drain=False)
         await self.stream.drain()
@@ -504,6 +557,7 @@ class Connection:
         )
 
         if not result_set:
+            await self._executed()
             await self.stream.write(self.ok())
             return
 
@@ -531,6 +585,7 @@ class Connection:
 
         if com_stmt_execute.use_cursor:
             com_stmt_execute.stmt.cursor = rows
+            await self._executed()
             await self.stream.write(
                 self.ok_or_eof(flags=types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS)
             )
@@ -539,6 +594,7 @@ class Connection:
                 await self.stream.write(self.eof())
             async for row in rows:
                 await self.stream.write(row)
+            await self._executed()
             await self.stream.write(self.ok_or_eof())
 
     async def handle_stmt_fetch(self, data: bytes) -> None:
@@ -567,6 +623,7 @@ class Connection:
                     if count >= com_stmt_fetch.num_rows:
                         break
             await self.stream.drain()
+            await self._executed()
         except BaseException:
             # The position of the cursor is unknown, it can't be used anymore
             stmt.cursor = None
@@ -596,6 +653,7 @@ class Connection:
         stmt.param_buffers = None
         stmt.cursor = None
         await self.session.reset()
+        await self._executed()
         await self.stream.write(self.ok())
 
     async def handle_stmt_close(self, data: bytes) -> None:
@@ -681,6 +739,7 @@ class Connection:
             affected_rows += 1
             yield packets.make_text_resultset_row(row, result_set.columns)
 
+        await self._executed()
         yield self.ok_or_eof(affected_rows=affected_rows)
 
     def com_stmt_prepare_response(
-- 
2.43.0


From f8e223fb07cedcb984b156cb565742a966ba370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:49 +0000
Subject: [PATCH 14/57] fix: close the socket of refused connections

---
 mysql_mimic/server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/server.py b/mysql_mimic/server.py
index 6410a1e..6657cec 100644
--- a/mysql_mimic/server.py
+++ b/mysql_mimic/server.py
@@ -61,8 +61,12 @@ class MysqlServer:
     async def _client_connected_cb(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter
     ) -> None:
-        stream = MysqlStream(reader, writer)
+        try:
+            await self._serve_client(MysqlStream(reader, writer))
+        finally:
+            writer.close()
 
+    async def _serve_client(self, stream: MysqlStream) -> None:
         try:
             if inspect.iscoroutinefunction(self.session_factory):
                 session = await self.session_factory()
@@ -105,7 +109,7 @@ class MysqlServer:
         try:
             return await connection.start()
         finally:
-            writer.close()
+            stream.writer.close()
             await self.control.remove(connection_id)
 
     async def start_server(self, **kwargs: Any) -> None:
-- 
2.43.0


From bb2e7c29e49240e960bbdf744e725cb32cf5feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 15/57] fix: encode TINY, BOOL and boolean values as the
 integers they are

---
 mysql_mimic/results.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 9716207..413933a 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -165,7 +165,7 @@ async def _ensure_result_cols(
 
 
 def _binary_encode_tiny(col: ResultColumn, val: Any) -> bytes:
-    return uint_1(int(bool(val)))
+    return struct.pack("<b", int(val))
 
 
 def _binary_encode_str(col: ResultColumn, val: Any) -> bytes:
@@ -295,6 +295,12 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _text_encode_int(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, bool):
+        val = int(val)
+    return _text_encode_str(col, val)
+
+
 def _unsupported(col: ResultColumn, val: Any) -> bytes:
     raise MysqlError(f"Unsupported column type: {col.type}")
 
@@ -321,18 +327,18 @@ _PY_TO_MYSQL_TYPE = {
 _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.DECIMAL: _text_encode_str,
     ColumnType.TINY: _text_encode_tiny,
-    ColumnType.SHORT: _text_encode_str,
-    ColumnType.LONG: _text_encode_str,
+    ColumnType.SHORT: _text_encode_int,
+    ColumnType.LONG: _text_encode_int,
     ColumnType.FLOAT: _text_encode_str,
     ColumnType.DOUBLE: _text_encode_str,
     ColumnType.NULL: _unsupported,
     ColumnType.TIMESTAMP: _text_encode_str,
-    ColumnType.LONGLONG: _text_encode_str,
-    ColumnType.INT24: _text_encode_str,
+    ColumnType.LONGLONG: _text_encode_int,
+    ColumnType.INT24: _text_encode_int,
     ColumnType.DATE: _text_encode_str,
     ColumnType.TIME: _text_encode_str,
     ColumnType.DATETIME: _text_encode_str,
-    ColumnType.YEAR: _text_encode_str,
+    ColumnType.YEAR: _text_encode_int,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
     ColumnType.BIT: _text_encode_str,
@@ -341,7 +347,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.TIME2: _unsupported,
     ColumnType.TYPED_ARRAY: _unsupported,
     ColumnType.INVALID: _unsupported,
-    ColumnType.BOOL: _binary_encode_tiny,
+    ColumnType.BOOL: _text_encode_tiny,
     ColumnType.JSON: _text_encode_str,
     ColumnType.NEWDECIMAL: _text_encode_str,
     ColumnType.ENUM: _text_encode_str,
-- 
2.43.0


From 0b1d6cf7b7fc0ac9b59f4768a22bfd40b52efe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 16/57] fix: encode negative and multi-day durations

---
 mysql_mimic/results.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 413933a..b8c0304 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -248,12 +248,25 @@ def _binary_encode_double(col: ResultColumn, val: Any) -> bytes:
     return struct.pack("<d", val)
 
 
-def _binary_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
-    days = abs(val.days)
-    hours, remainder = divmod(abs(val.seconds), 3600)
-    minutes, seconds = divmod(remainder, 60)
+def _split_timedelta(val: timedelta) -> Tuple[bool, int, int, int, int, int]:
+    """Split a duration into its sign, days, hours, minutes, seconds and microseconds"""
+    is_negative = val < timedelta(0)
+    # The fields of a negative timedelta aren't those of its absolute value, which itself might not be
+    # representable as a timedelta.
+    total_seconds = val.days * 86400 + val.seconds
     microseconds = val.microseconds
-    is_negative = val.total_seconds() < 0
+    if is_negative:
+        borrow = int(microseconds > 0)
+        total_seconds = -total_seconds - borrow
+        microseconds = borrow * 1_000_000 - microseconds
+    minutes, seconds = divmod(total_seconds, 60)
+    hours, minutes = divmod(minutes, 60)
+    days, hours = divmod(hours, 24)
+    return is_negative, days, hours, minutes, seconds, microseconds
+
+
+def _binary_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
+    is_negative, days, hours, minutes, seconds, microseconds = _split_timedelta(val)
 
     if microseconds == 0:
         if days == hours == minutes == seconds == 0:
@@ -301,6 +314,16 @@ def _text_encode_int(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, val)
 
 
+def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, timedelta):
+        is_negative, days, hours, minutes, seconds, microseconds = _split_timedelta(val)
+        sign = "-" if is_negative else ""
+        val = f"{sign}{days * 24 + hours:02}:{minutes:02}:{seconds:02}"
+        if microseconds:
+            val = f"{val}.{microseconds:06}"
+    return _text_encode_str(col, val)
+
+
 def _unsupported(col: ResultColumn, val: Any) -> bytes:
     raise MysqlError(f"Unsupported column type: {col.type}")
 
@@ -336,7 +359,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.LONGLONG: _text_encode_int,
     ColumnType.INT24: _text_encode_int,
     ColumnType.DATE: _text_encode_str,
-    ColumnType.TIME: _text_encode_str,
+    ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
     ColumnType.YEAR: _text_encode_int,
     ColumnType.NEWDATE: _text_encode_str,
-- 
2.43.0


From f9cc3a32a939d17bfbb2b6882e08264ab898175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 17/57] fix: encode integers in BIT columns

---
 mysql_mimic/results.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index b8c0304..1a1c820 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -324,6 +324,21 @@ def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, val)
 
 
+def _bit_to_bytes(val: Any) -> Any:
+    """BIT values are big-endian byte strings, in both protocols"""
+    if isinstance(val, int):
+        return val.to_bytes(max(1, (val.bit_length() + 7) // 8), "big")
+    return val
+
+
+def _text_encode_bit(col: ResultColumn, val: Any) -> bytes:
+    return _text_encode_str(col, _bit_to_bytes(val))
+
+
+def _binary_encode_bit(col: ResultColumn, val: Any) -> bytes:
+    return _binary_encode_str(col, _bit_to_bytes(val))
+
+
 def _unsupported(col: ResultColumn, val: Any) -> bytes:
     raise MysqlError(f"Unsupported column type: {col.type}")
 
@@ -364,7 +379,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.YEAR: _text_encode_int,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
-    ColumnType.BIT: _text_encode_str,
+    ColumnType.BIT: _text_encode_bit,
     ColumnType.TIMESTAMP2: _unsupported,
     ColumnType.DATETIME2: _unsupported,
     ColumnType.TIME2: _unsupported,
@@ -401,7 +416,7 @@ _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.YEAR: _binary_encode_short,
     ColumnType.NEWDATE: _unsupported,
     ColumnType.VARCHAR: _binary_encode_str,
-    ColumnType.BIT: _binary_encode_str,
+    ColumnType.BIT: _binary_encode_bit,
     ColumnType.TIMESTAMP2: _unsupported,
     ColumnType.DATETIME2: _unsupported,
     ColumnType.TIME2: _unsupported,
-- 
2.43.0


From 5723f6c8cd55bab92263cd5c9ca53e4b533d7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 18/57] fix: infer the types of columns with the same name

---
 mysql_mimic/results.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 1a1c820..80e129b 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -104,8 +104,9 @@ async def _ensure_result_cols(
     columns: Sequence[AllowedColumn],
 ) -> ResultSet:
     # Which columns need to be inferred?
+    # Names aren't unique, so keep track of them by position
     remaining = {
-        col: i for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
+        i: col for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
     }
 
     if not remaining:
@@ -132,7 +133,7 @@ async def _ensure_result_cols(
         peeks.append(peek)
 
         inferred = []
-        for name, i in remaining.items():
+        for i, name in remaining.items():
             value = peek[i]
             if value is not None:
                 type_ = infer_type(value)
@@ -140,13 +141,13 @@ async def _ensure_result_cols(
                     name=str(name),
                     type=type_,
                 )
-                inferred.append(name)
+                inferred.append(i)
 
-        for name in inferred:
-            remaining.pop(name)
+        for i in inferred:
+            remaining.pop(i)
 
     # If we failed to find a non-null value, set the type to NULL
-    for name, i in remaining.items():
+    for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
             type=ColumnType.NULL,
-- 
2.43.0


From 792cbdfe258b182de8cfb8c6de8a3f433bda747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 19/57] fix: encode booleans in float and decimal columns as
 numbers

---
 mysql_mimic/results.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 80e129b..d23ec13 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -309,12 +309,16 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
-def _text_encode_int(col: ResultColumn, val: Any) -> bytes:
+def _text_encode_number(col: ResultColumn, val: Any) -> bytes:
     if isinstance(val, bool):
         val = int(val)
     return _text_encode_str(col, val)
 
 
+def _binary_encode_decimal(col: ResultColumn, val: Any) -> bytes:
+    return str_len(_text_encode_number(col, val))
+
+
 def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
     if isinstance(val, timedelta):
         is_negative, days, hours, minutes, seconds, microseconds = _split_timedelta(val)
@@ -364,20 +368,20 @@ _PY_TO_MYSQL_TYPE = {
 
 
 _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
-    ColumnType.DECIMAL: _text_encode_str,
+    ColumnType.DECIMAL: _text_encode_number,
     ColumnType.TINY: _text_encode_tiny,
-    ColumnType.SHORT: _text_encode_int,
-    ColumnType.LONG: _text_encode_int,
-    ColumnType.FLOAT: _text_encode_str,
-    ColumnType.DOUBLE: _text_encode_str,
+    ColumnType.SHORT: _text_encode_number,
+    ColumnType.LONG: _text_encode_number,
+    ColumnType.FLOAT: _text_encode_number,
+    ColumnType.DOUBLE: _text_encode_number,
     ColumnType.NULL: _unsupported,
     ColumnType.TIMESTAMP: _text_encode_str,
-    ColumnType.LONGLONG: _text_encode_int,
-    ColumnType.INT24: _text_encode_int,
+    ColumnType.LONGLONG: _text_encode_number,
+    ColumnType.INT24: _text_encode_number,
     ColumnType.DATE: _text_encode_str,
     ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
-    ColumnType.YEAR: _text_encode_int,
+    ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
     ColumnType.BIT: _text_encode_bit,
@@ -388,7 +392,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.INVALID: _unsupported,
     ColumnType.BOOL: _text_encode_tiny,
     ColumnType.JSON: _text_encode_str,
-    ColumnType.NEWDECIMAL: _text_encode_str,
+    ColumnType.NEWDECIMAL: _text_encode_number,
     ColumnType.ENUM: _text_encode_str,
     ColumnType.SET: _text_encode_str,
     ColumnType.TINY_BLOB: _text_encode_str,
@@ -401,7 +405,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
 }
 
 _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
-    ColumnType.DECIMAL: _binary_encode_str,
+    ColumnType.DECIMAL: _binary_encode_decimal,
     ColumnType.TINY: _binary_encode_tiny,
     ColumnType.SHORT: _binary_encode_short,
     ColumnType.LONG: _binary_encode_long,
@@ -425,7 +429,7 @@ _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.INVALID: _unsupported,
     ColumnType.BOOL: _binary_encode_tiny,
     ColumnType.JSON: _binary_encode_str,
-    ColumnType.NEWDECIMAL: _binary_encode_str,
+    ColumnType.NEWDECIMAL: _binary_encode_decimal,
     ColumnType.ENUM: _binary_encode_str,
     ColumnType.SET: _binary_encode_str,
     ColumnType.TINY_BLOB: _binary_encode_str,
-- 
2.43.0


From 228f8a14500586839d256d36d650eca5982498db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 20/57] fix: bound the number of rows buffered to infer column
 types

---
 mysql_mimic/results.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index d23ec13..0088e4d 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -24,6 +24,9 @@ from mysql_mimic.utils import aiterate
 
 Encoder = Callable[[Any, "ResultColumn"], bytes]
 
+# Maximum number of rows to buffer while looking for non-null values to infer column types from
+INFER_TYPE_MAX_ROWS = 1000
+
 
 class ResultColumn:
     """
@@ -122,12 +125,14 @@ async def _ensure_result_cols(
 
     # Keep track of rows we've consumed from the iterator so we can add them back
     peeks = []
+    exhausted = False
 
     # Find the first non-null value for each column
-    while remaining:
+    while remaining and len(peeks) < INFER_TYPE_MAX_ROWS:
         try:
             peek = await arows.__anext__()
         except StopAsyncIteration:
+            exhausted = True
             break
 
         peeks.append(peek)
@@ -146,11 +151,11 @@ async def _ensure_result_cols(
         for i in inferred:
             remaining.pop(i)
 
-    # If we failed to find a non-null value, set the type to NULL
+    # If we failed to find a non-null value, set the type to NULL, unless there might be values further down
     for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
-            type=ColumnType.NULL,
+            type=ColumnType.NULL if exhausted else ColumnType.VARCHAR,
         )
 
     # Add the consumed rows back in to the iterator
-- 
2.43.0


From 00e8bfc8d97e7818a99c6a5fe7be98059a7f1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:45 +0000
Subject: [PATCH 21/57] fix: escape string parameters of prepared statements

---
 mysql_mimic/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index fe1b1d6..f05a21b 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -538,7 +538,8 @@ def _interpolate_params(
 
 def _encode_param_as_sql(param: Any) -> str:
     if isinstance(param, str):
-        return f"'{param}'"
+        escaped = param.replace("\\", "\\\\").replace("'", "''")
+        return f"'{escaped}'"
     if param is None:
         return "NULL"
     if param is True:
-- 
2.43.0


From 5f6d256562d54bc2d065941183cfc1c338cbf5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:45 +0000
Subject: [PATCH 22/57] fix: recognise placeholders with a tokenizer and
 replace them all at once

---
 mysql_mimic/connection.py |  4 +--
 mysql_mimic/packets.py    |  6 ++--
 mysql_mimic/prepared.py   | 75 +++++++++++++++++++++++++++++++++++++--
 3 files changed, 77 insertions(+), 8 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 41ce81a..8dc0472 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -21,7 +21,7 @@ from mysql_mimic.packets import (
     parse_com_field_list,
     make_column_definition_41,
 )
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, find_placeholders
 from mysql_mimic.results import ensure_result_set, ResultSet
 from mysql_mimic import types, packets, context
 from mysql_mimic.schema import com_field_list_to_show_statement
@@ -504,7 +504,7 @@ class Connection:
         sql = self.client_charset.decode(data)
 
         stmt_id = next(self.prepared_stmt_seq)
-        num_params = len(REGEX_PARAM.findall(sql))
+        num_params = len(find_placeholders(sql))
 
         stmt = PreparedStatement(
             stmt_id=stmt_id,
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index f05a21b..95d84ec 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -5,7 +5,7 @@ from typing import Optional, Dict, Any, Sequence, Callable, Tuple, List, Union
 from mysql_mimic.charset import Collation, CharacterSet
 from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
 from mysql_mimic.errors import ErrorCode, get_sqlstate, MysqlError
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, replace_placeholders
 from mysql_mimic.results import NullBitmap, ResultColumn
 from mysql_mimic.types import (
     Capabilities,
@@ -528,8 +528,8 @@ def _interpolate_params(
             capabilities, client_charset, reader, parameter_count, stmt.param_buffers
         )
 
-        for _, value in params[: stmt.num_params]:
-            sql = REGEX_PARAM.sub(_encode_param_as_sql(value), sql, 1)
+        literals = [_encode_param_as_sql(v) for _, v in params[: stmt.num_params]]
+        sql = replace_placeholders(sql, literals)
 
         query_attrs = {k: v for k, v in params[stmt.num_params :] if k is not None}
 
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 925efba..a4fefcf 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,9 +1,23 @@
 import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterable
+from typing import Optional, Dict, AsyncIterable, List, Sequence
 
-# Borrowed from mysql-connector-python
-REGEX_PARAM = re.compile(r"""\?(?=(?:[^"'`]*["'`][^"'`]*["'`])*[^"'`]*$)""")
+# Everything that matters for finding placeholders: the placeholders themselves and what can hide them
+REGEX_TOKEN = re.compile(r"""\?|['"`#]|/\*|--(?=[\s\x00-\x1f]|$)""")
+
+# What ends the quoted strings, quoted identifiers and comments matched by REGEX_TOKEN
+REGEX_TOKEN_END = {
+    "'": re.compile(r"\\.|'", re.DOTALL),
+    '"': re.compile(r'\\.|"', re.DOTALL),
+    "`": re.compile(r"`"),
+    "#": re.compile(r"\n"),
+    "--": re.compile(r"\n"),
+    "/*": re.compile(r"\*/"),
+}
+
+# A literal must not join with the text around it
+REGEX_JOINS_NEXT = re.compile(r"""[\w$.'"`@]""")
+REGEX_JOINS_PREVIOUS = re.compile(r"""[\w$.'"`@:\\]""")
 
 
 @dataclass
@@ -13,3 +27,58 @@ class PreparedStatement:
     num_params: int
     param_buffers: Optional[Dict[int, bytearray]] = None
     cursor: Optional[AsyncIterable[bytes]] = None
+
+
+def find_placeholders(sql: str) -> List[int]:
+    """Find the positions of the placeholders in a statement"""
+    placeholders = []
+    match = REGEX_TOKEN.search(sql)
+
+    while match:
+        token = match.group()
+        end: Optional[int] = match.end()
+
+        if token == "?":
+            placeholders.append(match.start())
+        else:
+            end = _find_token_end(sql, token, match.end())
+
+        match = REGEX_TOKEN.search(sql, end) if end is not None else None
+
+    return placeholders
+
+
+def _find_token_end(sql: str, token: str, start: int) -> Optional[int]:
+    regex = REGEX_TOKEN_END[token]
+    match = regex.search(sql, start)
+    while match and match.group().startswith("\\"):
+        match = regex.search(sql, match.end())
+    return match.end() if match else None
+
+
+def replace_placeholders(sql: str, literals: Sequence[str]) -> str:
+    """Replace each placeholder of a statement with the corresponding SQL literal"""
+    parts: List[str] = []
+    previous = ""
+    start = 0
+
+    for position, literal in zip(find_placeholders(sql), literals):
+        text = sql[start:position]
+        start = position + 1
+
+        if text:
+            parts.append(text)
+            previous = text[-1]
+        if REGEX_JOINS_PREVIOUS.match(previous):
+            parts.append(" ")
+        elif previous + literal[0] == "--" and not text.endswith("--"):
+            # Don't turn two minus signs into a comment
+            parts.append(" ")
+        parts.append(literal)
+        previous = literal[-1]
+        if REGEX_JOINS_NEXT.match(sql, start):
+            parts.append(" ")
+            previous = " "
+
+    parts.append(sql[start:])
+    return "".join(parts)
-- 
2.43.0


From a56ddb752f6a3193a4a0fe1565e172763e4da92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:45 +0000
Subject: [PATCH 23/57] fix: reject executions that lack statement parameters

---
 mysql_mimic/packets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 95d84ec..321d128 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -521,6 +521,12 @@ def _interpolate_params(
         if Capabilities.CLIENT_QUERY_ATTRIBUTES in capabilities:
             parameter_count = read_uint_len(reader)
 
+    if parameter_count < stmt.num_params:
+        raise MysqlError(
+            f"Expected {stmt.num_params} statement parameters. Received: {parameter_count}",
+            ErrorCode.MALFORMED_PACKET,
+        )
+
     if parameter_count > 0:
         # When there are query attributes, they are combined with statement parameters.
         # The statement parameters will be first, query attributes second.
-- 
2.43.0


From 0d802cef3a6ee584a52859db6a59565746bebb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 24/57] fix: don't reuse long data after a failed execution

---
 mysql_mimic/connection.py | 1 -
 mysql_mimic/packets.py    | 9 +++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 8dc0472..1fdfeaf 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -549,7 +549,6 @@ class Connection:
             get_stmt=self.get_stmt,
         )
 
-        com_stmt_execute.stmt.param_buffers = None
         com_stmt_execute.stmt.cursor = None
 
         result_set = await self.query(
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 321d128..98aa7af 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -425,10 +425,14 @@ def parse_com_stmt_execute(
     r = io.BytesIO(data)
     stmt_id = read_uint_4(r)
     stmt = get_stmt(stmt_id)
+
+    # Long data is only for this execution, even if it fails
+    buffers, stmt.param_buffers = stmt.param_buffers, None
+
     use_cursor, param_count_available = _read_cursor_flags(r)
     read_uint_4(r)  # iteration count. Always 1.
     sql, query_attrs = _interpolate_params(
-        capabilities, client_charset, r, stmt, param_count_available
+        capabilities, client_charset, r, stmt, param_count_available, buffers
     )
     return ComStmtExecute(
         sql=sql,
@@ -510,6 +514,7 @@ def _interpolate_params(
     reader: io.BytesIO,
     stmt: PreparedStatement,
     param_count_available: bool,
+    buffers: Optional[Dict[int, bytearray]],
 ) -> Tuple[str, Dict[str, str]]:
     sql = stmt.sql
     query_attrs = {}
@@ -531,7 +536,7 @@ def _interpolate_params(
         # When there are query attributes, they are combined with statement parameters.
         # The statement parameters will be first, query attributes second.
         params = _read_params(
-            capabilities, client_charset, reader, parameter_count, stmt.param_buffers
+            capabilities, client_charset, reader, parameter_count, buffers
         )
 
         literals = [_encode_param_as_sql(v) for _, v in params[: stmt.num_params]]
-- 
2.43.0


From 539c544e23f3a7abe50cd665413afa4a9ddf91c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:56 +0000
Subject: [PATCH 25/57] fix: read null terminated strings in linear time

---
 mysql_mimic/types.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index f2c4169..e7e1687 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -317,14 +317,12 @@ def read_str_fixed(reader: io.BytesIO, l: int) -> bytes:
 
 
 def read_str_null(reader: io.BytesIO) -> bytes:
-    data = b""
-    while True:
-        b = reader.read(1)
-        if b == b"\x00":
-            return data
-        if not b:
-            raise MysqlError("Missing string terminator", ErrorCode.MALFORMED_PACKET)
-        data += b
+    pos = reader.tell()
+    data, terminator, _ = reader.read().partition(b"\x00")
+    if not terminator:
+        raise MysqlError("Missing string terminator", ErrorCode.MALFORMED_PACKET)
+    reader.seek(pos + len(data) + 1)
+    return data
 
 
 def read_str_len(reader: io.BytesIO) -> bytes:
-- 
2.43.0


From 9a191c67e0ac58d17b3d9e3712da07af20878435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 26/57] fix: give way to other connections between pipelined
 commands

---
 mysql_mimic/connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 1fdfeaf..d1b2376 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -412,6 +412,9 @@ class Connection:
                 await self.stream.write(error)
             self.stream.reset_seq()
 
+            # Reading pipelined commands doesn't give way to the other connections
+            await asyncio.sleep(0)
+
     async def handle_ping(self, data: bytes) -> None:  # pylint: disable=unused-argument
         """
         https://dev.mysql.com/doc/internals/en/com-ping.html
-- 
2.43.0


From 34fd565481e7424bed33b5298826569489b84ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 27/57] fix: don't treat trailing comments as statements

---
 mysql_mimic/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 0fdb119..4639895 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -305,7 +305,8 @@ class Session(BaseSession):
         self.database = database
 
     def _parse(self, sql: str) -> List[exp.Expression]:
-        return [e for e in self.dialect().parse(sql) if e]
+        # Comments following a semicolon are parsed into a `Semicolon`, which isn't a statement
+        return [e for e in self.dialect().parse(sql) if e and e.key != "semicolon"]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
         return await ensure_info_schema(await self.schema()).query(expression)
-- 
2.43.0


From 923dbda5ca5261c51bc37b9428e5b328c3feb977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 28/57] fix: route statements by the databases they read, not
 by the default database

---
 mysql_mimic/session.py |  6 ++----
 mysql_mimic/utils.py   | 16 +++++++++++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 4639895..e6c5d51 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -507,10 +507,8 @@ class Session(BaseSession):
 
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
         """Intercept queries to INFORMATION_SCHEMA tables"""
-        dbs = find_dbs(q.expression)
-        if (self.database and self.database.lower() in INFO_SCHEMA) or (
-            dbs and all(db.lower() in INFO_SCHEMA for db in dbs)
-        ):
+        dbs = find_dbs(q.expression, default=self.database)
+        if dbs and all(db.lower() in INFO_SCHEMA for db in dbs):
             return await self._query_info_schema(q.expression)
         return await q.next()
 
diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 676f045..e6d98ad 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -66,9 +66,19 @@ def find_tables(expression: exp.Expression) -> List[exp.Table]:
     return []
 
 
-def find_dbs(expression: exp.Expression) -> List[str]:
-    """Find all database names in an expression"""
-    return [table.text("db") for table in find_tables(expression)]
+def find_dbs(expression: exp.Expression, default: str | None = None) -> List[str]:
+    """
+    Find all database names in an expression
+
+    Args:
+        expression: expression to search
+        default: database of the tables that don't specify one
+    """
+    # Table functions don't have a name, and aren't part of any database
+    return [
+        table.text("db") or (table.name and default) or ""
+        for table in find_tables(expression)
+    ]
 
 
 def dict_depth(d: dict) -> int:
-- 
2.43.0


From 2cce01ee8a625409a1257388d76ec38f8007dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 29/57] fix: let the application explain all statements, not
 only SELECT

---
 mysql_mimic/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index e6c5d51..6c420a3 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -394,7 +394,7 @@ class Session(BaseSession):
     async def _describe_middleware(self, q: Query) -> AllowedResult:
         """Intercept DESCRIBE statements"""
         if isinstance(q.expression, exp.Describe):
-            if isinstance(q.expression.this, exp.Select):
+            if not isinstance(q.expression.this, exp.Table):
                 # Mysql parse treats EXPLAIN SELECT as a DESCRIBE SELECT statement
                 return await q.next()
             name = q.expression.this.name
-- 
2.43.0


From c4d555ea141e927176615d21c862b49320d8d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 30/57] fix: queries reading tables in subqueries aren't static

---
 mysql_mimic/session.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 6c420a3..8719f55 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -471,9 +471,13 @@ class Session(BaseSession):
 
         These very common, as many clients execute commands like SELECT DATABASE() when connecting.
         """
-        if isinstance(q.expression, exp.Select) and not any(
-            q.expression.args.get(a)
-            for a in set(exp.Select.arg_types) - {"expressions", "limit", "hint"}
+        if (
+            isinstance(q.expression, exp.Select)
+            and not any(
+                q.expression.args.get(a)
+                for a in set(exp.Select.arg_types) - {"expressions", "limit", "hint"}
+            )
+            and not find_dbs(q.expression)
         ):
             result = execute(q.expression)
             return result.rows, result.columns
-- 
2.43.0


From beae7bfd36834a63183e85738514d2db67f2c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 31/57] fix: answer all SELECT statements without tables that
 read at most one row

---
 mysql_mimic/session.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 8719f55..21c08fb 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -49,6 +49,18 @@ if TYPE_CHECKING:
 
 Middleware = Callable[["Query"], Awaitable[AllowedResult]]
 
+# Clauses of the SELECT statements without tables that don't need the application
+STATIC_QUERY_ARGS = {
+    "with",
+    "hint",
+    "distinct",
+    "expressions",
+    "where",
+    "order",
+    "limit",
+    "offset",
+}
+
 
 @dataclass
 class Query:
@@ -475,12 +487,16 @@ class Session(BaseSession):
             isinstance(q.expression, exp.Select)
             and not any(
                 q.expression.args.get(a)
-                for a in set(exp.Select.arg_types) - {"expressions", "limit", "hint"}
+                for a in set(exp.Select.arg_types) - STATIC_QUERY_ARGS
             )
             and not find_dbs(q.expression)
         ):
+            # There is at most one row, so it's always in order
+            q.expression.set("order", None)
+            offset = q.expression.args.get("offset")
+            skip = int(offset.expression.name) if offset else 0
             result = execute(q.expression)
-            return result.rows, result.columns
+            return result.rows[skip:], result.columns
         return await q.next()
 
     async def _set_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From 92bd14bb93f8323d1e4843951bd8cb3a4e7cabac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 32/57] fix: don't pass unsupported SET and SHOW statements to
 the application

---
 mysql_mimic/intercept.py |  5 +++++
 mysql_mimic/session.py   | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/mysql_mimic/intercept.py b/mysql_mimic/intercept.py
index 26e77c0..26a6135 100644
--- a/mysql_mimic/intercept.py
+++ b/mysql_mimic/intercept.py
@@ -19,6 +19,11 @@ TRANSACTION_CHARACTERISTICS = {
 }
 
 
+def is_command(expression: exp.Expression, name: str) -> bool:
+    """Whether this is a statement that the parser doesn't know more about than its first word"""
+    return isinstance(expression, exp.Command) and expression.name.upper() == name
+
+
 def setitem_kind(setitem: exp.SetItem) -> str:
     kind = setitem.text("kind")
     if not kind:
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 21c08fb..b640fa6 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -21,6 +21,7 @@ from sqlglot.executor import execute
 from mysql_mimic.charset import CharacterSet
 from mysql_mimic.errors import ErrorCode, MysqlError
 from mysql_mimic.intercept import (
+    is_command,
     setitem_kind,
     value_to_expression,
     expression_to_value,
@@ -388,6 +389,11 @@ class Session(BaseSession):
         """Intercept SHOW statements"""
         if isinstance(q.expression, exp.Show):
             return await self._show(q.expression)
+        if is_command(q.expression, "SHOW"):
+            raise MysqlError(
+                f"Unsupported SHOW command: {q.expression.sql()}",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         return await q.next()
 
     async def _show(self, expression: exp.Show) -> AllowedResult:
@@ -523,6 +529,11 @@ class Session(BaseSession):
                     )
 
             return [], []
+        if is_command(q.expression, "SET"):
+            raise MysqlError(
+                f"Unsupported SET statement: {q.expression.sql()}",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         return await q.next()
 
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From 0d7924936deead1949d02af87fb255f4ae2273bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 33/57] fix: treat an empty database name as no default
 database

---
 mysql_mimic/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index d1b2376..d56efcf 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -194,7 +194,7 @@ class Connection:
         self.capabilities = response.capabilities
         self.max_packet_size = response.max_packet_size
         self.session.variables.set("character_set_client", response.client_charset.name)
-        self.session.database = response.database
+        self.session.database = response.database or None
         self.client_plugin_name = response.client_plugin
         self.client_connect_attrs = response.connect_attrs
         self.zstd_compression_level = response.zstd_compression_level
@@ -219,7 +219,7 @@ class Connection:
             data=data,
         )
 
-        self.session.database = com_change_user.database
+        self.session.database = com_change_user.database or None
         self.session.variables.set(
             "external_user", com_change_user.username, force=True
         )
-- 
2.43.0


From af4616ddb8385afbb6502d5fda0ca043145b2d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 34/57] fix: keywords in SET statements are case insensitive

---
 mysql_mimic/intercept.py | 7 ++++---
 mysql_mimic/session.py   | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/intercept.py b/mysql_mimic/intercept.py
index 26a6135..ebae48c 100644
--- a/mysql_mimic/intercept.py
+++ b/mysql_mimic/intercept.py
@@ -61,11 +61,12 @@ def expression_to_value(expression: exp.Expression) -> Any:
             return float(expression.this)
     if isinstance(expression, exp.Literal):
         return expression.name
-    if expression.name == "DEFAULT":
+    keyword = expression.name.upper()
+    if keyword == "DEFAULT":
         return DEFAULT
-    if expression.name == "ON":
+    if keyword == "ON":
         return True
-    if expression.name == "OFF":
+    if keyword == "OFF":
         return False
     raise MysqlError(
         "Complex expressions in variables not supported yet",
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index b640fa6..3d22385 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -573,7 +573,7 @@ class Session(BaseSession):
     def _set_charset(self, item: exp.SetItem) -> None:
         charset_name: Any
         charset_conn: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             charset_conn = DEFAULT
         else:
@@ -586,7 +586,7 @@ class Session(BaseSession):
     def _set_names(self, item: exp.SetItem) -> None:
         charset_name: Any
         collation_name: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
-- 
2.43.0


From 14f2c8b40d24d56fa47e87edab3417d28665477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:57 +0000
Subject: [PATCH 35/57] fix: names of CTEs are case insensitive

---
 mysql_mimic/utils.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index e6d98ad..74ba004 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -57,12 +57,17 @@ def find_tables(expression: exp.Expression) -> List[exp.Table]:
     if isinstance(
         expression, (exp.Select, exp.Subquery, exp.Union, exp.Except, exp.Intersect)
     ):
-        return [
-            source
-            for scope in traverse_scope(expression)
-            for source in scope.sources.values()
-            if isinstance(source, exp.Table)
-        ]
+        tables = []
+        for scope in traverse_scope(expression):
+            # Names of CTEs are case insensitive
+            ctes = {name.lower() for name in scope.cte_sources}
+            tables.extend(
+                source
+                for source in scope.sources.values()
+                if isinstance(source, exp.Table)
+                and (source.text("db") or source.name.lower() not in ctes)
+            )
+        return tables
     return []
 
 
-- 
2.43.0


From a5c65ee236fd96d5de416bf33d17b869529d7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 36/57] fix: backquotes within quoted identifiers are doubled

---
 mysql_mimic/session.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 3d22385..5525239 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -166,6 +166,13 @@ class BaseSession:
         """
 
 
+class MySQLDialect(MySQL):
+    """MySQL dialect, in which backquotes within quoted identifiers are doubled"""
+
+    class Tokenizer(MySQL.Tokenizer):
+        IDENTIFIER_ESCAPES = ["`"]
+
+
 class Session(BaseSession):
     """
     Abstract session.
@@ -174,7 +181,7 @@ class Session(BaseSession):
     e.g. session variables, SHOW commands, queries to INFORMATION_SCHEMA, and more
     """
 
-    dialect: Type[Dialect] = MySQL
+    dialect: Type[Dialect] = MySQLDialect
 
     def __init__(self, variables: Variables | None = None):
         self.variables = variables or SessionVariables(GlobalVariables())
-- 
2.43.0


From 6fc008d6d48665cd47eaed6a08e6535d7fcd7355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 37/57] fix: reject unknown character sets when they're
 selected

---
 mysql_mimic/session.py   |  7 ++++++-
 mysql_mimic/variables.py | 24 +++++++++++++++++++-----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 5525239..3ae8ee4 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -597,7 +597,12 @@ class Session(BaseSession):
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
-            charset_name = item.name
+            charset_name = item.name.lower()
+            if charset_name not in CharacterSet.__members__:
+                raise MysqlError(
+                    f"Unknown character set: {item.name}",
+                    code=ErrorCode.WRONG_VALUE_FOR_VAR,
+                )
             collation_name = (
                 item.text("collate")
                 or CharacterSet[charset_name].default_collation.name
diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index e5a0d8a..8516ff8 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import abc
+import codecs
 import re
 from datetime import timezone, timedelta
 from functools import lru_cache
@@ -19,15 +20,28 @@ VariableSchema = Tuple[VariableType, Any, bool]
 
 DEFAULT = Default()
 
+
+def charset_name(value: Any) -> str:
+    """Type of variables that hold the name of a character set"""
+    name = str(value).lower()
+    try:
+        codecs.lookup(CharacterSet[name].codec)
+    except LookupError as e:
+        raise MysqlError(
+            f"Unknown character set: {value}", code=ErrorCode.WRONG_VALUE_FOR_VAR
+        ) from e
+    return name
+
+
 SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     # name: (type, default, dynamic)
     "auto_increment_increment": (int, 1, True),
     "autocommit": (bool, True, True),
-    "character_set_client": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_connection": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_database": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_results": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_server": (str, CharacterSet.utf8mb4.name, True),
+    "character_set_client": (charset_name, CharacterSet.utf8mb4.name, True),
+    "character_set_connection": (charset_name, CharacterSet.utf8mb4.name, True),
+    "character_set_database": (charset_name, CharacterSet.utf8mb4.name, True),
+    "character_set_results": (charset_name, CharacterSet.utf8mb4.name, True),
+    "character_set_server": (charset_name, CharacterSet.utf8mb4.name, True),
     "collation_connection": (str, Collation.utf8mb4_general_ci.name, True),
     "collation_database": (str, Collation.utf8mb4_general_ci.name, True),
     "collation_server": (str, Collation.utf8mb4_general_ci.name, True),
-- 
2.43.0


From 6bbec395e7772f15e2cc6fcf7edb566976c0aa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 38/57] fix: reject invalid time zones when they're selected

---
 mysql_mimic/variables.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index 8516ff8..4a42f84 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -21,6 +21,13 @@ VariableSchema = Tuple[VariableType, Any, bool]
 DEFAULT = Default()
 
 
+def time_zone_name(value: Any) -> str:
+    """Type of variables that hold the name of a time zone"""
+    name = str(value)
+    parse_timezone(name)
+    return name
+
+
 def charset_name(value: Any) -> str:
     """Type of variables that hold the name of a character set"""
     name = str(value).lower()
@@ -59,7 +66,7 @@ SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     "sql_mode": (str, "ANSI", True),
     "sql_select_limit": (int, None, True),
     "system_time_zone": (str, "UTC", False),
-    "time_zone": (str, "UTC", True),
+    "time_zone": (time_zone_name, "UTC", True),
     "transaction_read_only": (bool, False, True),
     "transaction_isolation": (str, "READ-COMMITTED", True),
     "version": (str, "8.0.29", False),
@@ -138,14 +145,14 @@ class SessionVariables(Variables):
         return self.global_variables.schema
 
 
-RE_TIMEZONE = re.compile(r"^(?P<sign>[+-])(?P<hours>\d\d):(?P<minutes>\d\d)")
+RE_TIMEZONE = re.compile(r"(?P<sign>[+-])(?P<hours>[01]\d|2[0-3]):(?P<minutes>[0-5]\d)", re.A)
 
 
 @lru_cache(maxsize=48)
 def parse_timezone(tz: str) -> timezone:
     if tz.lower() == "utc":
         return timezone.utc
-    match = RE_TIMEZONE.match(tz)
+    match = RE_TIMEZONE.fullmatch(tz)
     if not match:
         raise MysqlError(msg=f"Invalid timezone: {tz}")
     offset = timedelta(
-- 
2.43.0


From 0b64c9d82806d9f90836d5aec82cbea3d8e6f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 39/57] fix: convert between booleans and ON/OFF strings in
 variables

---
 mysql_mimic/variables.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index 4a42f84..91453d2 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -21,6 +21,21 @@ VariableSchema = Tuple[VariableType, Any, bool]
 DEFAULT = Default()
 
 
+def coerce(type_: VariableType, value: Any) -> Any:
+    """Convert a value to the type of a variable"""
+    if type_ is bool and isinstance(value, str):
+        if value.upper() in {"ON", "TRUE", "1"}:
+            return True
+        if value.upper() in {"OFF", "FALSE", "0"}:
+            return False
+        raise MysqlError(
+            f"Invalid boolean: {value}", code=ErrorCode.WRONG_VALUE_FOR_VAR
+        )
+    if type_ is str and isinstance(value, bool):
+        return "ON" if value else "OFF"
+    return type_(value)
+
+
 def time_zone_name(value: Any) -> str:
     """Type of variables that hold the name of a time zone"""
     name = str(value)
@@ -107,7 +122,7 @@ class Variables(abc.ABC):
         if value is DEFAULT or value is None:
             self.values[name] = default
         else:
-            self.values[name] = type_(value)
+            self.values[name] = coerce(type_, value)
 
     def get(self, name: str) -> Any:
         name = name.lower()
-- 
2.43.0


From 44dd976461fde3342e8afb3e810cff4ff959d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 40/57] fix: statements see the time zone selected by the
 preceding statement or their hints

---
 mysql_mimic/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 3ae8ee4..044a387 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -306,11 +306,11 @@ class Session(BaseSession):
         self._connection = None
 
     async def handle_query(self, sql: str, attrs: Dict[str, str]) -> AllowedResult:
-        self.timestamp = datetime.now(tz=self.timezone())
         result = None
         for expression in self._parse(sql):
             if not expression:
                 continue
+            self.timestamp = datetime.now(tz=self.timezone())
             q = Query(
                 expression=expression,
                 sql=sql,
@@ -360,6 +360,7 @@ class Session(BaseSession):
         try:
             for k, v in assignments.items():
                 self.variables.set(k, v)
+            self.timestamp = self.timestamp.astimezone(self.timezone())
             return await q.next()
         finally:
             for k, v in orig.items():
-- 
2.43.0


From abd7a32ca203bc2c2bf566da8f4bc3f2c59c8403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 41/57] fix: hint names are case insensitive

---
 mysql_mimic/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 044a387..b99e643 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -344,7 +344,7 @@ class Session(BaseSession):
             set_var_hint = None
 
             for e in hint.expressions:
-                if isinstance(e, exp.Func) and e.name == "SET_VAR":
+                if isinstance(e, exp.Func) and e.name.upper() == "SET_VAR":
                     set_var_hint = e
                     for eq in e.expressions:
                         assignments[eq.left.name] = expression_to_value(eq.right)
-- 
2.43.0


From da9bfc15fc8015f3327d40abe4edfe43947045ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 42/57] fix: don't convert the values restored after a SET_VAR
 hint again

---
 mysql_mimic/session.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index b99e643..c9ed498 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -356,7 +356,8 @@ class Session(BaseSession):
             if not hint.expressions:
                 hint.pop()
 
-        orig = {k: self.variables.get(k) for k in assignments}
+        values = self.variables.values
+        orig = {k.lower(): values.get(k.lower(), DEFAULT) for k in assignments}
         try:
             for k, v in assignments.items():
                 self.variables.set(k, v)
@@ -364,7 +365,10 @@ class Session(BaseSession):
             return await q.next()
         finally:
             for k, v in orig.items():
-                self.variables.set(k, v)
+                if v is DEFAULT:
+                    values.pop(k, None)
+                else:
+                    values[k] = v
 
     async def _use_middleware(self, q: Query) -> AllowedResult:
         """Intercept USE statements"""
-- 
2.43.0


From 959f027355f8af1508c14c34f23753b9cf72048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 43/57] fix: SET GLOBAL TRANSACTION doesn't change the session

---
 mysql_mimic/session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index c9ed498..3609a12 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -618,6 +618,11 @@ class Session(BaseSession):
         self.variables.set("collation_connection", collation_name)
 
     def _set_transaction(self, item: exp.SetItem) -> None:
+        if item.args.get("global"):
+            raise MysqlError(
+                "Cannot SET TRANSACTION with scope GLOBAL",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         characteristics = [e.name.upper() for e in item.expressions]
         for characteristic in characteristics:
             variable, value = TRANSACTION_CHARACTERISTICS[characteristic]
-- 
2.43.0


From 2b7a04125f570344a69180d7ef1e275012057c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 44/57] fix: use the codecs of hp8, koi8r, koi8u, macce, ucs2,
 utf16, utf16le and utf32

---
 mysql_mimic/charset.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index 5e971a8..3c8cd3d 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -47,9 +47,7 @@ class CharacterSet(IntEnum):
 
     @property
     def codec(self) -> str:
-        if self.name == "utf8mb4":
-            return "utf8"
-        return self.name
+        return CODECS.get(self, self.name)
 
     @property
     def default_collation(self) -> Collation:
@@ -62,6 +60,21 @@ class CharacterSet(IntEnum):
         return s.encode(self.codec)
 
 
+# Codecs whose names differ from the ones of their character sets
+CODECS = {
+    CharacterSet.hp8: "hp_roman8",
+    CharacterSet.koi8r: "koi8_r",
+    CharacterSet.koi8u: "koi8_u",
+    CharacterSet.macce: "mac_latin2",
+    # Big endian, without byte order marks
+    CharacterSet.ucs2: "utf_16_be",
+    CharacterSet.utf16: "utf_16_be",
+    CharacterSet.utf16le: "utf_16_le",
+    CharacterSet.utf32: "utf_32_be",
+    CharacterSet.utf8mb4: "utf8",
+}
+
+
 class Collation(IntEnum):
     big5_chinese_ci = 1
     latin2_czech_cs = 2
-- 
2.43.0


From c9673b5ff36934b645cd85e4aa4ebc10f86a26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 45/57] fix: send error messages that can't be encoded in the
 results character set

---
 mysql_mimic/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 98aa7af..6463acb 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -165,7 +165,8 @@ def make_error(
         parts.append(str_fixed(1, b"#"))
         parts.append(str_fixed(5, get_sqlstate(code)))
 
-    parts.append(str_rest(server_charset.encode(str(msg))))
+    # Errors must always arrive
+    parts.append(str_rest(str(msg).encode(server_charset.codec, "replace")))
 
     return _concat(*parts)
 
-- 
2.43.0


From 9ff41c4b3f42db391a988f5ffacc7735bf5d314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 46/57] fix: match whole strings with LIKE, including empty
 patterns and ones with special characters

---
 mysql_mimic/schema.py  | 56 +++++++++++++++++++++++++++++++++---------
 mysql_mimic/session.py |  6 ++---
 2 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 5d7f587..6775625 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 from typing import Any, Optional, List, Dict, Iterable
 
 from sqlglot.executor import Table, execute
+from sqlglot.executor.env import ENV as EXECUTOR_ENV
 from sqlglot import expressions as exp
 
 from mysql_mimic.constants import INFO_SCHEMA
@@ -191,9 +192,9 @@ def show_statement_to_info_schema_query(
         db = show.text("db") or database
         if db:
             select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
+        like = show.args.get("like")
         if like:
-            select = select.where(f"column_name LIKE '{like}'")
+            select = select.where(exp.column("column_name").like(like))
     elif kind == "TABLES":
         outputs = ['table_name AS "Table_name"']
         if show.args.get("full"):
@@ -204,16 +205,16 @@ def show_statement_to_info_schema_query(
         if not db:
             raise MysqlError("No database selected.", code=ErrorCode.NO_DB_ERROR)
         select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
+        like = show.args.get("like")
         if like:
-            select = select.where(f"table_name LIKE '{like}'")
+            select = select.where(exp.column("table_name").like(like))
     elif kind == "DATABASES":
         select = exp.select('schema_name AS "Database"').from_(
             "information_schema.schemata"
         )
-        like = show.text("like")
+        like = show.args.get("like")
         if like:
-            select = select.where(f"schema_name LIKE '{like}'")
+            select = select.where(exp.column("schema_name").like(like))
     elif kind == "INDEX":
         outputs = [
             '"table_name" AS Table',
@@ -264,10 +265,29 @@ def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     return show.sql(dialect="mysql")
 
 
-def like_to_regex(like: str) -> re.Pattern:
-    like = like.replace("%", ".*?")
-    like = like.replace("_", ".")
-    return re.compile(like)
+def like_to_regex(like: str, escape: str = "\\") -> re.Pattern:
+    """Convert a LIKE pattern into a regex that matches the same (whole) strings"""
+    wildcards = {"%": ".*", "_": "."}
+    parts = []
+    chars = iter(like)
+    for char in chars:
+        if char == escape:
+            parts.append(re.escape(next(chars, char)))
+        else:
+            parts.append(wildcards.get(char) or re.escape(char))
+    return re.compile("".join(parts) + r"\Z", flags=re.DOTALL)
+
+
+def _like(this: Any, pattern: Any, escape: str = "\\") -> Optional[bool]:
+    if this is None or pattern is None:
+        return None
+    return bool(like_to_regex(str(pattern), escape).match(str(this)))
+
+
+# SQLGlot's executor evaluates function calls with the functions of this mapping.
+# Its own LIKE matches prefixes.
+LIKE_FUNCTION = "MYSQL_LIKE"
+EXECUTOR_ENV[LIKE_FUNCTION] = _like
 
 
 class BaseInfoSchema:
@@ -297,7 +317,7 @@ class InfoSchema(BaseInfoSchema):
         return cls(info_schema_tables(columns))
 
     def _preprocess(self, expression: exp.Expression) -> exp.Expression:
-        return expression.transform(_remove_collate)
+        return expression.transform(_remove_collate).transform(_replace_like)
 
 
 def ensure_info_schema(schema: dict | BaseInfoSchema) -> BaseInfoSchema:
@@ -315,3 +335,17 @@ def _remove_collate(node: exp.Expression) -> exp.Expression:
     if isinstance(node, exp.Collate):
         return node.left
     return node
+
+
+def _replace_like(node: exp.Expression) -> exp.Expression:
+    """Replace LIKE operators, which SQLGlot's executor implements differently"""
+    if isinstance(node, exp.Escape) and isinstance(node.this, exp.Like):
+        return exp.Anonymous(
+            this=LIKE_FUNCTION,
+            expressions=[node.this.this, node.this.expression, node.expression],
+        )
+    if isinstance(node, exp.Like):
+        return exp.Anonymous(
+            this=LIKE_FUNCTION, expressions=[node.this, node.expression]
+        )
+    return node
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 3609a12..a682058 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -630,9 +630,9 @@ class Session(BaseSession):
 
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
-        like = show.text("like")
-        if like:
-            rows = [(k, v) for k, v in rows if like_to_regex(like).match(k)]
+        if show.args.get("like"):
+            regex = like_to_regex(show.text("like"))
+            rows = [(k, v) for k, v in rows if regex.match(k)]
         return rows, ["Variable_name", "Value"]
 
     def _show_status(self, show: exp.Show) -> AllowedResult:
-- 
2.43.0


From 44c3aa2c928bdad656f1c31f387cf9cfb284f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 47/57] fix: list tables and databases whose names contain
 quotes

---
 mysql_mimic/schema.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 6775625..52ba60d 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -187,11 +187,11 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.columns")
-            .where(f"table_name = '{table}'")
+            .where(exp.column("table_name").eq(table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
+            select = select.where(exp.column("table_schema").eq(db))
         like = show.args.get("like")
         if like:
             select = select.where(exp.column("column_name").like(like))
@@ -204,7 +204,7 @@ def show_statement_to_info_schema_query(
         db = show.text("db") or database
         if not db:
             raise MysqlError("No database selected.", code=ErrorCode.NO_DB_ERROR)
-        select = select.where(f"table_schema = '{db}'")
+        select = select.where(exp.column("table_schema").eq(db))
         like = show.args.get("like")
         if like:
             select = select.where(exp.column("table_name").like(like))
@@ -242,11 +242,11 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.statistics")
-            .where(f"table_name = '{table}'")
+            .where(exp.column("table_name").eq(table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
+            select = select.where(exp.column("table_schema").eq(db))
     else:
         raise MysqlError(
             f"Unsupported SHOW command: {kind}", code=ErrorCode.NOT_SUPPORTED_YET
-- 
2.43.0


From 21afa716e324c5f68aaa942bddc5c8f652617298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 48/57] fix: respect the database and quoted names of DESCRIBE
 statements

---
 mysql_mimic/session.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index a682058..822e7ee 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -427,9 +427,14 @@ class Session(BaseSession):
             if not isinstance(q.expression.this, exp.Table):
                 # Mysql parse treats EXPLAIN SELECT as a DESCRIBE SELECT statement
                 return await q.next()
-            name = q.expression.this.name
-            show = self.dialect().parse(f"SHOW COLUMNS FROM {name}")[0]
-            return await self._show(show) if isinstance(show, exp.Show) else None
+            table = q.expression.this
+            return await self._show(
+                exp.Show(
+                    this="COLUMNS",
+                    target=table.this,
+                    db=table.args.get("db"),
+                )
+            )
         return await q.next()
 
     async def _rollback_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From 3f33e1ab1646c6b68176e7e9766c20b835e76d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:26 +0000
Subject: [PATCH 49/57] fix: list tables without columns and databases without
 tables

---
 mysql_mimic/schema.py | 39 ++++++++++++++++++++++++++++-----------
 mysql_mimic/utils.py  | 11 ++++-------
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 52ba60d..1acf6dd 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -4,7 +4,7 @@ import re
 from collections import defaultdict
 from itertools import chain
 from dataclasses import dataclass
-from typing import Any, Optional, List, Dict, Iterable
+from typing import Any, Optional, List, Dict, Iterable, Tuple
 
 from sqlglot.executor import Table, execute
 from sqlglot.executor.env import ENV as EXECUTOR_ENV
@@ -29,11 +29,11 @@ class Column:
     catalog: Optional[str] = "def"
 
 
-def mapping_to_columns(schema: dict) -> List[Column]:
-    """Convert a schema mapping into a list of Column instances"""
+def normalize_mapping(schema: dict) -> Dict[str, Dict[str, Dict[str, Dict[str, str]]]]:
+    """Convert a schema mapping into {catalog: {db: {table: {col: type}}}}"""
     depth = dict_depth(schema)
     if depth < 2:
-        return []
+        return {}
     if depth == 2:
         # {table: {col: type}}
         schema = {"": schema}
@@ -44,9 +44,13 @@ def mapping_to_columns(schema: dict) -> List[Column]:
         depth += 1
     if depth != 4:
         raise MysqlError("Invalid schema mapping")
+    return schema
+
 
+def mapping_to_columns(schema: dict) -> List[Column]:
+    """Convert a schema mapping into a list of Column instances"""
     result = []
-    for catalog, dbs in schema.items():
+    for catalog, dbs in normalize_mapping(schema).items():
         for db, tables in dbs.items():
             for table, cols in tables.items():
                 for column, coltype in cols.items():
@@ -63,11 +67,20 @@ def mapping_to_columns(schema: dict) -> List[Column]:
     return result
 
 
-def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]:
+def info_schema_tables(
+    columns: Iterable[Column],
+    all_tables: Iterable[Tuple[Optional[str], Optional[str], str]] = (),
+    all_dbs: Iterable[Tuple[Optional[str], Optional[str]]] = (),
+) -> Dict[str, Dict[str, Table]]:
     """
     Convert a list of Column instances into a mapping of SQLGlot Tables.
 
     These Tables are used by SQLGlot to execute INFORMATION_SCHEMA queries.
+
+    Args:
+        columns: all columns
+        all_tables: (catalog, db, table) of tables that might not have columns
+        all_dbs: (catalog, db) of databases that might not have tables
     """
     ordinal_positions: dict[Any, int] = defaultdict(lambda: 0)
 
@@ -76,16 +89,14 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
         for db, tables in INFO_SCHEMA.items()
     }
 
-    tables = set()
-    dbs = set()
-    catalogs = set()
+    tables = set(all_tables)
+    dbs = set(all_dbs)
 
     info_schema_cols = mapping_to_columns(INFO_SCHEMA)
 
     for column in chain(columns, info_schema_cols):
         tables.add((column.catalog, column.schema, column.table))
         dbs.add((column.catalog, column.schema))
-        catalogs.add(column.catalog)
         key = (column.catalog, column.schema, column.table)
         ordinal_position = ordinal_positions[key]
         ordinal_positions[key] += 1
@@ -313,8 +324,14 @@ class InfoSchema(BaseInfoSchema):
 
     @classmethod
     def from_mapping(cls, mapping: dict) -> InfoSchema:
+        all_tables = []
+        all_dbs = []
+        for catalog, dbs in normalize_mapping(mapping).items():
+            for db, tables in dbs.items():
+                all_dbs.append((catalog, db))
+                all_tables.extend((catalog, db, table) for table in tables)
         columns = mapping_to_columns(mapping)
-        return cls(info_schema_tables(columns))
+        return cls(info_schema_tables(columns, all_tables, all_dbs))
 
     def _preprocess(self, expression: exp.Expression) -> exp.Expression:
         return expression.transform(_remove_collate).transform(_replace_like)
diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 74ba004..1765aa1 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -100,19 +100,16 @@ def dict_depth(d: dict) -> int:
         2
         >>> dict_depth({"a": {"b": {}}})
         3
+        >>> dict_depth({"a": {}, "b": {"c": {}}})
+        3
     Args:
         d (dict): dictionary
     Returns:
         int: depth
     """
-    try:
-        return 1 + dict_depth(next(iter(d.values())))
-    except AttributeError:
-        # d doesn't have attribute "values"
+    if not hasattr(d, "values"):
         return 0
-    except StopIteration:
-        # d.values() returns an empty sequence
-        return 1
+    return 1 + max((dict_depth(v) for v in d.values()), default=0)
 
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
-- 
2.43.0


From fa2f32ad196dfa5b94a77d2fd42fa4ad2e9ab277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 50/57] fix: list the tables of schema mappings without
 databases in the default database

---
 mysql_mimic/schema.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 1acf6dd..b3087e7 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -155,6 +155,9 @@ def info_schema_tables(
         )
 
     for catalog, db in sorted(dbs):
+        if not db:
+            # Schema mapping without databases
+            continue
         data["information_schema"]["schemata"].append(
             (
                 catalog,  # catalog_name
@@ -202,7 +205,7 @@ def show_statement_to_info_schema_query(
         )
         db = show.text("db") or database
         if db:
-            select = select.where(exp.column("table_schema").eq(db))
+            select = select.where(_table_schema_condition(db, database))
         like = show.args.get("like")
         if like:
             select = select.where(exp.column("column_name").like(like))
@@ -215,7 +218,7 @@ def show_statement_to_info_schema_query(
         db = show.text("db") or database
         if not db:
             raise MysqlError("No database selected.", code=ErrorCode.NO_DB_ERROR)
-        select = select.where(exp.column("table_schema").eq(db))
+        select = select.where(_table_schema_condition(db, database))
         like = show.args.get("like")
         if like:
             select = select.where(exp.column("table_name").like(like))
@@ -257,7 +260,7 @@ def show_statement_to_info_schema_query(
         )
         db = show.text("db") or database
         if db:
-            select = select.where(exp.column("table_schema").eq(db))
+            select = select.where(_table_schema_condition(db, database))
     else:
         raise MysqlError(
             f"Unsupported SHOW command: {kind}", code=ErrorCode.NOT_SUPPORTED_YET
@@ -266,6 +269,14 @@ def show_statement_to_info_schema_query(
     return select
 
 
+def _table_schema_condition(db: str, default: Optional[str]) -> exp.Expression:
+    column = exp.column("table_schema")
+    if db == default and db.lower() not in INFO_SCHEMA:
+        # Tables of schema mappings without databases are in the default database
+        return column.isin(db, "")
+    return column.eq(db)
+
+
 def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     show = exp.Show(
         this="COLUMNS",
-- 
2.43.0


From 02f7b55723cc85a0baea47f8e2772dc452f2df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 51/57] fix: accept IN as a synonym of FROM in SHOW TABLES,
 SHOW COLUMNS and SHOW INDEX

---
 mysql_mimic/session.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 822e7ee..778b6d2 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -17,6 +17,7 @@ from sqlglot import Dialect
 from sqlglot.dialects import MySQL
 from sqlglot import expressions as exp
 from sqlglot.executor import execute
+from sqlglot.tokens import Token, TokenType
 
 from mysql_mimic.charset import CharacterSet
 from mysql_mimic.errors import ErrorCode, MysqlError
@@ -172,6 +173,19 @@ class MySQLDialect(MySQL):
     class Tokenizer(MySQL.Tokenizer):
         IDENTIFIER_ESCAPES = ["`"]
 
+    class Parser(MySQL.Parser):
+        def _parse_show_mysql(self, this: str, *args: Any, **kwargs: Any) -> exp.Show:
+            if this in {"COLUMNS", "INDEX", "TABLES"}:
+                # IN is a synonym of FROM, up to the filters
+                for i in range(self._index, len(self._tokens)):
+                    token_type = self._tokens[i].token_type
+                    if token_type in {TokenType.LIKE, TokenType.WHERE}:
+                        break
+                    if token_type == TokenType.IN:
+                        self._tokens[i] = Token(TokenType.FROM, "FROM")
+                self._advance(0)
+            return super()._parse_show_mysql(this, *args, **kwargs)
+
 
 class Session(BaseSession):
     """
-- 
2.43.0


From cdc97a60bb91c78825b21c041b5212d4d77c2ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 52/57] fix: answer COM_FIELD_LIST for tables whose names
 contain backquotes

---
 mysql_mimic/schema.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index b3087e7..427e130 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -278,13 +278,12 @@ def _table_schema_condition(db: str, default: Optional[str]) -> exp.Expression:
 
 
 def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
-    show = exp.Show(
-        this="COLUMNS",
-        target=exp.to_identifier(com_field_list.table),
-    )
+    table = com_field_list.table.replace("`", "``")
+    sql = f"SHOW COLUMNS FROM `{table}`"
     if com_field_list.wildcard:
-        show.set("like", exp.Literal.string(com_field_list.wildcard))
-    return show.sql(dialect="mysql")
+        wildcard = exp.Literal.string(com_field_list.wildcard)
+        sql += f" LIKE {wildcard.sql(dialect='mysql')}"
+    return sql
 
 
 def like_to_regex(like: str, escape: str = "\\") -> re.Pattern:
-- 
2.43.0


From 308db1c13c0618c4894ba512afa76e412aca3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:49 +0000
Subject: [PATCH 53/57] fix: apply all SET_VAR hints at once, so that those of
 outer query blocks win

---
 mysql_mimic/session.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 778b6d2..a639a22 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -355,23 +355,19 @@ class Session(BaseSession):
 
         # Iterate in reverse order so higher SET_VAR hints get priority
         for hint in reversed(list(hints)):
-            set_var_hint = None
-
-            for e in hint.expressions:
+            for e in list(hint.expressions):
                 if isinstance(e, exp.Func) and e.name.upper() == "SET_VAR":
-                    set_var_hint = e
+                    e.pop()
                     for eq in e.expressions:
-                        assignments[eq.left.name] = expression_to_value(eq.right)
-
-            if set_var_hint:
-                set_var_hint.pop()
+                        name = eq.left.name.lower()
+                        assignments[name] = expression_to_value(eq.right)
 
-            # Remove the hint entirely if SET_VAR was the only expression
+            # Remove the hint entirely if there were only SET_VAR expressions
             if not hint.expressions:
                 hint.pop()
 
         values = self.variables.values
-        orig = {k.lower(): values.get(k.lower(), DEFAULT) for k in assignments}
+        orig = {k: values.get(k, DEFAULT) for k in assignments}
         try:
             for k, v in assignments.items():
                 self.variables.set(k, v)
-- 
2.43.0


From eafc4dc6949e9e4d78585acfe5ae4c705ad11986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 54/57] fix: do not take long data of unknown parameters for
 query attributes

---
 mysql_mimic/packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 6463acb..2051cc0 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -536,6 +536,8 @@ def _interpolate_params(
     if parameter_count > 0:
         # When there are query attributes, they are combined with statement parameters.
         # The statement parameters will be first, query attributes second.
+        # Long data is for statement parameters only, never for query attributes.
+        buffers = {i: b for i, b in (buffers or {}).items() if i < stmt.num_params}
         params = _read_params(
             capabilities, client_charset, reader, parameter_count, buffers
         )
-- 
2.43.0


From 9156d26af4402b34bfa2f7b433efae8da5f3d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 55/57] fix: keep a server id of 0 instead of choosing a random
 one

---
 mysql_mimic/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/control.py b/mysql_mimic/control.py
index 8ef037c..81527bb 100644
--- a/mysql_mimic/control.py
+++ b/mysql_mimic/control.py
@@ -59,7 +59,9 @@ class LocalControl(Control):
     def __init__(self, server_id: Optional[int] = None):
         self._connection_seq = seq(self._MAX_CONNECTION_SEQ)
         self._connections: Dict[int, Connection] = {}
-        self.server_id = server_id or random.randint(0, self._MAX_SERVER_ID - 1)
+        if server_id is None:
+            server_id = random.randint(0, self._MAX_SERVER_ID - 1)
+        self.server_id = server_id
 
     async def add(self, connection: Connection) -> int:
         connection_id = self._new_connection_id()
-- 
2.43.0


From a0265b99a021ce5b6ed783993081a3a7fd2bc375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 56/57] fix: evaluate queries of clients without running
 arbitrary Python code or unbounded work

SQLGlot's executor evaluates a query as generated Python code: a client could call Python
builtins (and exit the server), and LIKE patterns, arithmetic, joins or nested queries
could block the event loop.
---
 mysql_mimic/executor.py | 299 ++++++++++++++++++++++++++++++++++++++++
 mysql_mimic/schema.py   |  46 +------
 mysql_mimic/session.py  |   6 +-
 3 files changed, 304 insertions(+), 47 deletions(-)
 create mode 100644 mysql_mimic/executor.py

diff --git a/mysql_mimic/executor.py b/mysql_mimic/executor.py
new file mode 100644
index 0000000..beca047
--- /dev/null
+++ b/mysql_mimic/executor.py
@@ -0,0 +1,299 @@
+"""
+Evaluation of queries with SQLGlot's executor.
+
+SQLGlot's executor compiles the expressions of a query into Python. Queries come from
+clients, so this makes sure that nothing but the functions of the executor's environment
+are evaluated, and that the evaluation of a small query doesn't take forever.
+"""
+
+from __future__ import annotations
+
+import ast
+import re
+from functools import wraps
+from types import CodeType
+from typing import Any, Callable, Dict, Iterator, List, Optional, Set, Tuple
+
+from sqlglot import expressions as exp
+from sqlglot.errors import ExecuteError
+from sqlglot.executor.env import ENV
+from sqlglot.executor.python import PythonExecutor
+from sqlglot.executor.table import Table, ensure_tables
+from sqlglot.optimizer import optimize
+from sqlglot.optimizer.merge_subqueries import merge_subqueries
+from sqlglot.optimizer.optimizer import RULES
+from sqlglot.planner import Plan, Step
+from sqlglot.schema import ensure_schema
+
+# Maximum number of rows of a single join or set operation
+MAX_ROWS = 250_000
+
+# Maximum length of concatenated strings
+MAX_STRING_LENGTH = 1 << 20
+
+# Maximum number of bits of integers in arithmetic
+MAX_INTEGER_BITS = 1 << 14
+
+# Python nodes that expressions consist of
+_NODES = {
+    *("Constant", "Num", "Str", "NameConstant", "Index", "Load"),
+    *("List", "Tuple", "Set", "IfExp"),
+    *("BoolOp", "And", "Or", "UnaryOp", "Not", "USub", "UAdd", "Invert"),
+    *("Compare", "Eq", "NotEq", "Lt", "LtE", "Gt", "GtE", "Is", "IsNot", "In", "NotIn"),
+}
+
+_DATA_TYPES = {f"exp.DataType.Type.{t.name}" for t in exp.DataType.Type}
+
+_EXTRACT_FIELDS = {
+    "year",
+    "month",
+    "day",
+    "hour",
+    "minute",
+    "second",
+    "microsecond",
+}
+
+# Merging nested queries that refer to a column several times grows exponentially
+_RULES = tuple(rule for rule in RULES if rule is not merge_subqueries)
+
+
+def like(this: Any, pattern: Any, escape: Any = "\\") -> Optional[bool]:
+    """Whether the (whole) string matches a LIKE pattern"""
+    if this is None or pattern is None:
+        return None
+    value = str(this)
+    first, *rest = _like_segments(str(pattern), escape)
+    if not rest:
+        return re.fullmatch(_segment_regex(first), value, re.DOTALL) is not None
+
+    # Between wildcards, the leftmost match of every segment is as good as any other
+    *middle, last = rest
+    start = len(first)
+    end = len(value) - len(last)
+    if start > end or not _segment_at(first, value, 0):
+        return False
+    for segment in middle:
+        if None in segment:
+            regex = re.compile(_segment_regex(segment), re.DOTALL)
+            match = regex.search(value, start, end)
+            if not match:
+                return False
+            start = match.end()
+        else:
+            text = "".join(char for char in segment if char)
+            position = value.find(text, start, end)
+            if position < 0:
+                return False
+            start = position + len(text)
+    return _segment_at(last, value, end)
+
+
+def _like_segments(pattern: str, escape: Optional[str]) -> list:
+    """Split a LIKE pattern at its "%". Its "_" become None."""
+    segments: list = [[]]
+    chars = iter(pattern)
+    for char in chars:
+        if char == escape:
+            segments[-1].append(next(chars, char))
+        elif char == "%":
+            segments.append([])
+        else:
+            segments[-1].append(None if char == "_" else char)
+    return segments
+
+
+def _segment_regex(segment: list) -> str:
+    return "".join("." if char is None else re.escape(char) for char in segment)
+
+
+def _segment_at(segment: list, value: str, position: int) -> bool:
+    return all(
+        char is None or char == value[i] for i, char in enumerate(segment, position)
+    )
+
+
+def _numeric(func: Callable) -> Callable:
+    """Decorate arithmetic such that its operands are neither sequences nor huge"""
+
+    @wraps(func)
+    def _func(*args: Any) -> Any:
+        for arg in args:
+            if isinstance(arg, (str, bytes, list, tuple, dict, set)):
+                raise TypeError(f"Not a number: {arg!r:.100}")
+            if isinstance(arg, int) and arg.bit_length() > MAX_INTEGER_BITS:
+                raise OverflowError("Number is out of range")
+        if any(arg is None for arg in args):
+            return None
+        return func(*args)
+
+    return _func
+
+
+def _limited(func: Callable) -> Callable:
+    """Decorate a string function such that its arguments are not huge"""
+
+    @wraps(func)
+    def _func(*args: Any) -> Any:
+        if sum(len(arg) for arg in args if isinstance(arg, str)) > MAX_STRING_LENGTH:
+            raise OverflowError("String is too long")
+        return func(*args)
+
+    return _func
+
+
+def _pow(this: Any, e: Any) -> Any:
+    if isinstance(this, int) and isinstance(e, int) and e >= 0:
+        if this.bit_length() * e <= MAX_INTEGER_BITS:
+            return this**e
+        this = float(this)
+    return this**e
+
+
+def _shift_left(this: Any, e: Any) -> Any:
+    # Same as in MySQL, integers have 64 bits
+    return this << e & 0xFFFFFFFFFFFFFFFF if 0 <= e < 64 else 0
+
+
+def _round(this: Any, decimals: Any = None, *_: Any) -> Any:
+    if decimals is not None:
+        decimals = max(-400, min(400, decimals))
+    return round(this, ndigits=decimals)
+
+
+def _extract(this: Any, e: Any) -> Any:
+    if e is None:
+        return None
+    if this not in _EXTRACT_FIELDS:
+        raise ValueError(f"Unsupported field: {this!r:.100}")
+    return getattr(e, this)
+
+
+class Executor(PythonExecutor):
+    """SQLGlot executor for queries of clients"""
+
+    FUNCTIONS: Dict[str, Callable] = {
+        "ADD": _numeric(ENV["ADD"]),
+        "CONCAT": _limited(ENV["CONCAT"]),
+        "CONCATWS": _limited(ENV["CONCATWS"]),
+        "EXTRACT": _extract,
+        "LIKE": like,
+        "MOD": _numeric(ENV["MOD"]),
+        "MUL": _numeric(ENV["MUL"]),
+        "POW": _numeric(_pow),
+        "BITWISELEFTSHIFT": _numeric(_shift_left),
+        "SAFECONCAT": _limited(ENV["SAFECONCAT"]),
+        "ROUND": lambda this, *args: None if this is None else _round(this, *args),
+    }
+    BUILTINS = {"int": int, "set": set}
+
+    def __init__(self, tables: Any = None):
+        super().__init__(
+            env={**self.FUNCTIONS, "__builtins__": self.BUILTINS}, tables=tables
+        )
+        self._names = {"scope", *self.env, *self.BUILTINS} - {"exp", "__builtins__"}
+
+    def generate(self, expression: Any) -> Optional[CodeType]:
+        if not expression:
+            return None
+        tree = ast.parse(self.generator.generate(expression), mode="eval")
+        self._validate(tree.body)
+        return compile(tree, "<sql>", "eval", optimize=2)
+
+    def _validate(self, tree: ast.AST) -> None:
+        """Make sure that this code, which contains parts of the query, is harmless"""
+        todo: List[Tuple[ast.AST, Set[str]]] = [(tree, self._names)]
+        while todo:
+            node, names = todo.pop()
+            children = list(ast.iter_child_nodes(node))
+            if isinstance(node, ast.Call):
+                valid = isinstance(node.func, ast.Name) and not node.keywords
+            elif isinstance(node, ast.Name):
+                valid = node.id in names
+            elif isinstance(node, ast.Attribute):
+                # Arguments of CAST
+                valid = _dotted_name(node) in _DATA_TYPES
+                children = []
+            elif isinstance(node, ast.Subscript):
+                # Columns
+                value = node.value
+                value = value.value if isinstance(value, ast.Subscript) else value
+                valid = isinstance(value, ast.Name) and value.id == "scope"
+            elif isinstance(node, ast.Lambda):
+                params = {arg.arg for arg in node.args.args}
+                valid = len(params) == len(list(ast.iter_child_nodes(node.args)))
+                names = names | params
+                children = [node.body]
+            else:
+                valid = type(node).__name__ in _NODES
+            if not valid:
+                raise ExecuteError("Unsupported expression")
+            todo.extend((child, names) for child in children)
+
+    def scan_csv(self, step: Step) -> Iterator:
+        raise ExecuteError("Reading files is not supported")
+
+    def nested_loop_join(self, join: Any, source_context: Any, join_context: Any) -> Table:
+        self._check_rows(len(source_context.table) * len(join_context.table))
+        return super().nested_loop_join(join, source_context, join_context)
+
+    def hash_join(self, join: Any, source_context: Any, join_context: Any) -> Table:
+        source_key = self.generate_tuple(join["source_key"])
+        join_key = self.generate_tuple(join["join_key"])
+        counts: Dict[Any, int] = {}
+        for _, ctx in join_context:
+            key = ctx.eval_tuple(join_key)
+            counts[key] = counts.get(key, 0) + 1
+        self._check_rows(
+            sum(counts.get(ctx.eval_tuple(source_key), 0) for _, ctx in source_context)
+        )
+        return super().hash_join(join, source_context, join_context)
+
+    def set_operation(self, step: Step, context: Any) -> Any:
+        tables = context.tables
+        self._check_rows(len(tables[step.left]) + len(tables[step.right]))
+        return super().set_operation(step, context)
+
+    def _check_rows(self, count: int) -> None:
+        if count > MAX_ROWS:
+            raise ExecuteError("The query would produce too many rows")
+
+
+def _dotted_name(node: ast.AST) -> str:
+    if isinstance(node, ast.Attribute):
+        return f"{_dotted_name(node.value)}.{node.attr}"
+    return node.id if isinstance(node, ast.Name) else ""
+
+
+def _replace_like(node: exp.Expression) -> exp.Expression:
+    """Replace LIKE ... ESCAPE, which SQLGlot's executor doesn't support"""
+    if isinstance(node, exp.Escape) and isinstance(node.this, exp.Like):
+        return exp.Anonymous(
+            this="LIKE",
+            expressions=[node.this.this, node.this.expression, node.expression],
+        )
+    return node
+
+
+def execute(
+    expression: exp.Expression,
+    schema: Optional[dict] = None,
+    tables: Optional[dict] = None,
+) -> Table:
+    """
+    Same as SQLGlot's function of that name, for queries of clients.
+
+    Args:
+        expression: query
+        schema: column types of the tables
+        tables: contents of the tables
+    """
+    tables_ = ensure_tables(tables)
+    schema_ = ensure_schema(schema or {})
+    expression = optimize(
+        expression.transform(_replace_like),
+        schema_,
+        leave_tables_isolated=True,
+        rules=_RULES,
+    )
+    return Executor(tables=tables_).execute(Plan(expression))
diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 427e130..3e85b08 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -1,16 +1,15 @@
 from __future__ import annotations
 
-import re
 from collections import defaultdict
 from itertools import chain
 from dataclasses import dataclass
 from typing import Any, Optional, List, Dict, Iterable, Tuple
 
-from sqlglot.executor import Table, execute
-from sqlglot.executor.env import ENV as EXECUTOR_ENV
+from sqlglot.executor import Table
 from sqlglot import expressions as exp
 
 from mysql_mimic.constants import INFO_SCHEMA
+from mysql_mimic.executor import execute
 from mysql_mimic.results import AllowedResult
 from mysql_mimic.errors import MysqlError, ErrorCode
 from mysql_mimic.packets import ComFieldList
@@ -286,31 +285,6 @@ def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     return sql
 
 
-def like_to_regex(like: str, escape: str = "\\") -> re.Pattern:
-    """Convert a LIKE pattern into a regex that matches the same (whole) strings"""
-    wildcards = {"%": ".*", "_": "."}
-    parts = []
-    chars = iter(like)
-    for char in chars:
-        if char == escape:
-            parts.append(re.escape(next(chars, char)))
-        else:
-            parts.append(wildcards.get(char) or re.escape(char))
-    return re.compile("".join(parts) + r"\Z", flags=re.DOTALL)
-
-
-def _like(this: Any, pattern: Any, escape: str = "\\") -> Optional[bool]:
-    if this is None or pattern is None:
-        return None
-    return bool(like_to_regex(str(pattern), escape).match(str(this)))
-
-
-# SQLGlot's executor evaluates function calls with the functions of this mapping.
-# Its own LIKE matches prefixes.
-LIKE_FUNCTION = "MYSQL_LIKE"
-EXECUTOR_ENV[LIKE_FUNCTION] = _like
-
-
 class BaseInfoSchema:
     """
     Base InfoSchema interface used by the `Session` class.
@@ -344,7 +318,7 @@ class InfoSchema(BaseInfoSchema):
         return cls(info_schema_tables(columns, all_tables, all_dbs))
 
     def _preprocess(self, expression: exp.Expression) -> exp.Expression:
-        return expression.transform(_remove_collate).transform(_replace_like)
+        return expression.transform(_remove_collate)
 
 
 def ensure_info_schema(schema: dict | BaseInfoSchema) -> BaseInfoSchema:
@@ -362,17 +336,3 @@ def _remove_collate(node: exp.Expression) -> exp.Expression:
     if isinstance(node, exp.Collate):
         return node.left
     return node
-
-
-def _replace_like(node: exp.Expression) -> exp.Expression:
-    """Replace LIKE operators, which SQLGlot's executor implements differently"""
-    if isinstance(node, exp.Escape) and isinstance(node.this, exp.Like):
-        return exp.Anonymous(
-            this=LIKE_FUNCTION,
-            expressions=[node.this.this, node.this.expression, node.expression],
-        )
-    if isinstance(node, exp.Like):
-        return exp.Anonymous(
-            this=LIKE_FUNCTION, expressions=[node.this, node.expression]
-        )
-    return node
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index a639a22..5478fad 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -16,11 +16,11 @@ from typing import (
 from sqlglot import Dialect
 from sqlglot.dialects import MySQL
 from sqlglot import expressions as exp
-from sqlglot.executor import execute
 from sqlglot.tokens import Token, TokenType
 
 from mysql_mimic.charset import CharacterSet
 from mysql_mimic.errors import ErrorCode, MysqlError
+from mysql_mimic.executor import execute, like
 from mysql_mimic.intercept import (
     is_command,
     setitem_kind,
@@ -30,7 +30,6 @@ from mysql_mimic.intercept import (
 )
 from mysql_mimic.schema import (
     show_statement_to_info_schema_query,
-    like_to_regex,
     BaseInfoSchema,
     ensure_info_schema,
 )
@@ -646,8 +645,7 @@ class Session(BaseSession):
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
         if show.args.get("like"):
-            regex = like_to_regex(show.text("like"))
-            rows = [(k, v) for k, v in rows if regex.match(k)]
+            rows = [(k, v) for k, v in rows if like(k, show.text("like"))]
         return rows, ["Variable_name", "Value"]
 
     def _show_status(self, show: exp.Show) -> AllowedResult:
-- 
2.43.0


From fb191876523083ce6339611aa942024cac3379f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 57/57] fix: send numeric timestamps in date columns as dates
 in the text protocol too

The binary protocol already converted them.
---
 mysql_mimic/results.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 0088e4d..ee021f8 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -334,6 +334,14 @@ def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, val)
 
 
+def _text_encode_date(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, (float, int)):
+        val = datetime.fromtimestamp(val)
+        if col.type == ColumnType.DATE:
+            val = val.date()
+    return _text_encode_str(col, val)
+
+
 def _bit_to_bytes(val: Any) -> Any:
     """BIT values are big-endian byte strings, in both protocols"""
     if isinstance(val, int):
@@ -380,12 +388,12 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.FLOAT: _text_encode_number,
     ColumnType.DOUBLE: _text_encode_number,
     ColumnType.NULL: _unsupported,
-    ColumnType.TIMESTAMP: _text_encode_str,
+    ColumnType.TIMESTAMP: _text_encode_date,
     ColumnType.LONGLONG: _text_encode_number,
     ColumnType.INT24: _text_encode_number,
-    ColumnType.DATE: _text_encode_str,
+    ColumnType.DATE: _text_encode_date,
     ColumnType.TIME: _text_encode_timedelta,
-    ColumnType.DATETIME: _text_encode_str,
+    ColumnType.DATETIME: _text_encode_date,
     ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
-- 
2.43.0

