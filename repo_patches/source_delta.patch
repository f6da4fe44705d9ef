From 7cc586f422fe622c405dea3961a1d2fd17b0d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 01/46] fix: reject truncated and unterminated strings in
 packets instead of looping or accepting them

read_str_null() never returned when the terminator was missing (the whole
server hung), and read_str_fixed() silently accepted short data.
---
 mysql_mimic/types.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index 81b2e67..f70ef12 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -4,6 +4,8 @@ import struct
 
 from enum import IntEnum, IntFlag, auto
 
+from mysql_mimic.errors import MysqlError, ErrorCode
+
 
 class ColumnType(IntEnum):
     DECIMAL = 0x00
@@ -308,16 +310,17 @@ def read_uint_len(reader: io.BytesIO) -> int:
 
 
 def read_str_fixed(reader: io.BytesIO, l: int) -> bytes:
+    if l > _remaining(reader):
+        raise MysqlError("Malformed packet", ErrorCode.MALFORMED_PACKET)
     return reader.read(l)
 
 
 def read_str_null(reader: io.BytesIO) -> bytes:
-    data = b""
-    while True:
-        b = reader.read(1)
-        if b == b"\x00":
-            return data
-        data += b
+    data, terminator, rest = reader.read().partition(b"\x00")
+    if not terminator:
+        raise MysqlError("Malformed packet", ErrorCode.MALFORMED_PACKET)
+    reader.seek(-len(rest), io.SEEK_CUR)
+    return data
 
 
 def read_str_len(reader: io.BytesIO) -> bytes:
@@ -329,6 +332,10 @@ def read_str_rest(reader: io.BytesIO) -> bytes:
     return reader.read()
 
 
+def _remaining(reader: io.BytesIO) -> int:
+    return len(reader.getbuffer()) - reader.tell()
+
+
 def peek(reader: io.BytesIO, num_bytes: int = 1) -> bytes:
     pos = reader.tell()
     val = reader.read(num_bytes)
-- 
2.43.0


From dd54cb57d27c1aa371f127d2030bf73676fe2349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 02/46] fix: end the connection after failed authentication

authenticate() wrote an ERR packet for unknown users and rejected
credentials and returned, after which the session was initialised and the
command phase served the client; a failed COM_CHANGE_USER likewise left
the connection usable.
---
 mysql_mimic/connection.py | 47 +++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 5160192..97e1d40 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -33,6 +33,10 @@ from mysql_mimic.utils import seq, aiterate, cooperative_iterate
 logger = logging.getLogger(__name__)
 
 
+class AuthenticationFailed(MysqlError):
+    """The client failed to authenticate, so the connection must not be used any further."""
+
+
 class Connection:
     _MAX_PREPARED_STMT_ID = 2**32
 
@@ -96,6 +100,9 @@ class Connection:
         try:
             await self.connection_phase()
             await self.session.init(self)
+        except AuthenticationFailed as e:
+            await self.stream.write(self.error(msg=e.msg, code=e.code))
+            return
         except Exception as e:
             await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
             raise
@@ -187,12 +194,18 @@ class Connection:
         if com_change_user.connect_attrs:
             self.client_connect_attrs = com_change_user.connect_attrs
 
-        await self.authenticate(
-            username=com_change_user.username,
-            auth_response=com_change_user.auth_response,
-            client_plugin_name=com_change_user.client_plugin,
-            connect_attrs=com_change_user.connect_attrs,
-        )
+        try:
+            await self.authenticate(
+                username=com_change_user.username,
+                auth_response=com_change_user.auth_response,
+                client_plugin_name=com_change_user.client_plugin,
+                connect_attrs=com_change_user.connect_attrs,
+            )
+        except (AuthenticationFailed, ConnectionClosed):
+            raise
+        except Exception as e:
+            logger.exception(e)
+            raise AuthenticationFailed(str(e)) from e
 
         await self.session.reset()
 
@@ -208,13 +221,10 @@ class Connection:
         user = await self.identity_provider.get_user(username)
 
         if not user:
-            await self.stream.write(
-                self.error(
-                    msg=f"User {username} does not exist",
-                    code=ErrorCode.USER_DOES_NOT_EXIST,
-                )
+            raise AuthenticationFailed(
+                f"User {username} does not exist",
+                code=ErrorCode.USER_DOES_NOT_EXIST,
             )
-            return
 
         user_plugin = (
             self.identity_provider.get_plugin(user.auth_plugin or "")
@@ -278,11 +288,9 @@ class Connection:
                 auth_info.user.name,
                 user_plugin.name,
             )
-            await self.stream.write(
-                self.error(
-                    msg=decision.msg or f"Access denied for user {auth_info.user.name}",
-                    code=ErrorCode.ACCESS_DENIED_ERROR,
-                )
+            raise AuthenticationFailed(
+                decision.msg or f"Access denied for user {auth_info.user.name}",
+                code=ErrorCode.ACCESS_DENIED_ERROR,
             )
 
     async def command_phase(self) -> None:
@@ -331,6 +339,11 @@ class Connection:
                         ErrorCode.UNKNOWN_COM_ERROR,
                     )
 
+            except AuthenticationFailed as e:
+                # A failed COM_CHANGE_USER ends the connection
+                logger.error(e)
+                await self.stream.write(self.error(msg=e.msg, code=e.code))
+                return
             except MysqlError as e:
                 logger.error(e)
                 await self.stream.write(self.error(msg=e.msg, code=e.code))
-- 
2.43.0


From a3b53621569d67c7c01a9bcf0a69ba362462d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 03/46] fix: refuse native password responses shorter than a
 scramble

---
 mysql_mimic/auth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysql_mimic/auth.py b/mysql_mimic/auth.py
index a6e07fd..268f2b0 100644
--- a/mysql_mimic/auth.py
+++ b/mysql_mimic/auth.py
@@ -162,6 +162,8 @@ class NativePasswordAuthPlugin(AuthPlugin):
         # auth_string should be:
         #   SHA1(SHA1(password))
         try:
+            if len(scramble) < 20:
+                return False
             sha1_sha1_password = bytes.fromhex(auth_string or "")
             sha1_sha1_with_nonce = sha1(nonce + sha1_sha1_password).digest()
             rcvd_sha1_password = utils.xor(scramble, sha1_sha1_with_nonce)
-- 
2.43.0


From d0ff6796155efed69eacde5945083fb6f4e0093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 04/46] fix: hand the transport its own copy of the write
 buffer

With a slow client the transport keeps a view of the buffer, so clearing it raised BufferError.
---
 mysql_mimic/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index ed8c280..1c25c08 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -71,7 +71,8 @@ class MysqlStream:
 
     async def drain(self) -> None:
         if self._buffer:
-            self.writer.write(self._buffer)
+            # The transport may hold on to a view of what it is given
+            self.writer.write(bytes(self._buffer))
             self._buffer.clear()
         await self.writer.drain()
 
-- 
2.43.0


From 378201797ab1b439b47d68649b6ec8de2c98b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 05/46] fix: send each COM_FIELD_LIST column definition in its
 own packet

---
 mysql_mimic/connection.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 97e1d40..2b29e35 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -406,19 +406,18 @@ class Connection:
         com_field_list = parse_com_field_list(self.client_charset, data)
         sql = com_field_list_to_show_statement(com_field_list)
         result = await self.query(sql=sql, query_attrs={})
-        columns = b"".join(
-            [
-                make_column_definition_41(
-                    server_charset=self.server_charset,
-                    table=com_field_list.table,
-                    name=row[0],
-                    is_com_field_list=True,
-                    default=row[4],
-                )
-                async for row in aiterate(result.rows)
-            ]
-        )
-        await self.stream.write(columns)
+        columns = [
+            make_column_definition_41(
+                server_charset=self.server_charset,
+                table=com_field_list.table,
+                name=row[0],
+                is_com_field_list=True,
+                default=row[4],
+            )
+            async for row in aiterate(result.rows)
+        ]
+        for column in columns:
+            await self.stream.write(column, drain=False)
         await self.stream.write(self.ok_or_eof())
 
     async def handle_query(self, data: bytes) -> None:
-- 
2.43.0


From 62318dfdafaa117ba72ccfb865e2f5f0275a62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 06/46] fix: no metadata EOF after prepare parameters when the
 client negotiated DEPRECATE_EOF

---
 mysql_mimic/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 2b29e35..f9b9374 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -672,4 +672,5 @@ class Connection:
                 yield packets.make_column_definition_41(
                     server_charset=self.server_charset, name="?"
                 )
-            yield self.eof()
+            if not self.deprecate_eof():
+                yield self.eof()
-- 
2.43.0


From 94e1bbc3250351a4c0dd15db2dcc2d44ef75405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 07/46] fix: answer COM_DEBUG with an EOF packet

---
 mysql_mimic/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index f9b9374..c535fcc 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -396,7 +396,7 @@ class Connection:
 
         For now, we're just treating this like a no-op.
         """
-        await self.stream.write(self.ok())
+        await self.stream.write(self.ok_or_eof())
 
     async def handle_init_db(self, data: bytes) -> None:
         await self.session.use(parse_com_init_db(self.client_charset, data))
-- 
2.43.0


From 87a0c3c35e72bd4e4a9822412472db531cabd53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 08/46] fix: never respond to COM_STMT_SEND_LONG_DATA and
 COM_STMT_CLOSE

---
 mysql_mimic/connection.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index c535fcc..c31434c 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -33,6 +33,13 @@ from mysql_mimic.utils import seq, aiterate, cooperative_iterate
 logger = logging.getLogger(__name__)
 
 
+# Clients never read a response to these commands, not even an error
+_NO_RESPONSE_COMMANDS = {
+    types.Commands.COM_STMT_SEND_LONG_DATA,
+    types.Commands.COM_STMT_CLOSE,
+}
+
+
 class AuthenticationFailed(MysqlError):
     """The client failed to authenticate, so the connection must not be used any further."""
 
@@ -301,8 +308,8 @@ class Connection:
             except ConnectionClosed:
                 logger.info("Connection closed")
                 return
+            command = data[0] if data else None
             try:
-                command = data[0]
                 rest = data[1:]
 
                 if command == types.Commands.COM_QUERY:
@@ -335,7 +342,7 @@ class Connection:
                     await self.handle_field_list(rest)
                 else:
                     raise MysqlError(
-                        f"Unsupported Command: {hex(command)}",
+                        f"Unsupported Command: {data[:1].hex()}",
                         ErrorCode.UNKNOWN_COM_ERROR,
                     )
 
@@ -346,7 +353,8 @@ class Connection:
                 return
             except MysqlError as e:
                 logger.error(e)
-                await self.stream.write(self.error(msg=e.msg, code=e.code))
+                if command not in _NO_RESPONSE_COMMANDS:
+                    await self.stream.write(self.error(msg=e.msg, code=e.code))
             except asyncio.CancelledError:
                 if self._kill == KillKind.QUERY:
                     logger.info("Query killed on connection %s", self.connection_id)
@@ -362,7 +370,8 @@ class Connection:
                     raise
             except Exception as e:  # pylint: disable=broad-except
                 logger.exception(e)
-                await self.stream.write(self.error(msg=e))
+                if command not in _NO_RESPONSE_COMMANDS:
+                    await self.stream.write(self.error(msg=e))
             finally:
                 self.stream.reset_seq()
 
-- 
2.43.0


From 015959bb511d7a7aacd39e67d90756a89aa7e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 09/46] fix: acknowledge COM_CHANGE_USER only after the session
 was reset

A failing reset was reported as an ERR packet following the OK packet.
---
 mysql_mimic/connection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index c31434c..52b0d41 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -181,6 +181,7 @@ class Connection:
             auth_response=response.auth_response,
             connect_attrs=response.connect_attrs,
         )
+        await self.stream.write(self.ok())
         self.stream.reset_seq()
 
     async def handle_change_user(self, data: bytes) -> None:
@@ -208,13 +209,14 @@ class Connection:
                 client_plugin_name=com_change_user.client_plugin,
                 connect_attrs=com_change_user.connect_attrs,
             )
+            await self.session.reset()
         except (AuthenticationFailed, ConnectionClosed):
             raise
         except Exception as e:
             logger.exception(e)
             raise AuthenticationFailed(str(e)) from e
 
-        await self.session.reset()
+        await self.stream.write(self.ok())
 
     async def authenticate(
         self,
@@ -288,7 +290,6 @@ class Connection:
 
         if isinstance(decision, Success):
             self.session.username = decision.authenticated_as
-            await self.stream.write(self.ok())
         else:
             logger.info(
                 "Access denied for user '%s' with plugin '%s'",
-- 
2.43.0


From da1e03af96d962636c0af5086cabff122c34bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 10/46] fix: always produce an ERR packet, whatever the error
 message contains

---
 mysql_mimic/charset.py | 4 ++--
 mysql_mimic/packets.py | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index 5e971a8..7e29235 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -58,8 +58,8 @@ class CharacterSet(IntEnum):
     def decode(self, b: bytes) -> str:
         return b.decode(self.codec)
 
-    def encode(self, s: str) -> bytes:
-        return s.encode(self.codec)
+    def encode(self, s: str, errors: str = "strict") -> bytes:
+        return s.encode(self.codec, errors)
 
 
 class Collation(IntEnum):
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 19604d0..1c33e1c 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -165,7 +165,13 @@ def make_error(
         parts.append(str_fixed(1, b"#"))
         parts.append(str_fixed(5, get_sqlstate(code)))
 
-    parts.append(str_rest(server_charset.encode(str(msg))))
+    try:
+        text = str(msg)
+    except Exception:  # pylint: disable=broad-except
+        text = type(msg).__name__
+
+    # An error must reach the client even if its text isn't representable
+    parts.append(str_rest(server_charset.encode(text, errors="replace")))
 
     return _concat(*parts)
 
-- 
2.43.0


From c1c29052f350a02ff6261a6194279d054c300e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 11/46] fix: read packet headers that arrive in several network
 reads

---
 mysql_mimic/stream.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 1c25c08..f6839a9 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -27,7 +27,7 @@ class MysqlStream:
     async def read(self) -> bytes:
         data = b""
         while True:
-            header = await self.reader.read(4)
+            header = await self._read_exactly(4)
 
             if not header:
                 raise ConnectionClosed()
@@ -46,11 +46,17 @@ class MysqlStream:
             if payload_length == 0:
                 return data
 
-            data += await self.reader.readexactly(payload_length)
+            data += await self._read_exactly(payload_length)
 
             if payload_length < 0xFFFFFF:
                 return data
 
+    async def _read_exactly(self, n: int) -> bytes:
+        try:
+            return await self.reader.readexactly(n)
+        except asyncio.IncompleteReadError as e:
+            raise ConnectionClosed() from e
+
     async def write(self, data: bytes, drain: bool = True) -> None:
         while True:
             # Grab first 0xFFFFFF bytes to send
-- 
2.43.0


From 5792787c965c40adf6899c998bd3c81cec1bae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 12/46] fix: COM_STMT_FETCH lost the row following every filled
 fetch

Also discard a cursor that failed or was replaced by re-executing its statement.
---
 mysql_mimic/connection.py | 20 ++++++++++++++------
 mysql_mimic/prepared.py   |  4 ++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 52b0d41..b234c70 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -504,6 +504,7 @@ class Connection:
         )
 
         com_stmt_execute.stmt.param_buffers = None
+        com_stmt_execute.stmt.cursor = None
 
         result_set = await self.query(
             com_stmt_execute.sql, com_stmt_execute.query_attrs
@@ -555,12 +556,19 @@ class Connection:
         assert stmt.cursor is not None
         count = 0
 
-        async for packet in cooperative_iterate(stmt.cursor):
-            if count >= com_stmt_fetch.num_rows:
-                break
-            await self.stream.write(packet, drain=False)
-            count += 1
-        await self.stream.drain()
+        try:
+            while count < com_stmt_fetch.num_rows:
+                try:
+                    packet = await stmt.cursor.__anext__()
+                except StopAsyncIteration:
+                    break
+                await self.stream.write(packet, drain=False)
+                count += 1
+            await self.stream.drain()
+        except BaseException:
+            # The position within the result is lost, so the cursor is unusable
+            stmt.cursor = None
+            raise
 
         done = count < com_stmt_fetch.num_rows
 
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 925efba..15867c4 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,6 +1,6 @@
 import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterable
+from typing import Optional, Dict, AsyncIterator
 
 # Borrowed from mysql-connector-python
 REGEX_PARAM = re.compile(r"""\?(?=(?:[^"'`]*["'`][^"'`]*["'`])*[^"'`]*$)""")
@@ -12,4 +12,4 @@ class PreparedStatement:
     sql: str
     num_params: int
     param_buffers: Optional[Dict[int, bytearray]] = None
-    cursor: Optional[AsyncIterable[bytes]] = None
+    cursor: Optional[AsyncIterator[bytes]] = None
-- 
2.43.0


From 8399bf02d2af4fd9c58e8c1e10e1be62ab11d236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 13/46] fix: bind prepared statement parameters as escaped
 literals in one pass

Quotes and backslashes in values ended or altered their literal, question marks in values were
taken for later placeholders, and question marks in mixed or escaped quotes and comments were
miscounted (in quadratic time).
---
 mysql_mimic/connection.py |  4 ++--
 mysql_mimic/packets.py    | 42 +++++++++++++++++++++++++++++++++++----
 mysql_mimic/prepared.py   | 27 ++++++++++++++++++++++---
 3 files changed, 64 insertions(+), 9 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index b234c70..506d59f 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -21,7 +21,7 @@ from mysql_mimic.packets import (
     parse_com_field_list,
     make_column_definition_41,
 )
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, find_params
 from mysql_mimic.results import ensure_result_set, ResultSet
 from mysql_mimic import types, packets, context
 from mysql_mimic.schema import com_field_list_to_show_statement
@@ -462,7 +462,7 @@ class Connection:
         sql = self.client_charset.decode(data)
 
         stmt_id = next(self.prepared_stmt_seq)
-        num_params = len(REGEX_PARAM.findall(sql))
+        num_params = len(find_params(sql))
 
         stmt = PreparedStatement(
             stmt_id=stmt_id,
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 1c33e1c..fcf89b6 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -1,11 +1,12 @@
 import io
+import math
 from dataclasses import dataclass, field
 from typing import Optional, Dict, Any, Sequence, Callable, Tuple, List, Union
 
 from mysql_mimic.charset import Collation, CharacterSet
 from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
 from mysql_mimic.errors import ErrorCode, get_sqlstate, MysqlError
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, find_params
 from mysql_mimic.results import NullBitmap, ResultColumn
 from mysql_mimic.types import (
     Capabilities,
@@ -535,17 +536,50 @@ def _interpolate_params(
             capabilities, client_charset, reader, parameter_count, stmt.param_buffers
         )
 
-        for _, value in params[: stmt.num_params]:
-            sql = REGEX_PARAM.sub(_encode_param_as_sql(value), sql, 1)
+        sql = _bind_params(sql, [value for _, value in params[: stmt.num_params]])
 
         query_attrs = {k: v for k, v in params[stmt.num_params :] if k is not None}
 
+    if parameter_count < stmt.num_params:
+        raise MysqlError(
+            f"Statement requires {stmt.num_params} parameters, got {parameter_count}",
+            ErrorCode.MALFORMED_PACKET,
+        )
+
     return sql, query_attrs
 
 
+def _bind_params(sql: str, params: Sequence[Any]) -> str:
+    parts = []
+    end = 0
+
+    for position, param in zip(find_params(sql), params):
+        literal = _encode_param_as_sql(param)
+        before = sql[max(position - 1, 0) : position]
+        after = sql[position + 1 : position + 2]
+        parts.append(sql[end:position])
+        # Keep the literal from merging with an adjacent token, e.g. "1-?" or "?AND"
+        if before == "-" or _is_token_char(before):
+            parts.append(" ")
+        parts.append(literal)
+        if _is_token_char(after):
+            parts.append(" ")
+        end = position + 1
+
+    parts.append(sql[end:])
+    return "".join(parts)
+
+
+def _is_token_char(char: str) -> bool:
+    return char.isalnum() or (char != "" and char in "_$@.?'\"`")
+
+
 def _encode_param_as_sql(param: Any) -> str:
     if isinstance(param, str):
-        return f"'{param}'"
+        escaped = param.replace("\\", "\\\\").replace("'", "''")
+        return f"'{escaped}'"
+    if isinstance(param, float) and not math.isfinite(param):
+        raise MysqlError(f"Invalid parameter value: {param}")
     if param is None:
         return "NULL"
     if param is True:
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 15867c4..35d70e5 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,9 +1,30 @@
 import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterator
+from typing import Optional, Dict, AsyncIterator, List
 
-# Borrowed from mysql-connector-python
-REGEX_PARAM = re.compile(r"""\?(?=(?:[^"'`]*["'`][^"'`]*["'`])*[^"'`]*$)""")
+# Matches whatever may contain question marks that aren't placeholders, or a placeholder.
+# An unterminated string, identifier or comment extends to the end of the statement.
+REGEX_PARAM = re.compile(
+    r"""
+      '[^'\\]*(?:\\.[^'\\]*)*(?:'|\\?\Z)
+    | "[^"\\]*(?:\\.[^"\\]*)*(?:"|\\?\Z)
+    | `[^`]*(?:`|\Z)
+    | /\*.*?(?:\*/|\Z)
+    | --(?=\s|\Z)[^\n]*
+    | \#[^\n]*
+    | (?P<param>\?)
+    """,
+    re.VERBOSE | re.DOTALL,
+)
+
+
+def find_params(sql: str) -> List[int]:
+    """Find the position of every parameter placeholder in a SQL statement"""
+    return [
+        match.start()
+        for match in REGEX_PARAM.finditer(sql)
+        if match.group("param") is not None
+    ]
 
 
 @dataclass
-- 
2.43.0


From ef08bdfed371fdd44f9427a711fd9069db042cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 14/46] fix: end the connection when a failing COM_CHANGE_USER
 raises an unprintable error

---
 mysql_mimic/connection.py | 4 ++--
 mysql_mimic/errors.py     | 9 +++++++++
 mysql_mimic/packets.py    | 9 ++-------
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 506d59f..7f4774f 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -14,7 +14,7 @@ from mysql_mimic.auth import (
 from mysql_mimic.charset import CharacterSet
 from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES, KillKind
 from mysql_mimic.control import Control
-from mysql_mimic.errors import ErrorCode, MysqlError
+from mysql_mimic.errors import ErrorCode, MysqlError, error_text
 from mysql_mimic.packets import (
     SSLRequest,
     parse_com_init_db,
@@ -214,7 +214,7 @@ class Connection:
             raise
         except Exception as e:
             logger.exception(e)
-            raise AuthenticationFailed(str(e)) from e
+            raise AuthenticationFailed(error_text(e)) from e
 
         await self.stream.write(self.ok())
 
diff --git a/mysql_mimic/errors.py b/mysql_mimic/errors.py
index beffc0c..87e8f5b 100644
--- a/mysql_mimic/errors.py
+++ b/mysql_mimic/errors.py
@@ -1,4 +1,5 @@
 from enum import IntEnum
+from typing import Any
 
 
 class ErrorCode(IntEnum):
@@ -41,6 +42,14 @@ def get_sqlstate(code: ErrorCode) -> bytes:
     return SQLSTATES.get(code, b"HY000")
 
 
+def error_text(msg: Any) -> str:
+    """Text of an error message or exception, even if the exception can't be printed"""
+    try:
+        return str(msg)
+    except Exception:  # pylint: disable=broad-except
+        return type(msg).__name__
+
+
 class MysqlError(Exception):
     def __init__(self, msg: str, code: ErrorCode = ErrorCode.UNKNOWN_ERROR):
         super().__init__(f"{code}: {msg}")
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index fcf89b6..794ddfd 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -5,7 +5,7 @@ from typing import Optional, Dict, Any, Sequence, Callable, Tuple, List, Union
 
 from mysql_mimic.charset import Collation, CharacterSet
 from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
-from mysql_mimic.errors import ErrorCode, get_sqlstate, MysqlError
+from mysql_mimic.errors import ErrorCode, get_sqlstate, MysqlError, error_text
 from mysql_mimic.prepared import PreparedStatement, find_params
 from mysql_mimic.results import NullBitmap, ResultColumn
 from mysql_mimic.types import (
@@ -166,13 +166,8 @@ def make_error(
         parts.append(str_fixed(1, b"#"))
         parts.append(str_fixed(5, get_sqlstate(code)))
 
-    try:
-        text = str(msg)
-    except Exception:  # pylint: disable=broad-except
-        text = type(msg).__name__
-
     # An error must reach the client even if its text isn't representable
-    parts.append(str_rest(server_charset.encode(text, errors="replace")))
+    parts.append(str_rest(server_charset.encode(error_text(msg), errors="replace")))
 
     return _concat(*parts)
 
-- 
2.43.0


From 3695890c12ad390de28e953c18b4ebccfb140363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 15/46] fix: never suspend between the packets of one payload

If the command was killed at that point, the ERR packet became part of the incomplete payload.
---
 mysql_mimic/stream.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index f6839a9..adbcfc9 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -68,12 +68,14 @@ class MysqlStream:
             packet = payload_length + sequence_id + payload
 
             self._buffer.extend(packet)
-            if drain or len(self._buffer) >= self._buffer_size:
-                await self.drain()
 
             # We are done unless len(send) == 0xFFFFFF
             if len(payload) != 0xFFFFFF:
-                return
+                break
+
+        # Don't drain any earlier: if that is interrupted, the payload would be left incomplete
+        if drain or len(self._buffer) >= self._buffer_size:
+            await self.drain()
 
     async def drain(self) -> None:
         if self._buffer:
-- 
2.43.0


From 5d01cd3f11cf48a0de840701833db9fd4b77304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 16/46] fix: don't lose the start of a TLS handshake received
 along with the SSL request

---
 mysql_mimic/stream.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index adbcfc9..2bdbaed 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -1,6 +1,7 @@
 import asyncio
 import struct
 from ssl import SSLContext
+from typing import Any
 
 from mysql_mimic.errors import MysqlError, ErrorCode
 from mysql_mimic.types import uint_3, uint_1
@@ -91,6 +92,26 @@ class MysqlStream:
         transport = self.writer.transport
         protocol = transport.get_protocol()
         loop = asyncio.get_event_loop()
+
+        def feed_tls() -> None:
+            # The start of the TLS handshake might have arrived along with the preceding packet
+            tls_protocol: Any = transport.get_protocol()
+            buffered = self.reader._buffer  # type: ignore # pylint: disable=protected-access
+            while buffered and tls_protocol is not protocol:
+                if isinstance(tls_protocol, asyncio.BufferedProtocol):
+                    view = tls_protocol.get_buffer(len(buffered))
+                    size = min(len(view), len(buffered))
+                    view[:size] = buffered[:size]
+                    tls_protocol.buffer_updated(size)
+                else:
+                    size = len(buffered)
+                    tls_protocol.data_received(bytes(buffered))
+                del buffered[:size]
+
+        # Deferred twice, so that it runs right after the callbacks scheduled by `loop.start_tls`,
+        # which let the TLS protocol start its handshake, and before anything else is received.
+        loop.call_soon(loop.call_soon, feed_tls)
+
         new_transport = await loop.start_tls(
             transport=transport,
             protocol=protocol,
-- 
2.43.0


From 90d4883997fec48d28382ef0fce93db05802164f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 17/46] fix: accept any async iterable as row source, not just
 async generators

---
 mysql_mimic/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index e1444af..2b7f9b5 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import asyncio
-import inspect
+import collections.abc
 import sys
 from collections.abc import Iterator
 import random
@@ -103,7 +103,7 @@ def dict_depth(d: dict) -> int:
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
     """Iterate either an async iterable or a regular iterable"""
-    if inspect.isasyncgen(iterable):
+    if isinstance(iterable, collections.abc.AsyncIterable):
         async for item in iterable:
             yield item
     else:
-- 
2.43.0


From 4cd2922c010c486276c328bc13f7f4dd8153ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 18/46] fix: infer column types when several columns share a
 name

---
 mysql_mimic/results.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 9716207..7f60d24 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -104,8 +104,9 @@ async def _ensure_result_cols(
     columns: Sequence[AllowedColumn],
 ) -> ResultSet:
     # Which columns need to be inferred?
+    # Keyed by position, because names aren't necessarily unique
     remaining = {
-        col: i for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
+        i: col for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
     }
 
     if not remaining:
@@ -132,7 +133,7 @@ async def _ensure_result_cols(
         peeks.append(peek)
 
         inferred = []
-        for name, i in remaining.items():
+        for i, name in remaining.items():
             value = peek[i]
             if value is not None:
                 type_ = infer_type(value)
@@ -140,13 +141,13 @@ async def _ensure_result_cols(
                     name=str(name),
                     type=type_,
                 )
-                inferred.append(name)
+                inferred.append(i)
 
-        for name in inferred:
-            remaining.pop(name)
+        for i in inferred:
+            remaining.pop(i)
 
     # If we failed to find a non-null value, set the type to NULL
-    for name, i in remaining.items():
+    for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
             type=ColumnType.NULL,
-- 
2.43.0


From 0e524f765682fc2ee419e71f4987a5a6f57cf734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 19/46] fix: encode integers, booleans and durations as the
 values they are

---
 mysql_mimic/results.py | 50 ++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 7f60d24..9de1f41 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -166,7 +166,7 @@ async def _ensure_result_cols(
 
 
 def _binary_encode_tiny(col: ResultColumn, val: Any) -> bytes:
-    return uint_1(int(bool(val)))
+    return struct.pack("<b", int(val))
 
 
 def _binary_encode_str(col: ResultColumn, val: Any) -> bytes:
@@ -250,11 +250,13 @@ def _binary_encode_double(col: ResultColumn, val: Any) -> bytes:
 
 
 def _binary_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
-    days = abs(val.days)
-    hours, remainder = divmod(abs(val.seconds), 3600)
+    is_negative = val < timedelta(0)
+    # The fields of a negative timedelta don't have the same sign
+    magnitude = abs(val)
+    days = magnitude.days
+    hours, remainder = divmod(magnitude.seconds, 3600)
     minutes, seconds = divmod(remainder, 60)
-    microseconds = val.microseconds
-    is_negative = val.total_seconds() < 0
+    microseconds = magnitude.microseconds
 
     if microseconds == 0:
         if days == hours == minutes == seconds == 0:
@@ -296,6 +298,22 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _text_encode_number(col: ResultColumn, val: Any) -> bytes:
+    return _text_encode_str(col, int(val) if isinstance(val, bool) else val)
+
+
+def _text_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, timedelta):
+        magnitude = abs(val)
+        minutes, seconds = divmod(magnitude.seconds, 60)
+        hours, minutes = divmod(minutes, 60)
+        hours += magnitude.days * 24
+        sign = "-" if val < timedelta(0) else ""
+        fraction = f".{magnitude.microseconds:06}" if magnitude.microseconds else ""
+        val = f"{sign}{hours:02}:{minutes:02}:{seconds:02}{fraction}"
+    return _text_encode_str(col, val)
+
+
 def _unsupported(col: ResultColumn, val: Any) -> bytes:
     raise MysqlError(f"Unsupported column type: {col.type}")
 
@@ -320,20 +338,20 @@ _PY_TO_MYSQL_TYPE = {
 
 
 _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
-    ColumnType.DECIMAL: _text_encode_str,
+    ColumnType.DECIMAL: _text_encode_number,
     ColumnType.TINY: _text_encode_tiny,
-    ColumnType.SHORT: _text_encode_str,
-    ColumnType.LONG: _text_encode_str,
-    ColumnType.FLOAT: _text_encode_str,
-    ColumnType.DOUBLE: _text_encode_str,
+    ColumnType.SHORT: _text_encode_number,
+    ColumnType.LONG: _text_encode_number,
+    ColumnType.FLOAT: _text_encode_number,
+    ColumnType.DOUBLE: _text_encode_number,
     ColumnType.NULL: _unsupported,
     ColumnType.TIMESTAMP: _text_encode_str,
-    ColumnType.LONGLONG: _text_encode_str,
-    ColumnType.INT24: _text_encode_str,
+    ColumnType.LONGLONG: _text_encode_number,
+    ColumnType.INT24: _text_encode_number,
     ColumnType.DATE: _text_encode_str,
-    ColumnType.TIME: _text_encode_str,
+    ColumnType.TIME: _text_encode_timedelta,
     ColumnType.DATETIME: _text_encode_str,
-    ColumnType.YEAR: _text_encode_str,
+    ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
     ColumnType.BIT: _text_encode_str,
@@ -342,9 +360,9 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.TIME2: _unsupported,
     ColumnType.TYPED_ARRAY: _unsupported,
     ColumnType.INVALID: _unsupported,
-    ColumnType.BOOL: _binary_encode_tiny,
+    ColumnType.BOOL: _text_encode_tiny,
     ColumnType.JSON: _text_encode_str,
-    ColumnType.NEWDECIMAL: _text_encode_str,
+    ColumnType.NEWDECIMAL: _text_encode_number,
     ColumnType.ENUM: _text_encode_str,
     ColumnType.SET: _text_encode_str,
     ColumnType.TINY_BLOB: _text_encode_str,
-- 
2.43.0


From 9ba848df252cb84efa1d42ce89b2e3ebb4a7675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 20/46] fix: don't start a comment when binding a negative
 parameter after '--'

---
 mysql_mimic/packets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 794ddfd..bbd9bbe 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -550,11 +550,13 @@ def _bind_params(sql: str, params: Sequence[Any]) -> str:
 
     for position, param in zip(find_params(sql), params):
         literal = _encode_param_as_sql(param)
-        before = sql[max(position - 1, 0) : position]
+        before = sql[max(position - 2, 0) : position]
         after = sql[position + 1 : position + 2]
         parts.append(sql[end:position])
-        # Keep the literal from merging with an adjacent token, e.g. "1-?" or "?AND"
-        if before == "-" or _is_token_char(before):
+        # Keep the literal from merging with an adjacent token, e.g. "1-?" or "?AND".
+        # Mind that "--" followed by a space is a comment.
+        negative = before[-1:] == "-" and literal[0] == "-" and before != "--"
+        if negative or _is_token_char(before[-1:]):
             parts.append(" ")
         parts.append(literal)
         if _is_token_char(after):
-- 
2.43.0


From d1cc42c1db693eab30cbe6958ae94f080f2063c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 21/46] fix: map MySQL character sets to the matching Python
 codecs

---
 mysql_mimic/charset.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index 7e29235..4957737 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -47,9 +47,7 @@ class CharacterSet(IntEnum):
 
     @property
     def codec(self) -> str:
-        if self.name == "utf8mb4":
-            return "utf8"
-        return self.name
+        return _CODECS.get(self.name, self.name)
 
     @property
     def default_collation(self) -> Collation:
@@ -62,6 +60,25 @@ class CharacterSet(IntEnum):
         return s.encode(self.codec, errors)
 
 
+# Python codecs whose name isn't the name of the MySQL character set
+_CODECS = {
+    "hp8": "hp_roman8",
+    "koi8r": "koi8_r",
+    # In MySQL, latin1 is actually the Windows code page
+    "latin1": "cp1252",
+    "koi8u": "koi8_u",
+    "ucs2": "utf_16_be",
+    "macce": "mac_latin2",
+    "macroman": "mac_roman",
+    # Without byte order mark
+    "utf16": "utf_16_be",
+    "utf16le": "utf_16_le",
+    "utf32": "utf_32_be",
+    "eucjpms": "euc_jp",
+    "utf8mb4": "utf8",
+}
+
+
 class Collation(IntEnum):
     big5_chinese_ci = 1
     latin2_czech_cs = 2
-- 
2.43.0


From 6d70e6bc7e0ee9629d987bd1705402dffe36da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:34 +0000
Subject: [PATCH 22/46] fix: evaluate LIKE, POW, << and string literals like
 MySQL in bounded time

---
 mysql_mimic/executor.py | 126 ++++++++++++++++++++++++++++++++++++++++
 mysql_mimic/schema.py   |  10 +---
 mysql_mimic/session.py  |   3 +-
 3 files changed, 129 insertions(+), 10 deletions(-)
 create mode 100644 mysql_mimic/executor.py

diff --git a/mysql_mimic/executor.py b/mysql_mimic/executor.py
new file mode 100644
index 0000000..a4d17c5
--- /dev/null
+++ b/mysql_mimic/executor.py
@@ -0,0 +1,126 @@
+from __future__ import annotations
+
+import re
+from functools import lru_cache
+from typing import Any, Optional
+
+from sqlglot import expressions as exp
+from sqlglot.executor.env import null_if_any
+from sqlglot.executor.python import Python, PythonExecutor
+from sqlglot.executor.table import Table, ensure_tables
+from sqlglot.optimizer import optimize
+from sqlglot.planner import Plan
+from sqlglot.schema import ensure_schema
+
+
+@lru_cache(maxsize=256)
+def like_to_regex(like: str) -> re.Pattern:
+    """
+    Convert a LIKE pattern to a regular expression, which must be used with `match`.
+
+    Every part between wildcards is matched at the first possible position. The lookahead
+    makes that final, as backtracking could take an exponential number of steps.
+    """
+    parts = [""]
+    escaped = False
+    for char in like:
+        if escaped:
+            parts[-1] += re.escape(char)
+            escaped = False
+        elif char == "\\":
+            escaped = True
+        elif char == "%":
+            parts.append("")
+        elif char == "_":
+            parts[-1] += "."
+        else:
+            parts[-1] += re.escape(char)
+    if escaped:
+        parts[-1] += re.escape("\\")
+
+    first, *rest = parts
+    regex = first
+    if rest:
+        *middle, last = rest
+        group = 0
+        for part in middle:
+            if part:
+                group += 1
+                regex += f"(?=(.*?{part}))\\{group}"
+        # The last part is found at the end, wherever the previous ones were found
+        regex += f".*{last}" if last else ""
+        if not last:
+            return re.compile(regex, re.DOTALL)
+    return re.compile(f"{regex}\\Z", re.DOTALL)
+
+
+def _like(this: Any, pattern: Any) -> bool:
+    return bool(like_to_regex(str(pattern)).match(str(this)))
+
+
+def _pow(base: Any, exponent: Any) -> Any:
+    # Like MySQL, calculate with double precision.
+    # Integers of arbitrary size could take forever.
+    result = float(base) ** float(exponent)
+    exact = isinstance(base, int) and isinstance(exponent, int) and exponent >= 0
+    return int(result) if exact and result < 2**53 else result
+
+
+def _shift_left(this: Any, bits: Any) -> int:
+    # Like in MySQL, the result has 64 bits
+    return (int(this) << int(bits)) & (2**64 - 1) if 0 <= bits < 64 else 0
+
+
+def _mul(left: Any, right: Any) -> Any:
+    # Python would repeat strings
+    return _number(left) * _number(right)
+
+
+def _number(value: Any) -> Any:
+    if not isinstance(value, str):
+        return value
+    match = re.match(r"\s*[+-]?(\d+(\.\d*)?|\.\d+)(e[+-]?\d+)?", value, re.IGNORECASE)
+    return float(match.group()) if match else 0
+
+
+_FUNCTIONS = {
+    "BITWISELEFTSHIFT": null_if_any(_shift_left),
+    "LIKE": null_if_any(_like),
+    "MUL": null_if_any(_mul),
+    "POW": null_if_any(_pow),
+}
+
+
+class _Dialect(Python):
+    class Generator(Python.Generator):
+        """Quotes text such that Python evaluates it to exactly that text"""
+
+        def literal_sql(self, expression: exp.Literal) -> str:
+            if expression.is_string:
+                return repr(expression.this)
+            return super().literal_sql(expression)
+
+        def identifier_sql(self, expression: exp.Identifier) -> str:
+            return repr(expression.name)
+
+
+class _Executor(PythonExecutor):
+    def __init__(self, tables: Any = None):
+        super().__init__(env=_FUNCTIONS, tables=tables)
+        self.generator = _Dialect().generator(identify=True, comments=False)
+
+
+def execute(
+    expression: exp.Expression,
+    schema: Optional[dict] = None,
+    tables: Optional[dict] = None,
+) -> Table:
+    """
+    Run a query against in-memory tables.
+
+    This is SQLGlot's executor, with MySQL's semantics for literals and some functions.
+    """
+    optimized = optimize(
+        expression, ensure_schema(schema or {}), leave_tables_isolated=True
+    )
+    return _Executor(tables=ensure_tables(tables)).execute(Plan(optimized))
diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 5d7f587..f179473 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -1,15 +1,15 @@
 from __future__ import annotations
 
-import re
 from collections import defaultdict
 from itertools import chain
 from dataclasses import dataclass
 from typing import Any, Optional, List, Dict, Iterable
 
-from sqlglot.executor import Table, execute
+from sqlglot.executor import Table
 from sqlglot import expressions as exp
 
 from mysql_mimic.constants import INFO_SCHEMA
+from mysql_mimic.executor import execute
 from mysql_mimic.results import AllowedResult
 from mysql_mimic.errors import MysqlError, ErrorCode
 from mysql_mimic.packets import ComFieldList
@@ -264,12 +264,6 @@ def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     return show.sql(dialect="mysql")
 
 
-def like_to_regex(like: str) -> re.Pattern:
-    like = like.replace("%", ".*?")
-    like = like.replace("_", ".")
-    return re.compile(like)
-
-
 class BaseInfoSchema:
     """
     Base InfoSchema interface used by the `Session` class.
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 0fdb119..2f81c72 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -16,10 +16,10 @@ from typing import (
 from sqlglot import Dialect
 from sqlglot.dialects import MySQL
 from sqlglot import expressions as exp
-from sqlglot.executor import execute
 
 from mysql_mimic.charset import CharacterSet
 from mysql_mimic.errors import ErrorCode, MysqlError
+from mysql_mimic.executor import execute, like_to_regex
 from mysql_mimic.intercept import (
     setitem_kind,
     value_to_expression,
@@ -28,7 +28,6 @@ from mysql_mimic.intercept import (
 )
 from mysql_mimic.schema import (
     show_statement_to_info_schema_query,
-    like_to_regex,
     BaseInfoSchema,
     ensure_info_schema,
 )
-- 
2.43.0


From f01a35f4e58eb1baae79c2e2aaafd93c8e47cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:16 +0000
Subject: [PATCH 23/46] fix: KILL QUERY only aborts the running statement, KILL
 CONNECTION always ends the connection

A KILL QUERY reaching an idle connection, one that is receiving a packet, logging in, changing
user or finishing its response ended the connection, or made it send unsolicited packets.
A KILL CONNECTION was ignored if the application swallowed the cancellation, was downgraded by a
following KILL QUERY, waited for clients that don't read, and could interrupt the session's close.
---
 mysql_mimic/connection.py | 128 +++++++++++++++++++++++++++++++-------
 mysql_mimic/stream.py     |  26 ++++++--
 2 files changed, 126 insertions(+), 28 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 7f4774f..0d15150 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -39,6 +39,14 @@ _NO_RESPONSE_COMMANDS = {
     types.Commands.COM_STMT_CLOSE,
 }
 
+# Commands that execute (a part of) a statement, i.e. can be aborted by KILL QUERY
+_STATEMENT_COMMANDS = {
+    types.Commands.COM_QUERY,
+    types.Commands.COM_FIELD_LIST,
+    types.Commands.COM_STMT_EXECUTE,
+    types.Commands.COM_STMT_FETCH,
+}
+
 
 class AuthenticationFailed(MysqlError):
     """The client failed to authenticate, so the connection must not be used any further."""
@@ -84,6 +92,10 @@ class Connection:
 
         self.connection_id: int = 0
         self._kill: Optional[KillKind] = None
+        self._kill_count = 0  # How often `kill` cancelled the task
+        self._interruptible = False  # Is there a statement KILL QUERY can abort?
+        self._answering = False  # Is the client waiting for the end of a response?
+        self._ending = False
         self._task: Optional[asyncio.Task] = None
 
     @property
@@ -96,6 +108,8 @@ class Connection:
 
     async def start(self) -> None:
         self._task = asyncio.create_task(self._start())
+        if self._kill:
+            self._task.cancel()
         try:
             await self._task
         finally:
@@ -117,23 +131,83 @@ class Connection:
         try:
             await self.command_phase()
         except asyncio.CancelledError:
-            if self._kill == KillKind.CONNECTION:
-                logger.info("Connection %s killed", self.connection_id)
-                await self.stream.write(
+            if self._kill != KillKind.CONNECTION:
+                raise
+            self._ending = True
+            logger.info("Connection %s killed", self.connection_id)
+            # Don't wait for the client, it might have stopped reading
+            if self._answering:
+                self.stream.write_nowait(
                     self.error(
                         msg="Session was killed", code=ErrorCode.SESSION_WAS_KILLED
                     )
                 )
-                self._kill = None
-            else:
-                raise
+            self.stream.abort_unless_sent()
         finally:
+            self._ending = True
+            await self._absorb_kill()
             await self.session.close()
 
     def kill(self, kind: KillKind = KillKind.CONNECTION) -> None:
+        if self._ending:
+            return
+        if kind == KillKind.QUERY and (
+            not self._interruptible or self._kill == KillKind.CONNECTION
+        ):
+            return
+        self._kill = kind
         if self._task:
-            self._kill = kind
             self._task.cancel()
+            self._kill_count += 1
+
+    async def _end_statement(self) -> None:
+        """
+        Must be called before the last packet of a response to a statement is written.
+
+        From there on it's too late for KILL QUERY.
+        """
+        if self._kill:
+            # A kill issued by the statement itself might not have been raised yet
+            await asyncio.sleep(0)
+            if self._kill == KillKind.CONNECTION:
+                raise asyncio.CancelledError()
+            self._reset_kill()
+        self._interruptible = False
+        self._answering = False
+
+    async def _absorb_kill(self) -> None:
+        """Swallow the cancellation of a kill that wasn't raised yet."""
+        if self._kill:
+            try:
+                await asyncio.sleep(0)
+            except asyncio.CancelledError:
+                pass
+
+    def _reset_kill(self) -> None:
+        self._kill = None
+        if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
+            for _ in range(self._kill_count):
+                self._task.uncancel()
+        self._kill_count = 0
+
+    async def _fail(
+        self,
+        command: Optional[int],
+        msg: Any,
+        code: ErrorCode = ErrorCode.UNKNOWN_ERROR,
+    ) -> None:
+        """End the current command with an ERR packet"""
+        self._interruptible = False
+        await self._absorb_kill()
+        if self._kill == KillKind.CONNECTION:
+            raise asyncio.CancelledError()
+        self._reset_kill()
+        if self._task and hasattr(self._task, "cancelling"):  # python >=3.11
+            if self._task.cancelling():
+                raise asyncio.CancelledError()
+        self._answering = False
+        if command not in _NO_RESPONSE_COMMANDS:
+            await self.stream.write(self.error(msg=msg, code=code))
 
     async def connection_phase(self) -> None:
         default_auth_plugin = self.identity_provider.get_default_plugin()
@@ -304,12 +378,17 @@ class Connection:
     async def command_phase(self) -> None:
         """https://dev.mysql.com/doc/internals/en/command-phase.html"""
         while True:
+            if self._kill == KillKind.CONNECTION:
+                # The application swallowed the cancellation
+                raise asyncio.CancelledError()
             try:
                 data = await self.stream.read()
             except ConnectionClosed:
                 logger.info("Connection closed")
                 return
             command = data[0] if data else None
+            self._interruptible = command in _STATEMENT_COMMANDS
+            self._answering = command not in _NO_RESPONSE_COMMANDS
             try:
                 rest = data[1:]
 
@@ -354,27 +433,23 @@ class Connection:
                 return
             except MysqlError as e:
                 logger.error(e)
-                if command not in _NO_RESPONSE_COMMANDS:
-                    await self.stream.write(self.error(msg=e.msg, code=e.code))
+                await self._fail(command, msg=e.msg, code=e.code)
             except asyncio.CancelledError:
-                if self._kill == KillKind.QUERY:
-                    logger.info("Query killed on connection %s", self.connection_id)
-                    if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
-                        self._task.uncancel()
-                    await self.stream.write(
-                        self.error(
-                            msg="Query was killed", code=ErrorCode.SESSION_WAS_KILLED
-                        )
-                    )
-                    self._kill = None
-                else:
+                if self._kill != KillKind.QUERY:
                     raise
+                logger.info("Query killed on connection %s", self.connection_id)
+                await self._fail(
+                    command,
+                    msg="Query was killed",
+                    code=ErrorCode.SESSION_WAS_KILLED,
+                )
             except Exception as e:  # pylint: disable=broad-except
                 logger.exception(e)
-                if command not in _NO_RESPONSE_COMMANDS:
-                    await self.stream.write(self.error(msg=e))
+                await self._fail(command, msg=e)
             finally:
-                self.stream.reset_seq()
+                self._interruptible = False
+            self._answering = False
+            self.stream.reset_seq()
 
     async def handle_ping(self, data: bytes) -> None:  # pylint: disable=unused-argument
         """
@@ -428,6 +503,7 @@ class Connection:
         ]
         for column in columns:
             await self.stream.write(column, drain=False)
+        await self._end_statement()
         await self.stream.write(self.ok_or_eof())
 
     async def handle_query(self, data: bytes) -> None:
@@ -446,6 +522,7 @@ class Connection:
         result_set = await self.query(com_query.sql, com_query.query_attrs)
 
         if not result_set:
+            await self._end_statement()
             await self.stream.write(self.ok())
             return
 
@@ -511,6 +588,7 @@ class Connection:
         )
 
         if not result_set:
+            await self._end_statement()
             await self.stream.write(self.ok())
             return
 
@@ -533,6 +611,7 @@ class Connection:
         rows = gen_rows()
 
         if com_stmt_execute.use_cursor:
+            await self._end_statement()
             com_stmt_execute.stmt.cursor = rows
             await self.stream.write(
                 self.ok_or_eof(flags=types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS)
@@ -542,6 +621,7 @@ class Connection:
                 await self.stream.write(self.eof())
             async for row in rows:
                 await self.stream.write(row)
+            await self._end_statement()
             await self.stream.write(self.ok_or_eof())
 
     async def handle_stmt_fetch(self, data: bytes) -> None:
@@ -565,6 +645,7 @@ class Connection:
                 await self.stream.write(packet, drain=False)
                 count += 1
             await self.stream.drain()
+            await self._end_statement()
         except BaseException:
             # The position within the result is lost, so the cursor is unusable
             stmt.cursor = None
@@ -679,6 +760,7 @@ class Connection:
             affected_rows += 1
             yield packets.make_text_resultset_row(row, result_set.columns)
 
+        await self._end_statement()
         yield self.ok_or_eof(affected_rows=affected_rows)
 
     def com_stmt_prepare_response(
diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 2bdbaed..c676d96 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -59,6 +59,18 @@ class MysqlStream:
             raise ConnectionClosed() from e
 
     async def write(self, data: bytes, drain: bool = True) -> None:
+        self._put(data)
+
+        # Don't drain any earlier: if that is interrupted, the payload would be left incomplete
+        if drain or len(self._buffer) >= self._buffer_size:
+            await self.drain()
+
+    def write_nowait(self, data: bytes) -> None:
+        """Write without waiting until the client is ready to receive more"""
+        self._put(data)
+        self._flush()
+
+    def _put(self, data: bytes) -> None:
         while True:
             # Grab first 0xFFFFFF bytes to send
             payload = data[:0xFFFFFF]
@@ -74,16 +86,20 @@ class MysqlStream:
             if len(payload) != 0xFFFFFF:
                 break
 
-        # Don't drain any earlier: if that is interrupted, the payload would be left incomplete
-        if drain or len(self._buffer) >= self._buffer_size:
-            await self.drain()
-
     async def drain(self) -> None:
+        self._flush()
+        await self.writer.drain()
+
+    def _flush(self) -> None:
         if self._buffer:
             # The transport may hold on to a view of what it is given
             self.writer.write(bytes(self._buffer))
             self._buffer.clear()
-        await self.writer.drain()
+
+    def abort_unless_sent(self) -> None:
+        """Drop the connection if the client hasn't accepted everything written so far"""
+        if self.writer.transport.get_write_buffer_size():
+            self.writer.transport.abort()
 
     def reset_seq(self) -> None:
         self.seq.reset()
-- 
2.43.0


From bbe8e298bf9d113a86eb0a6f66b067b9e17abb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:19 +0000
Subject: [PATCH 24/46] fix: close the socket of clients that could not be
 given a connection

---
 mysql_mimic/server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/server.py b/mysql_mimic/server.py
index 6410a1e..448a082 100644
--- a/mysql_mimic/server.py
+++ b/mysql_mimic/server.py
@@ -61,8 +61,12 @@ class MysqlServer:
     async def _client_connected_cb(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter
     ) -> None:
-        stream = MysqlStream(reader, writer)
+        try:
+            await self._serve(MysqlStream(reader, writer), writer)
+        finally:
+            writer.close()
 
+    async def _serve(self, stream: MysqlStream, writer: asyncio.StreamWriter) -> None:
         try:
             if inspect.iscoroutinefunction(self.session_factory):
                 session = await self.session_factory()
@@ -103,7 +107,7 @@ class MysqlServer:
             return
 
         try:
-            return await connection.start()
+            await connection.start()
         finally:
             writer.close()
             await self.control.remove(connection_id)
-- 
2.43.0


From 521931daaadb4798709c78f23508d6e32dfd3ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 25/46] fix: answer with an ERR packet when the application
 lets a CancelledError escape

---
 mysql_mimic/connection.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 0d15150..f320b39 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -190,6 +190,12 @@ class Connection:
                 self._task.uncancel()
         self._kill_count = 0
 
+    def _cancelled(self, default: bool = True) -> bool:
+        """Was this connection's task cancelled, other than by a KILL QUERY that was dealt with?"""
+        if self._task and hasattr(self._task, "cancelling"):  # python >=3.11
+            return self._task.cancelling() > 0
+        return default
+
     async def _fail(
         self,
         command: Optional[int],
@@ -202,9 +208,8 @@ class Connection:
         if self._kill == KillKind.CONNECTION:
             raise asyncio.CancelledError()
         self._reset_kill()
-        if self._task and hasattr(self._task, "cancelling"):  # python >=3.11
-            if self._task.cancelling():
-                raise asyncio.CancelledError()
+        if self._cancelled(default=False):
+            raise asyncio.CancelledError()
         self._answering = False
         if command not in _NO_RESPONSE_COMMANDS:
             await self.stream.write(self.error(msg=msg, code=code))
@@ -286,7 +291,9 @@ class Connection:
             await self.session.reset()
         except (AuthenticationFailed, ConnectionClosed):
             raise
-        except Exception as e:
+        except (Exception, asyncio.CancelledError) as e:
+            if isinstance(e, asyncio.CancelledError) and self._cancelled():
+                raise
             logger.exception(e)
             raise AuthenticationFailed(error_text(e)) from e
 
@@ -434,15 +441,20 @@ class Connection:
             except MysqlError as e:
                 logger.error(e)
                 await self._fail(command, msg=e.msg, code=e.code)
-            except asyncio.CancelledError:
-                if self._kill != KillKind.QUERY:
+            except asyncio.CancelledError as e:
+                if self._kill == KillKind.QUERY:
+                    logger.info("Query killed on connection %s", self.connection_id)
+                    await self._fail(
+                        command,
+                        msg="Query was killed",
+                        code=ErrorCode.SESSION_WAS_KILLED,
+                    )
+                elif not self._cancelled():
+                    # Something the application was waiting for was cancelled
+                    logger.exception(e)
+                    await self._fail(command, msg="Query was cancelled")
+                else:
                     raise
-                logger.info("Query killed on connection %s", self.connection_id)
-                await self._fail(
-                    command,
-                    msg="Query was killed",
-                    code=ErrorCode.SESSION_WAS_KILLED,
-                )
             except Exception as e:  # pylint: disable=broad-except
                 logger.exception(e)
                 await self._fail(command, msg=e)
-- 
2.43.0


From 83756cbd10456ac71aa8fd43e05f338adb4d05d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 26/46] fix: bound how many rows are held back to infer column
 types

---
 mysql_mimic/results.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 9de1f41..efda854 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -22,6 +22,9 @@ from mysql_mimic.types import ColumnType, str_len, uint_1, uint_2, uint_4
 from mysql_mimic.charset import CharacterSet
 from mysql_mimic.utils import aiterate
 
+# Bounds how many rows are held back to infer column types
+_MAX_PEEKS = 10_000
+
 Encoder = Callable[[Any, "ResultColumn"], bytes]
 
 
@@ -124,10 +127,12 @@ async def _ensure_result_cols(
     peeks = []
 
     # Find the first non-null value for each column
-    while remaining:
+    exhausted = False
+    while remaining and len(peeks) < _MAX_PEEKS:
         try:
             peek = await arows.__anext__()
         except StopAsyncIteration:
+            exhausted = True
             break
 
         peeks.append(peek)
@@ -146,11 +151,12 @@ async def _ensure_result_cols(
         for i in inferred:
             remaining.pop(i)
 
-    # If we failed to find a non-null value, set the type to NULL
+    # If we failed to find a non-null value, set the type to NULL,
+    # unless there might be one among the rows that we haven't seen
     for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
-            type=ColumnType.NULL,
+            type=ColumnType.NULL if exhausted else ColumnType.VARCHAR,
         )
 
     # Add the consumed rows back in to the iterator
-- 
2.43.0


From 401b906961c0f9b4c307f50516803c5fc949666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 27/46] fix: only answer queries from the catalog if all tables
 they read belong to it

---
 mysql_mimic/session.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 2f81c72..5206f01 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -32,7 +32,7 @@ from mysql_mimic.schema import (
     ensure_info_schema,
 )
 from mysql_mimic.constants import INFO_SCHEMA, KillKind
-from mysql_mimic.utils import find_dbs
+from mysql_mimic.utils import find_tables
 from mysql_mimic.variables import (
     Variables,
     SessionVariables,
@@ -505,10 +505,12 @@ class Session(BaseSession):
 
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
         """Intercept queries to INFORMATION_SCHEMA tables"""
-        dbs = find_dbs(q.expression)
-        if (self.database and self.database.lower() in INFO_SCHEMA) or (
-            dbs and all(db.lower() in INFO_SCHEMA for db in dbs)
-        ):
+        tables = find_tables(q.expression)
+        dbs = [table.text("db") or self.database or "" for table in tables]
+        if dbs and all(db.lower() in INFO_SCHEMA for db in dbs):
+            for table, db in zip(tables, dbs):
+                if not table.text("db"):
+                    table.set("db", exp.to_identifier(db.lower()))
             return await self._query_info_schema(q.expression)
         return await q.next()
 
-- 
2.43.0


From 11f9683f59b95c096461ac6e4f0561c9be396b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 28/46] fix: don't pass comments following the last statement
 to the application

---
 mysql_mimic/session.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 5206f01..0a5a34e 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -304,7 +304,12 @@ class Session(BaseSession):
         self.database = database
 
     def _parse(self, sql: str) -> List[exp.Expression]:
-        return [e for e in self.dialect().parse(sql) if e]
+        return [
+            e
+            for e in self.dialect().parse(sql)
+            # Comments following the last semicolon
+            if e and type(e).__name__ != "Semicolon"
+        ]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
         return await ensure_info_schema(await self.schema()).query(expression)
-- 
2.43.0


From d43a88f9f18c50b63f7691415baa93885930ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 29/46] fix: answer every SELECT without FROM, but not those
 reading tables in subqueries

---
 mysql_mimic/session.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 0a5a34e..c0c91c2 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -474,11 +474,14 @@ class Session(BaseSession):
 
         These very common, as many clients execute commands like SELECT DATABASE() when connecting.
         """
-        if isinstance(q.expression, exp.Select) and not any(
-            q.expression.args.get(a)
-            for a in set(exp.Select.arg_types) - {"expressions", "limit", "hint"}
-        ):
-            result = execute(q.expression)
+        expression = q.expression
+        while isinstance(expression, exp.Subquery) and expression.is_wrapper:
+            expression = expression.this
+
+        if isinstance(expression, exp.Select) and not expression.find(exp.From):
+            # There is at most one row, and SQLGlot fails to sort it
+            expression.set("order", None)
+            result = execute(expression)
             return result.rows, result.columns
         return await q.next()
 
-- 
2.43.0


From ecb3d5f4d006437f4ee0d4db4419cbbe3323884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:13 +0000
Subject: [PATCH 30/46] fix: parse backticks within quoted identifiers

---
 mysql_mimic/dialect.py | 8 ++++++++
 mysql_mimic/session.py | 4 ++--
 mysql_mimic/utils.py   | 2 ++
 3 files changed, 12 insertions(+), 2 deletions(-)
 create mode 100644 mysql_mimic/dialect.py

diff --git a/mysql_mimic/dialect.py b/mysql_mimic/dialect.py
new file mode 100644
index 0000000..8c8c3d4
--- /dev/null
+++ b/mysql_mimic/dialect.py
@@ -0,0 +1,8 @@
+from sqlglot.dialects import MySQL
+
+
+class MimicMySQL(MySQL):
+    """MySQL, where backticks in quoted identifiers are escaped by doubling them"""
+
+    class Tokenizer(MySQL.Tokenizer):
+        IDENTIFIER_ESCAPES = ["`"]
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index c0c91c2..4380df7 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -14,10 +14,10 @@ from typing import (
 )
 
 from sqlglot import Dialect
-from sqlglot.dialects import MySQL
 from sqlglot import expressions as exp
 
 from mysql_mimic.charset import CharacterSet
+from mysql_mimic.dialect import MimicMySQL
 from mysql_mimic.errors import ErrorCode, MysqlError
 from mysql_mimic.executor import execute, like_to_regex
 from mysql_mimic.intercept import (
@@ -160,7 +160,7 @@ class Session(BaseSession):
     e.g. session variables, SHOW commands, queries to INFORMATION_SCHEMA, and more
     """
 
-    dialect: Type[Dialect] = MySQL
+    dialect: Type[Dialect] = MimicMySQL
 
     def __init__(self, variables: Variables | None = None):
         self.variables = variables or SessionVariables(GlobalVariables())
diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 2b7f9b5..19608f4 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -55,6 +55,8 @@ def nonce(nbytes: int) -> bytes:
 
 def find_tables(expression: exp.Expression) -> List[exp.Table]:
     """Find all tables in an expression"""
+    if isinstance(expression, exp.Subquery) and expression.is_wrapper:
+        expression = expression.unnest()
     if isinstance(
         expression, (exp.Select, exp.Subquery, exp.Union, exp.Except, exp.Intersect)
     ):
-- 
2.43.0


From 885dcffbb9b6d7555749f3d317df615151811cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 31/46] fix: don't pass unknown SET and SHOW statements to the
 application, but DESCRIBE of queries

---
 mysql_mimic/session.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 4380df7..ee9c09b 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -379,6 +379,15 @@ class Session(BaseSession):
         """Intercept SHOW statements"""
         if isinstance(q.expression, exp.Show):
             return await self._show(q.expression)
+        if isinstance(q.expression, exp.Command) and q.expression.name.upper() in {
+            "SET",
+            "SHOW",
+        }:
+            # Statements that SQLGlot doesn't know
+            raise MysqlError(
+                f"Unsupported statement: {q.expression.sql(self.dialect)}",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         return await q.next()
 
     async def _show(self, expression: exp.Show) -> AllowedResult:
@@ -397,7 +406,7 @@ class Session(BaseSession):
     async def _describe_middleware(self, q: Query) -> AllowedResult:
         """Intercept DESCRIBE statements"""
         if isinstance(q.expression, exp.Describe):
-            if isinstance(q.expression.this, exp.Select):
+            if not isinstance(q.expression.this, exp.Table):
                 # Mysql parse treats EXPLAIN SELECT as a DESCRIBE SELECT statement
                 return await q.next()
             name = q.expression.this.name
-- 
2.43.0


From abba72627f42db7ec1123df5c675da3650036421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:46 +0000
Subject: [PATCH 32/46] fix: accept ON, OFF and DEFAULT in any letter case

---
 mysql_mimic/intercept.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/intercept.py b/mysql_mimic/intercept.py
index 26e77c0..b632e2d 100644
--- a/mysql_mimic/intercept.py
+++ b/mysql_mimic/intercept.py
@@ -56,11 +56,11 @@ def expression_to_value(expression: exp.Expression) -> Any:
             return float(expression.this)
     if isinstance(expression, exp.Literal):
         return expression.name
-    if expression.name == "DEFAULT":
+    if expression.name.upper() == "DEFAULT":
         return DEFAULT
-    if expression.name == "ON":
+    if expression.name.upper() == "ON":
         return True
-    if expression.name == "OFF":
+    if expression.name.upper() == "OFF":
         return False
     raise MysqlError(
         "Complex expressions in variables not supported yet",
-- 
2.43.0


From fcdd0ed6ad4648fd91e7390714fb0be9beb334e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:24 +0000
Subject: [PATCH 33/46] fix: parse SET TRANSACTION ISOLATION LEVEL READ
 UNCOMMITTED

---
 mysql_mimic/dialect.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mysql_mimic/dialect.py b/mysql_mimic/dialect.py
index 8c8c3d4..9ca2f7a 100644
--- a/mysql_mimic/dialect.py
+++ b/mysql_mimic/dialect.py
@@ -1,4 +1,5 @@
 from sqlglot.dialects import MySQL
+from sqlglot.parser import OPTIONS_TYPE
 
 
 class MimicMySQL(MySQL):
@@ -6,3 +7,15 @@ class MimicMySQL(MySQL):
 
     class Tokenizer(MySQL.Tokenizer):
         IDENTIFIER_ESCAPES = ["`"]
+
+    class Parser(MySQL.Parser):
+        # SQLGlot misspells READ UNCOMMITTED
+        TRANSACTION_CHARACTERISTICS: OPTIONS_TYPE = {
+            **MySQL.Parser.TRANSACTION_CHARACTERISTICS,
+            "ISOLATION": (
+                ("LEVEL", "REPEATABLE", "READ"),
+                ("LEVEL", "READ", "COMMITTED"),
+                ("LEVEL", "READ", "UNCOMMITTED"),
+                ("LEVEL", "SERIALIZABLE"),
+            ),
+        }
-- 
2.43.0


From 7876017e501bd2b5dd00a0b09d1e2582d364c62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:24 +0000
Subject: [PATCH 34/46] fix: recognize SET_VAR hints in any letter case

---
 mysql_mimic/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index ee9c09b..4609ea0 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -327,7 +327,7 @@ class Session(BaseSession):
             set_var_hint = None
 
             for e in hint.expressions:
-                if isinstance(e, exp.Func) and e.name == "SET_VAR":
+                if isinstance(e, exp.Func) and e.name.upper() == "SET_VAR":
                     set_var_hint = e
                     for eq in e.expressions:
                         assignments[eq.left.name] = expression_to_value(eq.right)
-- 
2.43.0


From e9b64ab64e6052288a74fcaeaf84cd762e07f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:24 +0000
Subject: [PATCH 35/46] fix: evaluate NOW() in the time zone in effect, not the
 one at the start of the query text

---
 mysql_mimic/session.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 4609ea0..a26c314 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -190,9 +190,9 @@ class Session(BaseSession):
             "CURRENT_USER": lambda: self.username,
             "VERSION": lambda: self.variables.get("version"),
             "DATABASE": lambda: self.database,
-            "NOW": lambda: self.timestamp.strftime("%Y-%m-%d %H:%M:%S"),
-            "CURDATE": lambda: self.timestamp.strftime("%Y-%m-%d"),
-            "CURTIME": lambda: self.timestamp.strftime("%H:%M:%S"),
+            "NOW": lambda: self._now("%Y-%m-%d %H:%M:%S"),
+            "CURDATE": lambda: self._now("%Y-%m-%d"),
+            "CURTIME": lambda: self._now("%H:%M:%S"),
         }
         # Synonyms
         self._functions.update(
@@ -610,6 +610,10 @@ class Session(BaseSession):
     def _show_errors(self, show: exp.Show) -> AllowedResult:
         return [], ["Level", "Code", "Message"]
 
+    def _now(self, fmt: str) -> str:
+        # The time zone may have changed since the statement started
+        return self.timestamp.astimezone(self.timezone()).strftime(fmt)
+
     def timezone(self) -> timezone_:
         tz = self.variables.get("time_zone")
         return parse_timezone(tz)
-- 
2.43.0


From 921e7757e3bbe3e32dd39a42055ad36ca69e79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 36/46] fix: coerce strings such as 'OFF' to boolean variables

---
 mysql_mimic/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index e5a0d8a..b5ae59a 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -85,6 +85,8 @@ class Variables(abc.ABC):
 
         if value is DEFAULT or value is None:
             self.values[name] = default
+        elif type_ is bool and isinstance(value, str):
+            self.values[name] = value.lower() not in {"", "0", "off", "false"}
         else:
             self.values[name] = type_(value)
 
-- 
2.43.0


From 0a0fecfed2a7b379bdcb3f49328ab788a9dc6e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:39 +0000
Subject: [PATCH 37/46] fix: don't accept character sets and time zones that
 later statements fail on

---
 mysql_mimic/errors.py    |  2 ++
 mysql_mimic/session.py   |  3 ++-
 mysql_mimic/variables.py | 39 +++++++++++++++++++++++++++++++--------
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/mysql_mimic/errors.py b/mysql_mimic/errors.py
index 87e8f5b..ce90f24 100644
--- a/mysql_mimic/errors.py
+++ b/mysql_mimic/errors.py
@@ -12,6 +12,7 @@ class ErrorCode(IntEnum):
     PARSE_ERROR = 1064
     EMPTY_QUERY = 1065
     UNKNOWN_PROCEDURE = 1106
+    UNKNOWN_CHARACTER_SET = 1115
     UNKNOWN_SYSTEM_VARIABLE = 1193
     UNKNOWN_COM_ERROR = 1047
     UNKNOWN_ERROR = 1105
@@ -32,6 +33,7 @@ SQLSTATES = {
     ErrorCode.PARSE_ERROR: b"42000",
     ErrorCode.EMPTY_QUERY: b"42000",
     ErrorCode.UNKNOWN_PROCEDURE: b"42000",
+    ErrorCode.UNKNOWN_CHARACTER_SET: b"42000",
     ErrorCode.UNKNOWN_COM_ERROR: b"08S01",
     ErrorCode.WRONG_VALUE_FOR_VAR: b"42000",
     ErrorCode.NOT_SUPPORTED_YET: b"42000",
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index a26c314..966bbb1 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -38,6 +38,7 @@ from mysql_mimic.variables import (
     SessionVariables,
     GlobalVariables,
     DEFAULT,
+    character_set_name,
     parse_timezone,
 )
 from mysql_mimic.results import AllowedResult
@@ -578,7 +579,7 @@ class Session(BaseSession):
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
-            charset_name = item.name
+            charset_name = character_set_name(item.name)
             collation_name = (
                 item.text("collate")
                 or CharacterSet[charset_name].default_collation.name
diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index b5ae59a..22b2258 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import abc
+import codecs
 import re
 from datetime import timezone, timedelta
 from functools import lru_cache
@@ -19,15 +20,35 @@ VariableSchema = Tuple[VariableType, Any, bool]
 
 DEFAULT = Default()
 
+def time_zone_name(value: Any) -> str:
+    """Type of variables that name a time zone"""
+    name = str(value)
+    parse_timezone(name)
+    return name
+
+
+def character_set_name(value: Any) -> str:
+    """Type of variables that name a character set"""
+    name = str(value).lower()
+    name = "utf8" if name == "utf8mb3" else name
+    try:
+        codecs.lookup(CharacterSet[name].codec)
+    except LookupError as e:
+        raise MysqlError(
+            f"Unknown character set: {value}", code=ErrorCode.UNKNOWN_CHARACTER_SET
+        ) from e
+    return name
+
+
 SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     # name: (type, default, dynamic)
     "auto_increment_increment": (int, 1, True),
     "autocommit": (bool, True, True),
-    "character_set_client": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_connection": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_database": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_results": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_server": (str, CharacterSet.utf8mb4.name, True),
+    "character_set_client": (character_set_name, CharacterSet.utf8mb4.name, True),
+    "character_set_connection": (character_set_name, CharacterSet.utf8mb4.name, True),
+    "character_set_database": (character_set_name, CharacterSet.utf8mb4.name, True),
+    "character_set_results": (character_set_name, CharacterSet.utf8mb4.name, True),
+    "character_set_server": (character_set_name, CharacterSet.utf8mb4.name, True),
     "collation_connection": (str, Collation.utf8mb4_general_ci.name, True),
     "collation_database": (str, Collation.utf8mb4_general_ci.name, True),
     "collation_server": (str, Collation.utf8mb4_general_ci.name, True),
@@ -45,7 +66,7 @@ SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     "sql_mode": (str, "ANSI", True),
     "sql_select_limit": (int, None, True),
     "system_time_zone": (str, "UTC", False),
-    "time_zone": (str, "UTC", True),
+    "time_zone": (time_zone_name, "UTC", True),
     "transaction_read_only": (bool, False, True),
     "transaction_isolation": (str, "READ-COMMITTED", True),
     "version": (str, "8.0.29", False),
@@ -126,14 +147,16 @@ class SessionVariables(Variables):
         return self.global_variables.schema
 
 
-RE_TIMEZONE = re.compile(r"^(?P<sign>[+-])(?P<hours>\d\d):(?P<minutes>\d\d)")
+RE_TIMEZONE = re.compile(
+    r"(?P<sign>[+-])(?P<hours>[01]\d|2[0-3]):(?P<minutes>[0-5]\d)", re.A
+)
 
 
 @lru_cache(maxsize=48)
 def parse_timezone(tz: str) -> timezone:
     if tz.lower() == "utc":
         return timezone.utc
-    match = RE_TIMEZONE.match(tz)
+    match = RE_TIMEZONE.fullmatch(tz)
     if not match:
         raise MysqlError(msg=f"Invalid timezone: {tz}")
     offset = timedelta(
-- 
2.43.0


From 02eba7edb24e1df1278eb9baeb29632371431264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 38/46] fix: name authentication plugins in ASCII, not in the
 character set for results

---
 mysql_mimic/connection.py | 1 -
 mysql_mimic/packets.py    | 7 +++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index f320b39..24665b2 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -354,7 +354,6 @@ class Connection:
             if user_plugin.client_plugin_name and isinstance(decision, bytes):
                 await self.stream.write(
                     packets.make_auth_switch_request(
-                        server_charset=self.server_charset,
                         plugin_name=user_plugin.client_plugin_name,
                         plugin_provided_data=decision,
                     )
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index bbd9bbe..e1b4ff0 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -266,12 +266,11 @@ def make_auth_more_data(data: bytes) -> bytes:
     return _concat(uint_1(1), str_rest(data))  # status tag
 
 
-def make_auth_switch_request(
-    server_charset: CharacterSet, plugin_name: str, plugin_provided_data: bytes
-) -> bytes:
+def make_auth_switch_request(plugin_name: str, plugin_provided_data: bytes) -> bytes:
     return _concat(
         uint_1(254),  # status tag
-        str_null(server_charset.encode(plugin_name)),
+        # Not in the character set of results, which may be utf16
+        str_null(plugin_name.encode()),
         str_rest(plugin_provided_data),
     )
 
-- 
2.43.0


From 7f96c7a6e35927db8841c5049e6c464f720c3b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 39/46] fix: list every database and table of a schema mapping,
 in the current database if it names none

---
 mysql_mimic/schema.py  | 74 ++++++++++++++++++++++++++++++------------
 mysql_mimic/session.py |  4 ++-
 mysql_mimic/utils.py   |  6 ++--
 3 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index f179473..59d44ac 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from collections import defaultdict
 from itertools import chain
 from dataclasses import dataclass
-from typing import Any, Optional, List, Dict, Iterable
+from typing import Any, Optional, List, Dict, Iterable, Tuple
 
 from sqlglot.executor import Table
 from sqlglot import expressions as exp
@@ -28,14 +28,14 @@ class Column:
     catalog: Optional[str] = "def"
 
 
-def mapping_to_columns(schema: dict) -> List[Column]:
-    """Convert a schema mapping into a list of Column instances"""
+def _normalize_mapping(schema: dict, database: str = "") -> dict:
+    """Convert a schema mapping to {catalog: {db: {table: {col: type}}}}"""
     depth = dict_depth(schema)
     if depth < 2:
-        return []
+        return {}
     if depth == 2:
         # {table: {col: type}}
-        schema = {"": schema}
+        schema = {database: schema}
         depth += 1
     if depth == 3:
         # {db: {table: {col: type}}}
@@ -43,9 +43,19 @@ def mapping_to_columns(schema: dict) -> List[Column]:
         depth += 1
     if depth != 4:
         raise MysqlError("Invalid schema mapping")
+    return schema
 
+
+def mapping_to_columns(schema: dict, database: str = "") -> List[Column]:
+    """
+    Convert a schema mapping into a list of Column instances
+
+    Args:
+        schema: Schema mapping
+        database: Database of the tables, if the mapping has no databases
+    """
     result = []
-    for catalog, dbs in schema.items():
+    for catalog, dbs in _normalize_mapping(schema, database).items():
         for db, tables in dbs.items():
             for table, cols in tables.items():
                 for column, coltype in cols.items():
@@ -62,11 +72,20 @@ def mapping_to_columns(schema: dict) -> List[Column]:
     return result
 
 
-def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]:
+def info_schema_tables(
+    columns: Iterable[Column],
+    tables: Iterable[Tuple[str, str, str]] = (),
+    dbs: Iterable[Tuple[str, str]] = (),
+) -> Dict[str, Dict[str, Table]]:
     """
     Convert a list of Column instances into a mapping of SQLGlot Tables.
 
     These Tables are used by SQLGlot to execute INFORMATION_SCHEMA queries.
+
+    Args:
+        columns: All the columns
+        tables: (catalog, database, table) of tables, which may have no columns
+        dbs: (catalog, database) of databases, which may have no tables
     """
     ordinal_positions: dict[Any, int] = defaultdict(lambda: 0)
 
@@ -75,16 +94,13 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
         for db, tables in INFO_SCHEMA.items()
     }
 
-    tables = set()
-    dbs = set()
-    catalogs = set()
+    all_tables: set[Any] = set(tables)
+    all_dbs: set[Any] = set(dbs)
 
     info_schema_cols = mapping_to_columns(INFO_SCHEMA)
 
     for column in chain(columns, info_schema_cols):
-        tables.add((column.catalog, column.schema, column.table))
-        dbs.add((column.catalog, column.schema))
-        catalogs.add(column.catalog)
+        all_tables.add((column.catalog, column.schema, column.table))
         key = (column.catalog, column.schema, column.table)
         ordinal_position = ordinal_positions[key]
         ordinal_positions[key] += 1
@@ -115,7 +131,10 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
             )
         )
 
-    for catalog, db, table in sorted(tables):
+    for catalog, db, table in sorted(all_tables):
+        # Tables of a mapping without databases may belong to none
+        if db:
+            all_dbs.add((catalog, db))
         data["information_schema"]["tables"].append(
             (
                 catalog,  # table_catalog
@@ -142,7 +161,7 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
             )
         )
 
-    for catalog, db in sorted(dbs):
+    for catalog, db in sorted(all_dbs):
         data["information_schema"]["schemata"].append(
             (
                 catalog,  # catalog_name
@@ -286,18 +305,33 @@ class InfoSchema(BaseInfoSchema):
         return result.rows, result.columns
 
     @classmethod
-    def from_mapping(cls, mapping: dict) -> InfoSchema:
-        columns = mapping_to_columns(mapping)
-        return cls(info_schema_tables(columns))
+    def from_mapping(cls, mapping: dict, database: str = "") -> InfoSchema:
+        columns = mapping_to_columns(mapping, database)
+        dbs = [
+            (catalog, db, tables)
+            for catalog, dbs in _normalize_mapping(mapping, database).items()
+            for db, tables in dbs.items()
+        ]
+        return cls(
+            info_schema_tables(
+                columns,
+                tables=[(catalog, db, t) for catalog, db, tables in dbs for t in tables],
+                dbs=[(catalog, db) for catalog, db, _ in dbs if db],
+            )
+        )
 
     def _preprocess(self, expression: exp.Expression) -> exp.Expression:
         return expression.transform(_remove_collate)
 
 
-def ensure_info_schema(schema: dict | BaseInfoSchema) -> BaseInfoSchema:
+def ensure_info_schema(
+    schema: dict | BaseInfoSchema, database: Optional[str] = None
+) -> BaseInfoSchema:
     if isinstance(schema, BaseInfoSchema):
         return schema
-    return InfoSchema.from_mapping(schema)
+    if not database or database.lower() in INFO_SCHEMA:
+        database = ""
+    return InfoSchema.from_mapping(schema, database)
 
 
 def _remove_collate(node: exp.Expression) -> exp.Expression:
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 966bbb1..d2086af 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -313,7 +313,9 @@ class Session(BaseSession):
         ]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
-        return await ensure_info_schema(await self.schema()).query(expression)
+        return await ensure_info_schema(await self.schema(), self.database).query(
+            expression
+        )
 
     async def _set_var_middleware(self, q: Query) -> AllowedResult:
         """Handles any SET_VAR hints, which set system variables for a single statement"""
diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 19608f4..c37572e 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -94,13 +94,11 @@ def dict_depth(d: dict) -> int:
         int: depth
     """
     try:
-        return 1 + dict_depth(next(iter(d.values())))
+        # Some of the nested dictionaries may be empty
+        return 1 + max((dict_depth(v) for v in d.values()), default=0)
     except AttributeError:
         # d doesn't have attribute "values"
         return 0
-    except StopIteration:
-        # d.values() returns an empty sequence
-        return 1
 
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
-- 
2.43.0


From ee1df02879bf474166fb71f326e23b1e6739c7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 40/46] fix: match names in SHOW statements as they are, and
 empty LIKE patterns

---
 mysql_mimic/schema.py  | 42 ++++++++++++++++++++++++------------------
 mysql_mimic/session.py |  6 +++---
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 59d44ac..023de5f 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -175,6 +175,24 @@ def info_schema_tables(
     return data
 
 
+def _equals(column: str, value: str) -> exp.Expression:
+    return exp.column(column).eq(value)
+
+
+def _in_database(show: exp.Show, database: Optional[str]) -> exp.Expression:
+    db = show.text("db") or database
+    if db:
+        return _equals("table_schema", db)
+    # The built-in tables are only found by the name of their database
+    return exp.column("table_schema").isin(*INFO_SCHEMA).not_()
+
+
+def _filter_like(select: exp.Select, column: str, show: exp.Show) -> exp.Select:
+    if show.args.get("like") is None:
+        return select
+    return select.where(exp.column(column).like(show.text("like")))
+
+
 def show_statement_to_info_schema_query(
     show: exp.Show, database: Optional[str] = None
 ) -> exp.Select:
@@ -205,14 +223,9 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.columns")
-            .where(f"table_name = '{table}'")
+            .where(_equals("table_name", table), _in_database(show, database))
         )
-        db = show.text("db") or database
-        if db:
-            select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
-        if like:
-            select = select.where(f"column_name LIKE '{like}'")
+        select = _filter_like(select, "column_name", show)
     elif kind == "TABLES":
         outputs = ['table_name AS "Table_name"']
         if show.args.get("full"):
@@ -222,17 +235,13 @@ def show_statement_to_info_schema_query(
         db = show.text("db") or database
         if not db:
             raise MysqlError("No database selected.", code=ErrorCode.NO_DB_ERROR)
-        select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
-        if like:
-            select = select.where(f"table_name LIKE '{like}'")
+        select = select.where(_equals("table_schema", db))
+        select = _filter_like(select, "table_name", show)
     elif kind == "DATABASES":
         select = exp.select('schema_name AS "Database"').from_(
             "information_schema.schemata"
         )
-        like = show.text("like")
-        if like:
-            select = select.where(f"schema_name LIKE '{like}'")
+        select = _filter_like(select, "schema_name", show)
     elif kind == "INDEX":
         outputs = [
             '"table_name" AS Table',
@@ -260,11 +269,8 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.statistics")
-            .where(f"table_name = '{table}'")
+            .where(_equals("table_name", table), _in_database(show, database))
         )
-        db = show.text("db") or database
-        if db:
-            select = select.where(f"table_schema = '{db}'")
     else:
         raise MysqlError(
             f"Unsupported SHOW command: {kind}", code=ErrorCode.NOT_SUPPORTED_YET
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index d2086af..526b228 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -599,9 +599,9 @@ class Session(BaseSession):
 
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
-        like = show.text("like")
-        if like:
-            rows = [(k, v) for k, v in rows if like_to_regex(like).match(k)]
+        if show.args.get("like") is not None:
+            like = like_to_regex(show.text("like"))
+            rows = [(k, v) for k, v in rows if like.match(k)]
         return rows, ["Variable_name", "Value"]
 
     def _show_status(self, show: exp.Show) -> AllowedResult:
-- 
2.43.0


From 888fb66fee4e9389000bf0aa756c9262b2da7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 41/46] fix: describe tables of other databases and with quoted
 names

---
 mysql_mimic/session.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 526b228..1584d6c 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -412,9 +412,10 @@ class Session(BaseSession):
             if not isinstance(q.expression.this, exp.Table):
                 # Mysql parse treats EXPLAIN SELECT as a DESCRIBE SELECT statement
                 return await q.next()
-            name = q.expression.this.name
-            show = self.dialect().parse(f"SHOW COLUMNS FROM {name}")[0]
-            return await self._show(show) if isinstance(show, exp.Show) else None
+            table = q.expression.this
+            return await self._show(
+                exp.Show(this="COLUMNS", target=table.this, db=table.args.get("db"))
+            )
         return await q.next()
 
     async def _rollback_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From af289add006ff15448490e261e4e795930fdc672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 42/46] fix: accept IN as a synonym of FROM in SHOW statements

---
 mysql_mimic/dialect.py | 46 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/dialect.py b/mysql_mimic/dialect.py
index 9ca2f7a..1369518 100644
--- a/mysql_mimic/dialect.py
+++ b/mysql_mimic/dialect.py
@@ -1,9 +1,27 @@
+from typing import Any, Optional
+
+from sqlglot import expressions as exp
 from sqlglot.dialects import MySQL
 from sqlglot.parser import OPTIONS_TYPE
+from sqlglot.tokens import TokenType
+
+# SHOW statements of the tables in a database
+_SHOW_IN_DATABASE = {
+    "COLUMNS",
+    "EVENTS",
+    "INDEX",
+    "OPEN TABLES",
+    "TABLE STATUS",
+    "TABLES",
+    "TRIGGERS",
+}
 
 
 class MimicMySQL(MySQL):
-    """MySQL, where backticks in quoted identifiers are escaped by doubling them"""
+    """
+    MySQL, where backticks in quoted identifiers are escaped by doubling them,
+    and SHOW statements accept IN as a synonym of FROM
+    """
 
     class Tokenizer(MySQL.Tokenizer):
         IDENTIFIER_ESCAPES = ["`"]
@@ -19,3 +37,29 @@ class MimicMySQL(MySQL):
                 ("LEVEL", "SERIALIZABLE"),
             ),
         }
+
+        def _parse_show_mysql(
+            self,
+            this: str,
+            target: bool | str = False,
+            full: Optional[bool] = None,
+            global_: Optional[bool] = None,
+        ) -> exp.Show:
+            if this not in _SHOW_IN_DATABASE:
+                return super()._parse_show_mysql(this, target, full, global_)
+
+            table: Any = None
+            db: Any = None
+            if target:
+                self._match_set((TokenType.FROM, TokenType.IN))
+                table = self._parse_id_var()
+                if self._match(TokenType.DOT):
+                    db = table
+                    table = self._parse_id_var()
+            if self._match_set((TokenType.FROM, TokenType.IN)):
+                db = self._parse_id_var()
+
+            show = super()._parse_show_mysql(this, False, full, global_)
+            show.set("target", table)
+            show.set("db", db)
+            return show
-- 
2.43.0


From 0e719b1a46bc1171c5c90d9bfb9044faf9db3bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 43/46] fix: quote the table name of COM_FIELD_LIST, and send
 default values in one piece

---
 mysql_mimic/packets.py | 3 +--
 mysql_mimic/schema.py  | 5 +++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index e1b4ff0..9bf9cc9 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -378,8 +378,7 @@ def make_column_definition_41(
         if default is None:
             parts.append(uint_len(0))
         else:
-            default_values = server_charset.encode(default)
-            parts.extend([uint_len(len(default_values)), str_len(default_values)])
+            parts.append(str_len(server_charset.encode(default)))
     return _concat(*parts)
 
 
diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 023de5f..48a56fe 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -9,6 +9,7 @@ from sqlglot.executor import Table
 from sqlglot import expressions as exp
 
 from mysql_mimic.constants import INFO_SCHEMA
+from mysql_mimic.dialect import MimicMySQL
 from mysql_mimic.executor import execute
 from mysql_mimic.results import AllowedResult
 from mysql_mimic.errors import MysqlError, ErrorCode
@@ -282,11 +283,11 @@ def show_statement_to_info_schema_query(
 def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     show = exp.Show(
         this="COLUMNS",
-        target=exp.to_identifier(com_field_list.table),
+        target=exp.to_identifier(com_field_list.table, quoted=True),
     )
     if com_field_list.wildcard:
         show.set("like", exp.Literal.string(com_field_list.wildcard))
-    return show.sql(dialect="mysql")
+    return show.sql(dialect=MimicMySQL)
 
 
 class BaseInfoSchema:
-- 
2.43.0


From d011c925a390cee938b4c7e9e6d46f168dbb7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 44/46] fix: don't take quoted names for keywords in USE and
 DESCRIBE statements

---
 mysql_mimic/dialect.py | 14 ++++++++++++++
 mysql_mimic/schema.py  |  4 +++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/dialect.py b/mysql_mimic/dialect.py
index 1369518..020ea7e 100644
--- a/mysql_mimic/dialect.py
+++ b/mysql_mimic/dialect.py
@@ -38,6 +38,20 @@ class MimicMySQL(MySQL):
             ),
         }
 
+        STATEMENT_PARSERS = {
+            **MySQL.Parser.STATEMENT_PARSERS,
+            # Unlike in other dialects, a database name is all that can follow
+            TokenType.USE: lambda self: self.expression(
+                exp.Use, this=self._parse_table_parts()
+            ),
+        }
+
+        def _parse_describe(self) -> exp.Describe:
+            if self._curr and self._curr.token_type == TokenType.IDENTIFIER:
+                # SQLGlot takes some quoted names for keywords
+                return self.expression(exp.Describe, this=self._parse_table_parts())
+            return super()._parse_describe()
+
         def _parse_show_mysql(
             self,
             this: str,
diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 48a56fe..64b9ea8 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -322,7 +322,9 @@ class InfoSchema(BaseInfoSchema):
         return cls(
             info_schema_tables(
                 columns,
-                tables=[(catalog, db, t) for catalog, db, tables in dbs for t in tables],
+                tables=[
+                    (catalog, db, t) for catalog, db, tables in dbs for t in tables
+                ],
                 dbs=[(catalog, db) for catalog, db, _ in dbs if db],
             )
         )
-- 
2.43.0


From fa134294d4d0abff0ede36aba730ed395ae6f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 45/46] fix: accept 0 as server ID

---
 mysql_mimic/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/control.py b/mysql_mimic/control.py
index 8ef037c..81527bb 100644
--- a/mysql_mimic/control.py
+++ b/mysql_mimic/control.py
@@ -59,7 +59,9 @@ class LocalControl(Control):
     def __init__(self, server_id: Optional[int] = None):
         self._connection_seq = seq(self._MAX_CONNECTION_SEQ)
         self._connections: Dict[int, Connection] = {}
-        self.server_id = server_id or random.randint(0, self._MAX_SERVER_ID - 1)
+        if server_id is None:
+            server_id = random.randint(0, self._MAX_SERVER_ID - 1)
+        self.server_id = server_id
 
     async def add(self, connection: Connection) -> int:
         connection_id = self._new_connection_id()
-- 
2.43.0


From 2030094ca761805d052ee7ac7b83a02a2f7977ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 46/46] fix: don't let MOD format strings, nor ROUND calculate
 huge powers

---
 mysql_mimic/executor.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mysql_mimic/executor.py b/mysql_mimic/executor.py
index a4d17c5..78661e7 100644
--- a/mysql_mimic/executor.py
+++ b/mysql_mimic/executor.py
@@ -76,6 +76,22 @@ def _mul(left: Any, right: Any) -> Any:
     return _number(left) * _number(right)
 
 
+def _mod(left: Any, right: Any) -> Any:
+    # Python would take the string on the left for a format
+    return _number(left) % _number(right)
+
+
+def _round(
+    this: Any,
+    decimals: Any = None,
+    truncate: Any = None,  # pylint: disable=unused-argument
+) -> Any:
+    # Like in MySQL, the number of decimals is limited to 30. Python would calculate 10^decimals.
+    if decimals is not None:
+        decimals = max(-30, min(decimals, 30))
+    return round(this, decimals)
+
+
 def _number(value: Any) -> Any:
     if not isinstance(value, str):
         return value
@@ -86,8 +102,10 @@ def _number(value: Any) -> Any:
 _FUNCTIONS = {
     "BITWISELEFTSHIFT": null_if_any(_shift_left),
     "LIKE": null_if_any(_like),
+    "MOD": null_if_any(_mod),
     "MUL": null_if_any(_mul),
     "POW": null_if_any(_pow),
+    "ROUND": null_if_any(_round),
 }
 
 
-- 
2.43.0

