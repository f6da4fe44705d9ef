"""World = simulated network + real MysqlServer + recording application + model clients."""
import asyncio
import inspect
from collections import deque

import boot  # noqa: F401
import sim
import wire
from sim import SimLoop, SimSocket
from wire import ProtocolError

from mysql_mimic import MysqlServer, Session
from mysql_mimic.auth import (
    IdentityProvider, NativePasswordAuthPlugin, NoLoginAuthPlugin, User, AbstractClearPasswordAuthPlugin,
)
from mysql_mimic.control import LocalControl


class Violation(Exception):
    """The property is broken.  key identifies the failing call site/input for known findings."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class NoResponse(ProtocolError):
    pass


class Gate:
    """A suspension point of the application, released by the harness."""

    def __init__(self, world, name=""):
        self.world = world
        self.name = name
        self.fut = None
        self.waiting = 0
        self.opened = False

    async def wait(self):
        if self.opened:
            return
        if self.fut is None or self.fut.done():
            self.fut = self.world.loop.create_future()
        self.waiting += 1
        try:
            # shield: one cancelled waiter must not cancel the shared future
            await asyncio.shield(self.fut)
        finally:
            self.waiting -= 1

    def open(self):
        self.opened = True
        if self.fut is not None and not self.fut.done():
            self.fut.set_result(None)

    def fail(self, exc):
        self.opened = True
        if self.fut is not None and not self.fut.done():
            self.fut.set_exception(exc)


class AppSession(Session):
    """Recording application session.  Behaviour comes from world.app (an App)."""

    def __init__(self, world):
        super().__init__()
        self.world = world
        self.log = []
        self.n_init = self.n_close = self.n_reset = 0
        self.idx = len(world.sessions)
        self.conn_id = None
        world.sessions.append(self)

    def rec(self, *ev):
        self.log.append(ev)
        self.world.events.append((self.idx,) + ev)

    async def init(self, connection):
        self.rec("init", self.username, self.database)
        self.n_init += 1
        await super().init(connection)
        self.conn_id = connection.connection_id
        await self.world.app.call("init", self)

    async def close(self):
        self.rec("close")
        self.n_close += 1
        try:
            await self.world.app.call("close", self)
        finally:
            await super().close()

    async def reset(self):
        self.rec("reset", self.username, self.database)
        self.n_reset += 1
        await super().reset()
        await self.world.app.call("reset", self)

    async def use(self, database):
        self.rec("use", database)
        await super().use(database)
        await self.world.app.call("use", self, database)

    async def query(self, expression, sql, attrs):
        self.rec("query", sql, dict(attrs), self.username, self.database, expression.sql(dialect="mysql"))
        return await self.world.app.query(self, expression, sql, attrs)

    async def schema(self):
        self.rec("schema")
        return await self.world.app.call("schema", self) or {}


class App:
    """Default application: hooks = {name: fn(session, *args)} sync or async; query handler."""

    def __init__(self, query=None, **hooks):
        self._query = query
        self.hooks = hooks

    async def call(self, name, session, *args):
        fn = self.hooks.get(name)
        if fn is None:
            return None
        r = fn(session, *args)
        if inspect.isawaitable(r):
            r = await r
        return r

    async def query(self, session, expression, sql, attrs):
        if self._query is None:
            return None
        r = self._query(session, expression, sql, attrs)
        if inspect.isawaitable(r):
            r = await r
        return r


class ClearPlugin(AbstractClearPasswordAuthPlugin):
    """clear-password plugin with a recorded, scripted check."""

    name = "clear_test"

    def __init__(self, fn):
        self.fn = fn
        self.calls = []

    async def check(self, username, password):
        self.calls.append((username, password))
        return self.fn(username, password)


class Provider(IdentityProvider):
    """users: {name: User or None}; plugins: list of AuthPlugin."""

    def __init__(self, users=None, plugins=None, default_any=False):
        self.users = users or {}
        self.plugins = plugins or [NativePasswordAuthPlugin(), NoLoginAuthPlugin()]
        self.default_any = default_any
        self.lookups = []

    def get_plugins(self):
        return self.plugins

    async def get_user(self, username):
        self.lookups.append(username)
        if username in self.users:
            return self.users[username]
        if self.default_any:
            return User(name=username, auth_plugin="mysql_native_password")
        return None


class World:
    def __init__(self, app=None, provider=None, control=None, ssl=None, capabilities=None,
                 session_factory=None, server_id=7):
        self.loop = SimLoop()
        self.events = []
        self.sessions = []
        self.clients = []
        self.app = app or App()
        self.loop.enter()
        self._open = True
        kw = {}
        if capabilities is not None:
            from mysql_mimic.types import Capabilities
            kw["capabilities"] = Capabilities(capabilities)
        self.control = control if control is not None else LocalControl(server_id=server_id)
        self.server = MysqlServer(
            session_factory=session_factory or (lambda: AppSession(self)),
            control=self.control, identity_provider=provider, ssl=ssl, **kw,
        )
        self.loop.run_coro(self.server.start_server(port=1))
        self.listener = self.loop.servers[-1]

    # -- context manager ----------------------------------------------------------------
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.shutdown()
        return False

    def shutdown(self):
        if not self._open:
            return
        self._open = False
        loop = self.loop
        try:
            for c in self.clients:
                s = c.sock
                s.rx.clear()
                s.rx_error = ConnectionResetError(104, "reset")
                s.tx_error = BrokenPipeError(32, "pipe")
            for t in asyncio.all_tasks(loop):
                t.cancel()
            for _ in range(200):
                if not loop.has_work():
                    break
                loop.step()
        except BaseException:
            pass
        finally:
            loop.leave()
            loop._ready.clear()
            loop._scheduled.clear()
            for c in self.clients:
                c.transport = None
            try:
                loop._transports.clear()
            except Exception:
                pass
            asyncio.BaseEventLoop.close(loop) if False else None
            try:
                loop._closed = True
                loop.sim_selector.close()
            except Exception:
                pass

    def settle(self, **kw):
        if not self.loop.settle(**kw):
            if kw.get("until") is None:
                raise Violation("the event loop never becomes quiescent (busy loop)", key="busy-loop")
            return False
        return True

    def gate(self, name=""):
        return Gate(self, name)

    def live_tasks(self):
        return [t for t in asyncio.all_tasks(self.loop) if not t.done()]

    def client(self, caps=wire.FULL_CAPS, **kw):
        """Connect and read the server greeting."""
        c = Client(self, caps)
        c.connect(**kw)
        return c

    def login(self, caps=wire.FULL_CAPS, user=b"u", **kw):
        c = self.client(caps)
        r = c.login(user=user, **kw)
        if r.kind != "ok":
            raise Violation(f"plain login as {user!r} was answered with {r!r}", key="plain-login")
        return c


class Client:
    """Synchronous model client speaking to the server through one SimSocket."""

    def __init__(self, world, caps):
        self.world = world
        self.want_caps = caps
        self.caps = caps
        self.sock = SimSocket()
        self.transport = None
        self.hs = None
        self.greeting_err = None
        self.parser = None
        self.expect_seq = 0
        self.pos = 0  # consumed bytes of plain (decrypted) stream
        self.partial = b""  # multi-packet payload being reassembled
        self.in_multi = False
        self.stmts = {}
        self.history = []  # summaries of completed responses
        self.unsolicited = []
        self.allow_unsolicited = False
        self.tls = None
        self.split = None  # function(bytes) -> list of chunks
        self.keep_rows = True
        world.clients.append(self)

    # -- transport -----------------------------------------------------------------------
    def connect(self, settle=True, window="inf"):
        if window != "inf":
            self.sock.window = window
        self.transport = self.world.loop.connect(self.world.listener, self.sock)
        if not settle:
            return
        self.world.settle()
        self.read_greeting()

    def read_greeting(self):
        self.expect_seq = 0
        p = self._next_payload()
        if p is None:
            return False
        if p[:1] == b"\xff":
            # an ERR before the handshake may lack the SQL state in old protocols; ours has it
            self.greeting_err = wire.ERR(p, early=True)
            return True
        self.hs = wire.Handshake(p)
        self.caps = self.want_caps & self.hs.caps
        return True

    @property
    def closed(self):
        return self.sock.closed

    @property
    def eof(self):
        return self.sock.closed or self.sock.tx_eof

    def raw(self, data):
        """Deliver bytes to the server (through TLS when active) using the segmentation policy."""
        if self.tls is not None:
            data = self.tls.encrypt(data)
        self.deliver(data)

    def deliver(self, data):
        chunks = self.split(data) if self.split else [data]
        for ch in chunks:
            if ch:
                self.sock.rx.append(bytes(ch))

    def plain(self):
        if self.tls is not None:
            return self.tls.plain(self.sock)
        return self.sock.tx

    # -- packets -------------------------------------------------------------------------
    def _next_payload(self):
        """Next complete logical payload from the server, or None."""
        buf = self.plain()
        while True:
            avail = len(buf) - self.pos
            if avail < 4:
                return None
            n = buf[self.pos] | buf[self.pos + 1] << 8 | buf[self.pos + 2] << 16
            if avail < 4 + n:
                return None
            seq = buf[self.pos + 3]
            if seq != self.expect_seq:
                raise ProtocolError(
                    f"sequence id {seq} where {self.expect_seq} was due; payload {bytes(buf[self.pos+4:self.pos+44])!r}")
            self.expect_seq = (self.expect_seq + 1) & 0xFF
            part = bytes(buf[self.pos + 4:self.pos + 4 + n])
            self.pos += 4 + n
            if self.pos > 1 << 20 and self.tls is None:
                del buf[: self.pos]
                self.pos = 0
            if n == wire.MAXP:
                self.partial += part
                self.in_multi = True
                continue
            if self.in_multi:
                part = self.partial + part
                self.partial = b""
                self.in_multi = False
            return part

    def leftover(self):
        return len(self.plain()) - self.pos

    def pump(self):
        """Parse everything the server sent; returns True if the current response is complete."""
        while True:
            if self.parser is None or self.parser.done:
                if self.leftover() < 4:
                    break
                if not self.allow_unsolicited:
                    raise ProtocolError(
                        f"unsolicited bytes from the server: {bytes(self.plain()[self.pos:self.pos+80])!r}")
                self.expect_seq = self.plain()[self.pos + 3]
                p = self._next_payload()
                if p is None:
                    break
                self.unsolicited.append(p)
                continue
            p = self._next_payload()
            if p is None:
                break
            self.parser.feed(p)
        return self.parser is not None and self.parser.done

    # -- authentication ------------------------------------------------------------------
    def send_payload(self, payload, seq):
        data, nxt = wire.frame(payload, seq)
        self.expect_seq = nxt
        self.raw(data)

    def auth_step(self, payload):
        """Send one authentication payload with the next sequence id and read the reply."""
        self.parser = wire.Parser("auth", self.caps)
        self.send_payload(payload, self.expect_seq)
        self.world.settle()
        if not self.pump():
            return None
        return self.parser.r

    def login(self, user=b"u", auth=b"", db=None, plugin=b"mysql_native_password", attrs=None, charset=45,
              auth_switch=None, payload=None):
        if payload is None:
            payload = wire.handshake_response(self.caps if db is None or self.caps & wire.CONNECT_WITH_DB else self.caps,
                                              user, auth, db, plugin, attrs, charset)
        r = self.auth_step(payload)
        n = 0
        while r is not None and r.kind in ("switch", "more") and auth_switch is not None and n < 4:
            resp = auth_switch(r, n)
            n += 1
            if resp is None:
                break
            r = self.auth_step(resp)
        if r is None:
            raise NoResponse(f"no reply to the handshake response (closed={self.closed})")
        return r

    def start_tls(self, charset=45, joined=b""):
        """SSLRequest then TLS handshake; afterwards self.raw encrypts."""
        import tlsclient
        data, nxt = wire.frame(wire.ssl_request(self.caps, charset), self.expect_seq)
        tls = tlsclient.TlsClient()
        hello = tls.start()
        self.tls_pos0 = len(self.sock.tx)
        tls.rx_pos = len(self.sock.tx)
        self.deliver(data + hello if joined is True else data)
        if joined is not True:
            if joined == "settle":
                self.world.settle()
            self.deliver(hello)
        self.expect_seq = nxt
        for _ in range(50):
            self.world.settle()
            out = tls.advance(self.sock)
            if out:
                self.deliver(out)
            if tls.done:
                break
            if self.closed:
                break
            if not out and not self.world.loop.has_work():
                break
        if not tls.done:
            return False
        self.world.settle()
        self.tls = tls
        self.pos = 0
        return True

    # -- commands ------------------------------------------------------------------------
    def send(self, payload, cls=None):
        """Send a command (does not run the loop)."""
        self.pump_idle()
        cls = cls or wire.command_class(payload)
        if cls == "quit":
            self.parser = None
        else:
            self.parser = wire.Parser(cls, self.caps, keep_rows=self.keep_rows)
        data, nxt = wire.frame(payload, 0)
        self.expect_seq = nxt
        self.raw(data)

    def pump_idle(self):
        if self.parser is not None and not self.parser.done:
            raise RuntimeError("harness: command sent while a response is outstanding")
        self.pump()

    def cmd(self, payload, cls=None):
        """Send a command, run the loop to quiescence, return its complete response."""
        self.send(payload, cls)
        self.world.settle()
        return self.finish(payload)

    def finish(self, payload=b""):
        self.pump()
        if self.parser is None:
            return None
        if not self.parser.done:
            raise NoResponse(
                f"incomplete response to command {payload[:1].hex()} {payload[1:60]!r}: state={self.parser.state}, "
                f"rows so far={self.parser.row_count}, connection closed={self.closed}")
        if self.leftover():
            raise ProtocolError(f"bytes after the response: {bytes(self.plain()[self.pos:self.pos+60])!r}")
        return self.parser.r

    # conveniences
    def query(self, sql, attrs=(), enc="utf-8"):
        if isinstance(sql, str):
            sql = sql.encode(enc)
        return self.cmd(wire.com_query(sql, self.caps, attrs))

    def scalar(self, sql):
        r = self.query(sql)
        if r.kind != "rows":
            raise Violation(f"{sql!r} answered with {r!r}", key="scalar")
        rows = r.text_rows()
        if len(rows) != 1 or len(rows[0]) != 1:
            raise Violation(f"{sql!r} answered with rows {rows!r}", key="scalar")
        return rows[0][0]

    def prepare(self, sql, enc="utf-8"):
        if isinstance(sql, str):
            sql = sql.encode(enc)
        return self.cmd(wire.com_stmt_prepare(sql))

    def ping(self):
        r = self.cmd(wire.PING)
        return r.kind == "ok"

    def eof_close(self):
        """Client closes its end."""
        self.sock.rx_eof = True

    def reset_conn(self):
        self.sock.rx.clear()
        self.sock.rx_error = ConnectionResetError(104, "Connection reset by peer")
        self.sock.tx_error = BrokenPipeError(32, "Broken pipe")
