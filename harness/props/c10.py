"""C10 - every initialised session is closed exactly once; every connection is released."""
import asyncio
import errno

from hypothesis import strategies as st

import authlib
import tlsclient
import wire
from runner import Campaign
from world import App, AppSession, Client, World, check

from mysql_mimic.auth import AbstractClearPasswordAuthPlugin
from mysql_mimic.constants import KillKind
from mysql_mimic.control import LocalControl
from mysql_mimic.errors import MysqlError

PROPERTY = "C10"
LEVEL = "exploration"
RULE = ("cases = a conversation of up to 18 client packets (login with authentication switch, queries, cursors, COM_CHANGE_USER, ... optionally over TLS) ended by: a cut after every byte "
        "(EOF / reset / half-close with failing writes, in lockstep or with everything received at once), the failure of every socket write, a blocked client that disconnects, a KILL or a "
        "server shutdown at every event-loop iteration, protocol errors at every packet, an exception of 8 kinds raised by each of 15 application callbacks at each call; "
        "non-trivial = the connection did not end by a plain COM_QUIT in idle state")
ASSUMPTIONS = ["a session whose init callback raised or was cancelled has not been initialised",
               "while the application itself is suspended, the disconnect is noticed when it resumes",
               "a TLS connection may take asyncio's 30 s shutdown timeout to close"]


class Odd(Exception):
    def __str__(self):
        raise ValueError("no text")


EXCS = {"runtime": lambda: RuntimeError("app error"), "mysql": lambda: MysqlError("app error"), "cancelled": lambda: asyncio.CancelledError(), "timeout": lambda: asyncio.TimeoutError(),
        "conn": lambda: ConnectionResetError(errno.ECONNRESET, "backend gone"), "odd": lambda: Odd(), "eof": lambda: EOFError(), "stopa": lambda: StopAsyncIteration(),
        "incomplete": lambda: asyncio.IncompleteReadError(b"", 4)}
CALLBACKS = ["factory", "afactory", "add", "get_user", "get_default", "plugin", "check", "init", "query", "rows", "arows", "schema", "use", "reset", "close", "remove"]


class Reg(LocalControl):
    def __init__(self, env, server_id):
        super().__init__(server_id=server_id)
        self.env = env
        self.live = set()
        self.removed = []

    async def add(self, connection):
        await self.env.hook("add")
        i = await super().add(connection)
        self.live.add(i)
        return i

    async def remove(self, connection_id):
        self.removed.append(connection_id)
        r = await super().remove(connection_id)
        self.live.discard(connection_id)
        await self.env.hook("remove")
        return r


class Clear(AbstractClearPasswordAuthPlugin):
    name = "clear_test"

    def __init__(self, env):
        self.env = env

    async def check(self, username, password):
        await self.env.hook("check")
        return authlib.clear_check(username, password)


class Env:
    """World with a fault plan: raise at the n-th call of a callback, or suspend there."""

    def __init__(self, fault=None, gate_at=None, tls=False, asyncf=False, server_id=7):
        self.fault, self.gate_at = fault, gate_at
        self.counts = {}
        self.fired = False
        self.inited = []
        self.gate = None
        self.on = False
        prov = authlib.make_provider(["native", "multi"])
        prov.plugins.append(Clear(self))
        env = self
        g_user, g_def = prov.get_user, prov.get_default_plugin

        async def get_user(u):
            await env.hook("get_user")
            return await g_user(u)

        def get_default():
            env.shook("get_default")
            return g_def()
        prov.get_user, prov.get_default_plugin = get_user, get_default
        native = prov.plugins[0]
        auth0 = native.auth

        async def auth(info=None):
            gen = auth0(info)
            env.shook("plugin")
            r = await gen.asend(None)
            while True:
                x = yield r
                env.shook("plugin")
                try:
                    r = await gen.asend(x)
                except StopAsyncIteration:
                    return
        native.auth = auth
        self.control = Reg(self, server_id)
        kw = {"ssl": tlsclient.server_context()} if tls else {}
        names = {h: (lambda h: lambda s, *a: env.session_hook(h, s))(h) for h in ("init", "use", "reset", "schema", "close")}

        def factory():
            if env.w_ready:
                env.shook("factory")
            return AppSession(env.w)

        async def afactory():
            if env.w_ready:
                await env.hook("afactory")
            return AppSession(env.w)
        self.w_ready = False
        self.w = World(app=App(query=self.query, **names), provider=prov, control=self.control, session_factory=afactory if asyncf else factory, **kw)
        self.w_ready = True
        self.gate = self.w.gate("g")

    def due(self, name):
        if not self.on:
            return None
        n = self.counts[name] = self.counts.get(name, 0) + 1
        if self.fault and self.fault[0] == name and self.fault[1] == n:
            self.fired = True
            return "fault"
        if self.gate_at and self.gate_at[0] == name and self.gate_at[1] == n:
            return "gate"
        return None

    def shook(self, name):
        if self.due(name) == "fault":
            raise EXCS[self.fault[2]]()

    async def hook(self, name):
        d = self.due(name)
        if d == "fault":
            if len(self.fault) > 3 and self.fault[3]:
                await asyncio.sleep(0)
            raise EXCS[self.fault[2]]()
        if d == "gate":
            await self.gate.wait()

    async def session_hook(self, name, s):
        await self.hook(name)
        if name == "init":
            self.inited.append(s)
        if name == "schema":
            return {"d": {"t": {"a": "int"}}}

    async def query(self, s, e, sql, attrs):
        await self.hook("query")
        env = self
        if "none" in sql:
            return None
        if "big" in sql:
            return [["z" * 4000] for _ in range(50)], ["a"]
        if "plain" in sql:
            def rows():
                for i in range(4):
                    env.shook("rows")
                    yield [i]
            return rows(), ["a"]

        async def arows():
            for i in range(4):
                await env.hook("arows")
                yield [i]
        return arows(), ["a"]


def packets(caps, login="switch"):
    """The conversation: [(payload, sequence id)]."""
    if login == "switch":
        out = [(wire.handshake_response(caps, b"carol", b"", b"d", b"mysql_native_password", []), 1), (b"clear-pw\0", 3)]
    elif login == "plain":
        out = [(wire.handshake_response(caps, b"bob", b"", None, b"mysql_native_password", []), 1)]
    elif login == "multi":
        out = [(wire.handshake_response(caps, b"mara", b"", None, b"multi_client", []), 1), (b"hello", 3), (b"open sesame", 5)]
    else:
        out = [(wire.handshake_response(caps, b"carol", b"", b"d", b"mysql_native_password", []), 1), (b"wrong\0", 3)]
    q = lambda s: wire.com_query(s, caps)
    cmds = [q(b"SELECT a FROM plain"), q(b"INSERT INTO none VALUES (1)"), wire.com_stmt_prepare(b"SELECT a FROM t WHERE b = ?"),
            wire.com_stmt_execute(0, caps, [wire.P(wire.T_VAR_STRING, wire.lenstr(b"p"))], [], 1), wire.com_stmt_fetch(0, 2), wire.com_stmt_send_long_data(0, 0, b"xy"),
            wire.com_stmt_execute(0, caps, [wire.P(wire.T_VAR_STRING, wire.lenstr(b"p"), long=True)], [], 0), wire.com_field_list(b"t", b""), wire.com_init_db(b"d"), q(b"SET sql_mode = 'X'"),
            q(b"SELECT a FROM big"), wire.change_user(caps, b"bob", b"", b"d", 45, b"mysql_native_password", []), wire.com_stmt_reset(0), wire.com_stmt_close(0), wire.PING, b"\x77", b"\x01"]
    return out + [(c, 0) for c in cmds]


class Driver:
    def __init__(self, env, tls=False, window=None, first=False):
        self.env, self.w = env, env.w
        w = self.w
        if first:
            self.other = None
        else:
            self.other = w.login(user=b"bob", plugin=b"mysql_native_password")
        self.base_tasks = set(w.live_tasks())
        self.base_live = set(env.control.live)
        self.n_sess = len(w.sessions)
        self.c = Client(w, wire.FULL_CAPS)
        self.iters = 0
        self.hook_iter = None
        env.on = True

    def connect(self, window=None):
        c = self.c
        if window is not None:
            c.sock.window = window
        c.transport = self.w.loop.connect(self.w.listener, c.sock)
        c.caps = wire.FULL_CAPS & ~wire.CONNECT_ATTRS & ~wire.SSL
        return c

    @property
    def session(self):
        return self.w.sessions[self.n_sess] if len(self.w.sessions) > self.n_sess else None

    def run(self):
        """Until nothing happens any more (the iteration hook may end the connection in between)."""
        for _ in range(3000):
            if self.hook_iter and self.hook_iter[0] == self.iters:
                f, self.hook_iter = self.hook_iter[1], None
                f()
            if not self.w.loop.has_work():
                return
            self.w.loop.step()
            self.iters += 1
        check(False, "the event loop never becomes quiescent", key="busy-loop")

    def never_early(self):
        s = self.session
        if s is not None and not self.c.closed and not self.ended and not (self.env.gate_at and self.env.gate_at[0] == "close"):
            check(s.n_close == 0, "the session was closed while its connection is in use", key="early")
    ended = False

    def verdict(self, what, allow_timeout=False):
        """The connection has ended: was everything released?"""
        env, w, c = self.env, self.w, self.c
        env.gate.open()
        w.settle()
        if allow_timeout and not c.closed:
            w.loop.now += 40
            w.settle()
        s = self.session
        if s is not None:
            n_init = env.inited.count(s)
            check(s.n_close == (1 if n_init else 0), lambda: f"{what}: the session was initialised {n_init} times and closed {s.n_close} times", key="close-count")
            if n_init:
                names = [e[0] for e in s.log]
                check(names[-1] == "close" or env.fault and env.fault[0] == "close", lambda: f"{what}: the application was called after the session's close: {names[names.index('close'):]}", key="after-close")
        check(c.sock.closed, f"{what}: the socket is still open", key="socket")
        left = env.control.live - self.base_live
        check(not left, lambda: f"{what}: connection {left} is still registered", key="registry")
        tasks = [t for t in w.live_tasks() if t not in self.base_tasks]
        check(not tasks, lambda: f"{what}: still running: {tasks}", key="task")
        # nobody else is affected, and new clients are served
        env.on = False
        if self.other is None:
            self.other = w.login(user=b"bob")
            o = w.sessions[-1]
        else:
            o = w.sessions[0]
        check(self.other.ping() and self.other.query("SELECT a FROM plain").kind == "rows", f"{what}: another connection is unusable afterwards", key="other")
        check(o.n_close == 0, f"{what}: another connection's session was closed", key="other")
        n = w.login(user=b"bob")
        check(n.ping(), "new connection unusable", key="new")
        n.raw(wire.frame(b"\x01", 0)[0])
        w.settle()
        check(n.closed and w.sessions[-1].n_close == 1, "a plain COM_QUIT does not release the connection", key="quit")


def end(d, how, data=b""):
    """The client goes away."""
    s = d.c.sock
    d.ended = True
    if how == "eof":
        s.rx_eof = True
    elif how == "rst":
        s.rx.clear()
        s.rx_error = ConnectionResetError(errno.ECONNRESET, "reset")
        s.tx_error = BrokenPipeError(errno.EPIPE, "pipe")
    elif how == "rstq":  # bytes already received are still delivered
        s.rx_error = ConnectionResetError(errno.ECONNRESET, "reset")
        s.tx_error = BrokenPipeError(errno.EPIPE, "pipe")
    elif how == "half":
        s.rx_eof = True
        s.tx_error = BrokenPipeError(errno.EPIPE, "pipe")
    elif how == "timeout":
        s.rx_error = TimeoutError(errno.ETIMEDOUT, "timed out")
        s.tx_error = TimeoutError(errno.ETIMEDOUT, "timed out")


def finish(d, what, tls=False):
    """Let the client leave if the server did not end the connection by itself."""
    c = d.c
    d.run()
    d.never_early()
    d.ended = True
    if not c.closed:
        c.sock.window = None
        c.sock.rx_eof = True
        d.run()
    if not c.closed and (c.sock.tx_eof or tls):
        end(d, "rstq")
    d.verdict(what, allow_timeout=tls)


# ----------------------------------------------------------------- cut after every byte
def run_cut(case, ctx):
    env = Env()
    with env.w:
        d = Driver(env)
        c = d.connect()
        d.run()
        pk = packets(c.caps, case["login"])
        stream = [wire.frame(p, s)[0] for p, s in pk]
        left = case["cut"]
        ctx.nontrivial()
        ctx.tag(case["how"])
        if case["burst"]:
            data = b"".join(stream)[:left]
            c.raw(data)
        else:
            for data in stream:
                data = data[:left]
                left -= len(data)
                c.raw(data)
                if not left and case["eager"]:
                    break
                d.run()
                d.never_early()
                if not left or c.closed:
                    break
        end(d, case["how"])
        d.run()
        d.verdict(f"client gone ({case['how']}) after {case['cut']} bytes")


def stream_len(login):
    return sum(len(wire.frame(p, s)[0]) for p, s in packets(wire.FULL_CAPS & ~wire.CONNECT_ATTRS & ~wire.SSL, login))


def enum_cut(tier):
    for login in ("switch", "plain", "multi", "bad"):
        n = stream_len(login)
        for cut in range(0, n + 1):
            for hi, how in enumerate(("eof", "rst", "half", "rstq", "timeout")):
                for burst in (False, True):
                    for eager in (False, True):
                        if burst and eager:
                            continue
                        k = cut + hi + burst * 2 + eager
                        if tier == "quick" and (login == "switch" and k % 3 or login != "switch" and (cut > 120 or k % 3)):
                            continue
                        yield {"login": login, "cut": cut, "how": how, "burst": burst, "eager": eager}


# ----------------------------------------------------------------- failing writes, blocked clients
ERRNO = {"pipe": lambda: BrokenPipeError(errno.EPIPE, "pipe"), "reset": lambda: ConnectionResetError(errno.ECONNRESET, "reset"), "timeout": lambda: TimeoutError(errno.ETIMEDOUT, "t"),
         "unreach": lambda: OSError(errno.EHOSTUNREACH, "unreachable"), "aborted": lambda: ConnectionAbortedError(errno.ECONNABORTED, "aborted")}


def run_write(case, ctx):
    env = Env()
    with env.w:
        d = Driver(env)
        s = d.c.sock
        if "n" in case:
            s.fail_send_at, s.fail_exc = case["n"], ERRNO[case["err"]]()
            s.max_send = case.get("max_send")
        c = d.connect(window=case.get("window"))
        d.run()
        ctx.nontrivial()
        for p, q in packets(c.caps, case["login"]):
            if c.closed:
                break
            c.raw(wire.frame(p, q)[0])
            d.ended = d.ended or p == b"\x01"
            if not case.get("burst"):
                d.run()
        d.run()
        ctx.tag("closed-by-server" if c.closed else "open")
        if not c.closed:
            end(d, case.get("how", "rst"))
            d.run()
        d.verdict(f"write {case.get('n', case.get('window'))} failing")


def enum_write(tier):
    for login in ("switch", "plain", "multi"):
        for n in range(0, 40):
            for ei, err in enumerate(ERRNO):
                for ms in (None, 1000, 7):
                    for burst in (False, True):
                        if tier == "quick" and (n + ei + burst) % 3:
                            continue
                        if ms == 7 and n < 20:
                            yield {"login": login, "n": n * 9, "err": err, "max_send": ms, "burst": burst}
                        else:
                            yield {"login": login, "n": n, "err": err, "max_send": ms, "burst": burst}
    for login in ("switch", "plain", "multi"):
        for window in list(range(0, 130, 5)) + [200, 400, 800, 1500, 70_000, 100_000, 150_000]:
            for how in ("rst", "half", "rstq", "timeout"):
                for burst in (False, True):
                    yield {"login": login, "window": window, "how": how, "burst": burst}


# ----------------------------------------------------------------- application exceptions
def run_app(case, ctx):
    env = Env(fault=case["fault"], asyncf=case["fault"][0] == "afactory")
    with env.w:
        d = Driver(env)
        c = d.connect()
        d.run()
        for p, q in packets(c.caps, case["login"]):
            if c.closed:
                break
            c.raw(wire.frame(p, q)[0])
            d.ended = d.ended or p == b"\x01"
            if not case["burst"]:
                d.run()
                d.never_early()
        ctx.tag(case["fault"][0])
        finish(d, f"{case['fault'][2]} exception in {case['fault'][0]} (call {case['fault'][1]})")
        ctx.nontrivial(env.fired)


def enum_app(tier):
    for login in ("switch", "plain", "multi", "bad"):
        for cb in CALLBACKS:
            for n in (1, 2, 3, 4, 5, 9):
                if n > 1 and cb in ("factory", "afactory", "add", "remove", "init", "close", "get_default", "schema") and n > 2:
                    continue
                for exc in EXCS:
                    for later in (False, True):
                        for burst in (False, True):
                            if tier == "quick" and login in ("plain", "bad") and (n > 1 or burst):
                                continue
                            if tier == "quick" and n > 2 and (later or burst):
                                continue
                            yield {"login": login, "fault": [cb, n, exc, later], "burst": burst}


# ----------------------------------------------------------------- kills, shutdown, disconnects at every iteration; application suspended meanwhile
def run_iter(case, ctx):
    env = Env(gate_at=case.get("gate"), fault=case.get("fault"), server_id=case.get("server_id", 7))
    with env.w:
        d = Driver(env, first=case.get("first", False))

        def act():
            cid = max(env.control.live - d.base_live, default=None)
            h = case["how"]
            if h in ("kill", "kill2", "killq"):
                d.ended = d.ended or h != "killq"
                if cid is not None:
                    for _ in range(2 if h == "kill2" else 1):
                        co = env.control.kill(cid, KillKind.QUERY if h == "killq" else KillKind.CONNECTION)
                        try:
                            co.send(None)
                        except StopIteration:
                            pass
            elif h == "shutdown":
                d.ended = True
                for t in env.w.live_tasks():
                    if t not in d.base_tasks:
                        t.cancel()
            else:
                end(d, h)
        d.hook_iter = (case["at"], act)
        c = d.connect()
        d.run()
        ctx.nontrivial()
        ctx.tag(case["how"])
        for p, q in packets(c.caps, case["login"]):
            if c.closed or c.sock.rx_error:
                break
            c.raw(wire.frame(p, q)[0])
            d.ended = d.ended or p == b"\x01"
            if not case["burst"]:
                d.run()
                if case["how"] == "killq":
                    d.never_early()
        d.run()
        if case.get("gate") and case.get("open", True):
            env.gate.open()
        finish(d, f"{case['how']} at iteration {case['at']}" + (f" with {case['gate']} suspended" if case.get("gate") else ""))


def enum_iter(tier):
    for login in ("switch", "plain", "multi", "bad"):
        for how in ("kill", "kill2", "killq", "shutdown", "eof", "rst", "half"):
            for at in range(0, 110):
                for burst in (False, True):
                    if burst and at > 60 or tier == "quick" and (at + burst) % 2 and login != "switch" or login == "bad" and at > 16:
                        continue
                    yield {"login": login, "how": how, "at": at, "burst": burst}


def enum_gates(tier):
    for cb in CALLBACKS:
        if cb in ("factory", "afactory", "get_default", "plugin", "rows"):
            continue
        for n in (1, 2, 3, 6):
            for how in ("kill", "kill2", "killq", "shutdown", "eof", "rst", "half"):
                for at in (3, 12, 30, 60, 100, 140):
                    for burst in (False, True):
                        if tier == "quick" and n > 2 and burst:
                            continue
                        yield {"login": "switch", "how": how, "at": at, "burst": burst, "gate": [cb, n]}


# ----------------------------------------------------------------- every connection id counts, the smallest and the largest included
def enum_ids(tier):
    for sid in (0, 1, 255, 256, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001):
        for first in (True, False):
            for how in ("kill", "killq", "shutdown", "eof", "rst", "half"):
                for at in (0, 1, 2, 4, 7, 11, 20, 45, 500):
                    for gate in (None, ["close", 1], ["init", 1]):
                        if gate and at < 4:
                            continue
                        yield {"login": "plain", "how": how, "at": at, "burst": at % 2 == 1, "server_id": sid, "first": first, **({"gate": gate} if gate else {})}


# ----------------------------------------------------------------- protocol errors at every packet
def run_proto(case, ctx):
    env = Env()
    with env.w:
        d = Driver(env)
        c = d.connect()
        d.run()
        ctx.nontrivial()
        ctx.tag(case["what"])
        for i, (p, q) in enumerate(packets(c.caps, case["login"])):
            if c.closed:
                break
            data = wire.frame(p, q)[0]
            if i == case["i"]:
                k = case["what"]
                if k == "seq":
                    data = wire.frame(p, (q + 3) % 256)[0]
                elif k == "empty":
                    data = wire.frame(b"", q)[0]
                elif k == "trunc":
                    data = wire.frame(p[:max(1, len(p) * case["frac"] // 8)], q)[0]
                elif k == "junk":
                    data = wire.frame(p + b"\xff\0\xfe" * 7, q)[0]
                elif k == "ff":
                    data = wire.frame(p[:1] + b"\xff" * len(p[1:]), q)[0]
                elif k == "zero":
                    data = wire.frame(p[:1] + b"\0" * len(p[1:]), q)[0]
                elif k == "len":
                    data = b"\xff\xff\xff" + data[3:]
                elif k == "ssl":
                    data = wire.frame(wire.ssl_request(c.caps), q)[0]
                elif k == "dup":
                    data = data + data
            c.raw(data)
            d.ended = d.ended or p == b"\x01"
            if not case["burst"]:
                d.run()
                d.never_early()
        finish(d, f"protocol error {case['what']} in packet {case['i']}")


def enum_proto(tier):
    for login in ("switch", "plain", "multi"):
        n = len(packets(wire.FULL_CAPS, login))
        for i in range(n):
            for what in ("seq", "empty", "trunc", "junk", "ff", "zero", "len", "ssl", "dup"):
                for frac in range(8) if what == "trunc" else (0,):
                    for burst in (False, True):
                        yield {"login": login, "i": i, "what": what, "frac": frac, "burst": burst}


# ----------------------------------------------------------------- TLS
def run_tls(case, ctx):
    env = Env(tls=True, fault=case.get("fault"))
    with env.w:
        d = Driver(env)
        c = d.connect()
        c.caps = wire.FULL_CAPS & ~wire.CONNECT_ATTRS | wire.SSL
        d.run()
        c.pos = 0
        c.expect_seq = 0
        c.read_greeting()
        ctx.nontrivial()
        ctx.tag(case["stage"])
        st_ = case["stage"]
        if st_ == "request":
            data = wire.frame(wire.ssl_request(c.caps), 1)[0]
            c.raw(data[:case["n"]])
        elif st_ == "hello":
            t = tlsclient.TlsClient()
            data = wire.frame(wire.ssl_request(c.caps), 1)[0] + t.start()
            c.raw(data[:36 + case["n"] * 7])
        elif st_ == "garbage":
            c.raw(wire.frame(wire.ssl_request(c.caps), 1)[0])
            d.run()
            c.raw(bytes([(case["n"] * 37 + i * i) & 255 for i in range(40)]))
        else:
            c.caps = wire.FULL_CAPS & c.hs.caps & ~wire.CONNECT_ATTRS | wire.SSL
            check(c.start_tls(), "TLS handshake failed")
            for p, q in packets(c.caps, "switch")[:case["n"]]:
                if c.closed:
                    break
                c.raw(wire.frame(p, q + 1 if q else 0)[0])
                d.ended = d.ended or p == b"\x01"
                d.run()
        d.run()
        if case["how"] != "stay":
            end(d, case["how"])
        finish(d, f"TLS connection ended by {case['how']} at {case['stage']} {case['n']}", tls=True)


def enum_tls(tier):
    for how in ("eof", "rst", "half", "rstq", "timeout"):
        for n in range(0, 37, 4):
            yield {"stage": "request", "n": n, "how": how}
        for n in range(0, 60, 3):
            yield {"stage": "hello", "n": n, "how": how}
        for n in range(4):
            yield {"stage": "garbage", "n": n, "how": how}
        for n in range(0, 20):
            yield {"stage": "inside", "n": n, "how": how}
    for cb in ("init", "query", "close", "arows", "reset"):
        for exc in ("runtime", "mysql", "cancelled", "conn"):
            yield {"stage": "inside", "n": 20, "how": "stay", "fault": [cb, 1, exc, False]}


# ----------------------------------------------------------------- random combinations
@st.composite
def cases(draw):
    case = {"login": draw(st.sampled_from(["switch", "plain", "multi"])), "how": draw(st.sampled_from(["kill", "kill2", "killq", "shutdown", "eof", "rst", "half", "rstq", "timeout"])),
            "at": draw(st.integers(0, 120)), "burst": draw(st.booleans())}
    if draw(st.booleans()):
        case["gate"] = [draw(st.sampled_from([c for c in CALLBACKS if c not in ("factory", "afactory", "get_default", "plugin", "rows")])), draw(st.integers(1, 5))]
    if draw(st.integers(0, 2)):
        case["fault"] = [draw(st.sampled_from([c for c in CALLBACKS if c != "afactory"])), draw(st.integers(1, 6)), draw(st.sampled_from(sorted(EXCS))), draw(st.booleans())]
    return case


CAMPAIGNS = [
    Campaign("cut", run_cut, enum=enum_cut, cpu=15),
    Campaign("writes", run_write, enum=enum_write, cpu=15),
    Campaign("app", run_app, enum=enum_app, cpu=15),
    Campaign("iterations", run_iter, enum=enum_iter, cpu=15),
    Campaign("suspended", run_iter, enum=enum_gates, cpu=15),
    Campaign("ids", run_iter, enum=enum_ids, cpu=15),
    Campaign("protocol", run_proto, enum=enum_proto, cpu=15),
    Campaign("tls", run_tls, enum=enum_tls, cpu=15),
    Campaign("random", run_iter, strategy=cases, quick=1500, thorough=60000, cpu=15),
]
