"""C09 - KILL QUERY spares the connection; KILL CONNECTION ends exactly the target."""
from hypothesis import strategies as st

import wire
from runner import Campaign
from wire import ProtocolError
from world import App, World, check

import asyncio

from mysql_mimic.constants import KillKind
from mysql_mimic.control import LocalControl
from mysql_mimic.errors import MysqlError

PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("cases = a victim connection performing 1..4 (pipelined or lockstep) activities out of 40 (idle, half-received packet, suspended in every application callback, streaming finite "
        "and infinite sources to a blocked or reading client, cursors, COM_CHANGE_USER, no-reply commands, an application that swallows / converts / delays the cancellation, kills "
        "itself, ...), with KILLs injected at chosen event-loop iterations, by KILL statements of another connection or directly through Control; non-trivial = a KILL arrived "
        "while the victim had an unfinished command, or within 2 loop iterations of one")
ASSUMPTIONS = ["a KILL QUERY reaching a statement that is suspended in the application (and does not swallow the cancellation) must abort it",
               "after KILL CONNECTION the client may receive one final ERR packet, or none, before the close",
               "statement being killed is located from the responses completed when the KILL was issued"]

GATED = ("gq", "gs", "gs0", "gsn", "gfail", "gpar")
COLS = ["a", "b"]
HIGH_WATER = 64 * 1024  # asyncio: drain() waits from there on


class Reg(LocalControl):
    """Registry that also counts."""

    def __init__(self):
        super().__init__(server_id=7)
        self.live = {}
        self.slow = None  # registration takes until this gate opens

    async def add(self, connection):
        i = await super().add(connection)
        self.live[i] = connection
        if self.slow:
            await self.slow.wait()
        return i

    async def remove(self, connection_id):
        self.live.pop(connection_id, None)
        return await super().remove(connection_id)


# ----------------------------------------------------------------- application
class Fleet:
    """One victim V, one killer K, one bystander B and the scripted application."""

    def __init__(self, case):
        self.case = case
        self.control = Reg()
        self.gates = {}
        self.fill = 100
        self.armed = 0
        self.issued = []
        self.close_finished = []
        self.hook_gate = None  # gate for init/reset/use/schema/close hooks of the victim
        hooks = {h: self.hook(h) for h in ("init", "reset", "use", "schema", "close")}
        self.w = World(app=App(query=self.query, **hooks), control=self.control)

    def hook(self, name):
        async def f(s, *a):
            if self.case.get("hook") == name and s is getattr(self, "vs", None):
                await self.gate("hook").wait()
            if self.case.get("selfhook") == name and s is getattr(self, "vs", None) and self.armed:
                self.armed -= 1
                for k in self.case["pat"]:
                    self.issued.append(k)
                    await self.control.kill(max(self.control.live), {"q": KillKind.QUERY, "c": KillKind.CONNECTION}[k])
                    if self.case.get("linger"):
                        try:
                            await asyncio.sleep(0)
                        except asyncio.CancelledError:
                            if self.case["linger"] != "swallow":
                                raise
            if name == "close":
                self.close_finished.append(s.idx)
            if name == "schema":
                return {"d": {"tt": {"x": "int", "y": "text"}}}
        return f

    def gate(self, name):
        if name not in self.gates:
            self.gates[name] = self.w.gate(name)
        return self.gates[name]

    async def query(self, s, e, sql, attrs):
        kind, _, name = sql.split(" FROM k_")[1].split(" ")[0].partition("_")
        own = s.connection.connection_id
        control = s.connection.control
        rows = [[i, "r%d" % i] for i in range(4)]
        if kind == "none":
            return None
        if kind == "rows":
            return rows, COLS
        if kind == "fail":
            raise MysqlError("no such thing")
        if kind == "gq":
            await self.gate(name).wait()
            return rows, COLS
        if kind == "gfail":
            await self.gate(name).wait()
            raise RuntimeError("late failure")
        if kind == "gpar":  # the application awaits a child task
            t = asyncio.ensure_future(self.gate(name).wait())
            await t
            return rows, COLS
        if kind == "gs":
            async def gs():
                yield rows[0]
                yield rows[1]
                await self.gate(name).wait()
                yield rows[2]
                yield rows[3]
            return gs(), COLS
        if kind == "gs0":  # the first row (and with it the column types) is not there yet
            async def gs0():
                await self.gate(name).wait()
                for r in rows:
                    yield r
            return gs0(), COLS
        if kind == "gsn":  # the types of the columns are still unknown
            async def gsn():
                yield [None, None]
                yield [1, None]
                await self.gate(name).wait()
                yield rows[2]
                yield rows[3]
            return gsn(), COLS
        if kind == "fill":
            return [[1, "z" * self.fill]], COLS
        if kind == "big":
            return [[i, "x" * 3000] for i in range(60)], COLS
        if kind == "inf":
            def inf():
                i = 0
                while True:
                    yield [i, "y" * 40]
                    i += 1
            return inf(), COLS
        if kind == "infa":
            async def infa():
                i = 0
                while True:
                    yield [i, "y" * 40]
                    i += 1
            return infa(), COLS
        if kind == "swallow":
            try:
                await self.gate(name).wait()
            except asyncio.CancelledError:
                pass
            return rows, COLS
        if kind == "swallow2":
            try:
                await self.gate(name).wait()
            except asyncio.CancelledError:
                await self.gate(name + "_2").wait()
            return rows, COLS
        if kind == "cleanup":
            try:
                await self.gate(name).wait()
            finally:
                await self.gate(name + "_2").wait()
            return rows, COLS
        if kind == "convert":
            try:
                await self.gate(name).wait()
            except asyncio.CancelledError:
                raise RuntimeError("cancelled")
            return rows, COLS
        if kind == "failclean":
            try:
                await self.gate(name).wait()
            except asyncio.CancelledError:
                async def g():
                    yield rows[0]
                    raise RuntimeError("cancelled while streaming")
                return g(), COLS
            return rows, COLS
        # the application kills its own connection
        how = {"q": KillKind.QUERY, "c": KillKind.CONNECTION}[kind[-1]]
        if kind[:-1] == "selfrows":
            await control.kill(own, how)
            return rows, COLS
        if kind[:-1] == "selfnone":
            await control.kill(own, how)
            return None
        if kind[:-1] == "selffail":
            await control.kill(own, how)
            raise MysqlError("after the kill")
        if kind[:-1] == "selfstream":
            async def ss():
                yield rows[0]
                await control.kill(own, how)
                for r in rows[1:]:
                    yield r
            return ss(), COLS
        if kind[:-1] == "selfend":
            async def se():
                for r in rows:
                    yield r
                await control.kill(own, how)
            return se(), COLS
        raise AssertionError(kind)


# ----------------------------------------------------------------- activities: name -> (payload, expected kind)
def q(s):
    return lambda c, n: wire.com_query((s % n if "%" in s else s).encode(), c.caps)


ACTS = {
    "ping": (lambda c, n: wire.PING, "ok"),
    "debug": (lambda c, n: wire.DEBUG, "eof"),
    "badcmd": (lambda c, n: b"\x77", "err"),
    "static": (q("SELECT @@version, CONNECTION_ID()"), "rows"),
    "set": (q("SET sql_mode = 'ANSI'"), "ok"),
    "show": (q("SHOW COLUMNS FROM d.tt"), "rows"),
    "fields": (lambda c, n: wire.com_field_list(b"tt", b""), None),
    "init_db": (lambda c, n: wire.com_init_db(b"d%d" % n), "ok"),
    "use": (q("USE d%d"), "ok"),
    "cu": (lambda c, n: wire.change_user(c.caps, b"u2", b"", b"dd", 45, b"mysql_native_password", []), "ok"),
    "reset": (lambda c, n: wire.com_stmt_reset(0), "ok"),
    "prep": (lambda c, n: wire.com_stmt_prepare(b"SELECT a FROM k_rows WHERE x = ?"), "prepare"),
    "long": (lambda c, n: wire.com_stmt_send_long_data(0, 0, b"L%d;" % n), "none"),
    "close": (lambda c, n: wire.com_stmt_close(77), "none"),
    "exec": (lambda c, n: wire.com_stmt_execute(0, c.caps, [wire.P(wire.T_VAR_STRING, wire.lenstr(b"p"))], [], 0), "rows"),
    "gexec": (lambda c, n: wire.com_stmt_execute(1, c.caps, [], [], 0), "rows"),
    "gcur": (lambda c, n: wire.com_stmt_execute(1, c.caps, [], [], 1), "rows"),
    "fetch": (lambda c, n: wire.com_stmt_fetch(2, 1), None),
    "gfetch": (lambda c, n: wire.com_stmt_fetch(2, 9), None),
    "bexec": (lambda c, n: wire.com_stmt_execute(3, c.caps, [], [], 0), "rows"),
    "zexec": (lambda c, n: wire.com_stmt_execute(4, c.caps, [], [], 0), "rows"),
    "zcur": (lambda c, n: wire.com_stmt_execute(4, c.caps, [], [], 1), "rows"),
}
APPKINDS = ["none", "fill", "rows", "fail", "gq", "gfail", "gpar", "gs", "gs0", "gsn", "big", "inf", "infa", "swallow", "swallow2", "cleanup", "convert", "failclean",
            "selfrowsq", "selfrowsc", "selfnoneq", "selfnonec", "selffailq", "selffailc", "selfstreamq", "selfstreamc", "selfendq", "selfendc"]
for _k in APPKINDS:
    ACTS[_k] = (q("SELECT a, b FROM k_" + _k + "_g%d x"), {"none": "ok", "fail": "err", "gfail": "err"}.get(_k, "rows"))
for _k, _s in {"killself_q": "KILL QUERY %(me)d", "killself_c": "KILL %(me)d", "killself_cc": "KILL CONNECTION %(me)d"}.items():
    ACTS[_k] = ((lambda s: lambda c, n: wire.com_query((s % {"me": c.hs.connection_id}).encode(), c.caps))(_s), "ok")
ROWS = {"rows": 4, "fill": 1, "gq": 4, "gpar": 4, "gs": 4, "gs0": 4, "gsn": 4, "zexec": 4, "zcur": 0, "big": 60, "static": 1, "show": 2, "exec": 4, "gexec": 4, "gcur": 0, "bexec": 60, "swallow": 4, "swallow2": 4, "cleanup": 4, "convert": 4}
SELF_Q = ("selfrowsq", "selfnoneq", "selffailq", "selfstreamq", "selfendq", "killself_q")
SELF_C = ("selfrowsc", "selfnonec", "selffailc", "selfstreamc", "selfendc", "killself_c", "killself_cc")
HOOK_OF = {"show": "schema", "fields": "schema", "init_db": "use", "use": "use", "cu": "reset", "reset": "reset"}
LENIENT = ("swallow", "swallow2", "cleanup", "convert", "failclean")  # application reacts to the kill in its own way




def ODD(vid):
    """Ids of no connection that resemble the victim's: equal after truncation, sign change, loss of a prefix or of a digit."""
    return {"zero": 0, "v+2^32": vid + (1 << 32), "v+2^33": vid + (1 << 33), "v+2^64": vid + (1 << 64), "v-2^32": vid - (1 << 32), "v^2^31": vid ^ (1 << 31),
            "v^2^24": vid ^ (1 << 24), "v^2^20": vid ^ (1 << 20), "v&16": vid & 0xFFFF or 40000, "-v": -vid, "v*10": vid * 10, "v*10^10": vid * 10 ** 10 + 7, "v/10": vid // 10 or 41000, "swap": int.from_bytes(vid.to_bytes(4, "little"), "big")}


class Pipe:
    """Parses the responses to a pipeline of commands."""

    def __init__(self, c):
        self.c, self.todo, self.done = c, [], []
        self.cur = None

    def expect(self, idx, cls):
        self.todo.append((idx, cls))

    def poll(self):
        c = self.c
        while True:
            if self.cur is None:
                if not self.todo:
                    return len(self.done)
                self.cur = self.todo.pop(0)
                c.parser = wire.Parser(self.cur[1], c.caps)
                c.expect_seq = 1
                if c.parser.done:
                    self.done.append((self.cur[0], c.parser.r))
                    self.cur = None
                    continue
            try:
                p = c._next_payload()
            except ProtocolError:
                if self.final_err():
                    return len(self.done)
                raise
            if p is None:
                return len(self.done)
            c.parser.feed(p)
            if c.parser.done:
                self.done.append((self.cur[0], c.parser.r))
                self.cur = None

    def final_err(self):
        """Is what's left a single last ERR packet (any sequence number)?"""
        rest = bytes(self.c.plain()[self.c.pos:])
        return len(rest) > 9 and int.from_bytes(rest[:3], "little") == len(rest) - 4 and rest[4] == 0xFF and self.c.closed


def drive(coro):
    """Run a coroutine that never suspends."""
    try:
        coro.send(None)
    except StopIteration:
        return
    raise RuntimeError("Control.kill suspended")


def run(case, ctx):
    f = Fleet(case)
    with f.w as w:
        K, B = w.login(user=b"killer"), w.login(user=b"by")
        by_gate = "by"
        B.send(wire.com_query(b"SELECT a FROM k_gq_by x", B.caps))
        w.settle()
        V = w.login(user=b"victim")
        f.vs = vs = w.sessions[-1]
        vid = V.hs.connection_id
        for sql in (b"SELECT a FROM k_rows WHERE x = ?", b"SELECT a FROM k_gs_gx x", b"SELECT a FROM k_gs_gf x", b"SELECT a FROM k_big x", b"SELECT a FROM k_gs0_gz x"):
            check(V.prepare(sql).kind == "prepare", "prepare failed")
        check(V.cmd(wire.com_stmt_execute(2, V.caps, [], [], 1)).kind == "rows", "cursor not opened")
        acts = case["acts"]
        if case.get("spare") is not None:
            # the response to "fill" leaves this many bytes until the server has to wait for the client
            f.fill = 30_000
            at = len(V.plain())
            check(V.query("SELECT a, b FROM k_fill_x x").kind == "rows", "query failed")
            f.fill = HIGH_WATER - (len(V.plain()) - at - f.fill) - case["spare"]
        V.sock.window = case.get("window")
        pipe = Pipe(V)
        sent = 0
        n_log0 = len(vs.log)

        def send(i, half=None):
            p = ACTS[acts[i]][0](V, i)
            pipe.expect(i, wire.command_class(p))
            data = wire.frame(p, 0)[0]
            if half is not None:
                V.raw(data[:half % len(data)])
                return data[half % len(data):]
            V.raw(data)

        kills = []  # {"kind", "lo", "hi", "target"}
        pend_sql = []
        reaped = {}
        infinite = any(a in ("inf", "infa") for a in acts)
        must_abort = set()
        todo = sorted(case["kills"], key=lambda k: k[0])
        kq = []  # KILL statements waiting for the killer to be free
        overlap = False
        rest = None
        half = case.get("half")
        it = 0
        horizon = max([k[0] for k in todo] + [case.get("open_at") or 0, case.get("read_at") or 0]) + 2
        last_busy = None

        def target(t):
            x = {"v": vid, "unknown": 0x00070000 + 9999, "k": K.hs.connection_id, **ODD(vid)}[t]
            return x if t in "vk" or x not in f.control.live else 0x00070000 + 9999

        def busy():
            return pipe.poll() < sent

        def frontier():
            """Index of the first activity without a complete response (no-reply ones don't count)."""
            n = pipe.poll()
            i = pipe.done[-1][0] + 1 if n else 0
            while i < sent and ACTS[acts[i]][1] == "none":
                i += 1
            return i

        def inject(kind, t, how):
            nonlocal overlap
            k = {"kind": kind, "t": t, "lo": frontier(), "hi": None}
            if t == "v" and (busy() or (last_busy is not None and it - last_busy <= 2)):
                overlap = True
            if how == "direct":
                if t == "v" and kind == "q" and k["lo"] < sent:
                    a = acts[k["lo"]]
                    g = f.gates.get("g%d" % k["lo"]) if a in GATED else f.gates.get({"gexec": "gx", "gfetch": "gf", "zexec": "gz", "zcur": "gz"}.get(a, "-"))
                    if g is not None and g.waiting and not g.opened:
                        must_abort.add(k["lo"])
                drive(f.control.kill(target(t), {"q": KillKind.QUERY, "c": KillKind.CONNECTION}[kind]))
                k["hi"] = max(k["lo"], frontier())
                if case.get("window") is not None:
                    k["hi"] = len(acts)
            else:
                kq.append((k, how))
            kills.append(k)

        def killer_step():
            """Send the next KILL statement; collect the response of the previous one."""
            if pend_sql:
                K.pump()
                if K.parser.done:
                    k = pend_sql.pop()
                    check(K.parser.r.kind in (("ok",) if k["t"] == "v" else ("ok", "err")), lambda: f"KILL answered with {K.parser.r!r}", key="kill-response")
                    check(not K.leftover(), "bytes after the response to KILL", key="kill-response")
                    k["hi"] = len(acts) if case.get("window") is not None else max(k["lo"], frontier())
            if not pend_sql and kq and not K.closed:
                k, how = kq.pop(0)
                k["lo"] = frontier()
                fmt = {"q": ["KILL QUERY %d", "kill query %d;"], "c": ["KILL %d", "KILL CONNECTION %d", "kill %d"]}[k["kind"]]
                K.send(wire.com_query((fmt[how % len(fmt)] % target(k["t"])).encode(), K.caps))
                pend_sql.append(k)

        if case.get("pipelined"):
            for i in range(len(acts)):
                r = send(i, half if half is not None and i == len(acts) - 1 else None)
                rest = r if r is not None else rest
            sent = len(acts)

        def tick():
            nonlocal it, sent, rest, last_busy
            if busy():
                last_busy = it
            elif not case.get("pipelined") and sent < len(acts) and not V.closed:
                r = send(sent, half if half is not None and sent == len(acts) - 1 else None)
                rest = r if r is not None else rest
                sent += 1
                last_busy = it
            while todo and todo[0][0] <= it:
                _, kind, t, how = todo.pop(0)
                inject(kind, t, how)
            killer_step()
            if case.get("open_at") is not None and it == case["open_at"]:
                open_all()
            if case.get("read_at") is not None and it == case["read_at"]:
                V.sock.window = None
            if rest is not None and it == case.get("rest_at", 6):
                V.raw(rest)
                rest = None
            if w.loop.has_work():
                w.loop.step()
            it += 1
            # an infinite statement that no KILL hit is reaped; it has to end soon after
            if infinite and rest is None and it > horizon and not todo and not kq and not pend_sql and V.sock.window is None and not V.closed and not any(k["kind"] == "c" and k["t"] == "v" for k in kills):
                i = frontier()
                if i < sent and acts[i] in ("inf", "infa"):
                    since = reaped.setdefault(i, it)
                    if it - since == 3:
                        inject("q", "v", "direct")
                    check(it - since < 14, "an infinite statement survived KILL QUERY", key="not-aborted")

        opened = [False]

        def open_all():
            opened[0] = True
            for g in list(f.gates.values()):
                if g is not f.gates.get(by_gate):
                    g.open()

        def calm(limit=400):
            nonlocal it
            quiet = 0
            for _ in range(limit):
                if opened[0]:
                    open_all()
                tick()
                quiet = quiet + 1 if not w.loop.has_work() and not kq and not pend_sql else 0
                if quiet >= 3 and (sent == len(acts) or V.closed or busy()):
                    return True
            return False

        while it < horizon or kq or (pend_sql and it < horizon + 60):
            tick()
        calm()
        check(not pend_sql or K.closed or any(k["t"] == "k" for k in kills), "the KILL statement got no response", key="kill-response")
        conn_kill = [k for k in kills if k["kind"] == "c" and k["t"] == "v"]
        V.sock.window = None if not conn_kill else V.sock.window
        calm()
        lenient_end = any(a in LENIENT for a in acts) or case.get("hook")
        if conn_kill and not lenient_end and rest is None:
            # the client does not even read: the connection has to go away nevertheless
            check(V.closed, lambda: f"the killed connection is still open (blocked client: {case.get('window') is not None and V.sock.window == 0}), its session was closed {vs.n_close} times", key="kill-open")
        if rest is not None:
            if not V.closed:
                V.raw(rest)
            rest = None
        V.sock.window = None
        open_all()
        calm()
        if rest is not None and not V.closed:
            V.raw(rest)
            rest = None
            calm()
        open_all()
        w.settle(limit=3000) if not infinite else calm(100)
        n = pipe.poll()
        killed_self_idx = next((i for i, a in enumerate(acts) if a in SELF_C), None)
        dead = bool(conn_kill) or (killed_self_idx is not None and frontier() > killed_self_idx) or V.closed
        ctx.nontrivial(overlap or any(a in SELF_Q + SELF_C for a in acts))
        for a in acts:
            ctx.tag(a)
        # ---- responses
        aborted = []
        spoiled = set()
        for i, r in pipe.done:
            a = acts[i]
            want = ACTS[a][1]
            if want is None:
                want = {"fields": "fields", "fetch": "rows", "gfetch": "rows"}[a]
                got = r.kind if r.kind in ("err", "none") else want
                if a in ("fetch", "gfetch") and ("cursor" in spoiled or r.kind != "err"):
                    got = want
            else:
                got = r.kind
            if a in ("exec", "gexec", "gcur", "bexec", "zexec", "zcur") and r.kind == "err" and "unknown" in spoiled:
                got = want
            if got == "err" and want != "err":
                if a in LENIENT or a in SELF_Q + SELF_C:
                    if a in LENIENT:
                        check(any(k["t"] == "v" for k in kills), lambda: f"{a} failed although no KILL was aimed at it: {r!r}", key="spurious")
                        aborted.append(i)
                    continue
                aborted.append(i)
                if a in ("fetch", "gfetch"):
                    spoiled.add("cursor")
                continue
            check(got == want, lambda: f"activity {i} ({a}) was answered with {r!r} instead of {want}", key="response")
            if a in SELF_Q + SELF_C or a == "failclean":
                continue
            if got == "rows" and a in ROWS:
                check(len(r.rows) == ROWS[a], lambda: f"activity {i} ({a}) delivered {len(r.rows)} of {ROWS[a]} rows without an error", key="rows")
            check(i not in must_abort or a == "gfail", lambda: f"KILL QUERY did not abort {a}, suspended in the application: {r!r}", key="not-aborted")
        # every aborted statement answers to a kill of its own, issued while it was the current one
        avail = [k for k in kills if k["t"] == "v" and k["kind"] == "q"]
        if not dead:
            for i in aborted:
                m = [k for k in avail if k["lo"] <= i <= (k["hi"] if k["hi"] is not None else len(acts))]
                check(m, lambda: f"activity {i} ({acts[i]}) was aborted, but the KILL QUERYs were aimed at {[(k['lo'], k['hi']) for k in kills]}", key="wrong-statement")
                m.sort(key=lambda k: k["hi"] if k["hi"] is not None else 99)
                avail.remove(m[0])
        # ---- the victim's connection
        if not dead:
            check(n == len(acts), lambda: f"{len(acts) - n} of {len(acts)} commands ({acts[n:]}) were never answered; connection open; kills {[(k['kind'], k['lo']) for k in kills]}", key="no-response")
            check(not V.leftover(), lambda: f"unsolicited packet after KILL QUERY: {bytes(V.plain()[V.pos:V.pos+60])!r}", key="unsolicited")
            check(vs.n_close == 0 and vid in f.control.live, "KILL QUERY ended the connection", key="spare")
            nl = sum(1 for i, a in enumerate(acts) if a == "long")
            exp_long = None
            if nl and not any(a in ("exec", "reset", "cu") for a in acts):
                exp_long = "".join("L%d;" % i for i, a in enumerate(acts) if a == "long")
            check(V.ping(), "ping failed after KILL QUERY", key="usable")
            if exp_long is not None:
                V.cmd(wire.com_stmt_execute(0, V.caps, [wire.P(wire.T_VAR_STRING, wire.lenstr(b"p"), long=True)], [], 0))
                sql = [e for e in vs.log if e[0] == "query"][-1][1]
                check(sql.endswith("'" + exp_long + "'"), lambda: f"long data sent around the KILL arrived as {sql!r}", key="long-data")
            r = V.query("SELECT a FROM k_rows x")
            check(r.kind == "rows" and len(r.rows) == 4, lambda: f"query after KILL QUERY answered with {r!r}", key="usable")
            check(V.scalar("SELECT CONNECTION_ID()") in (vid, str(vid), b"%d" % vid), "CONNECTION_ID() changed", key="usable")
        else:
            aimed = bool(conn_kill) or killed_self_idx is not None
            check(aimed, lambda: f"the connection ended although no KILL CONNECTION was aimed at it; kills {[(k['kind'], k['t'], k['lo']) for k in kills]}", key="spare")
            check(V.closed, lambda: f"KILL CONNECTION did not end the connection (session closed {vs.n_close} times)", key="kill-open")
            check(vs.n_close == 1, lambda: f"the killed connection's session was closed {vs.n_close} times", key="close-once")
            if case.get("hook") == "close":
                check(vs.idx in f.close_finished, "the KILL interrupted the application's close callback", key="close-once")
            check(vid not in f.control.live, "the killed connection is still registered", key="registry")
            lo = min([k["lo"] for k in conn_kill] + ([killed_self_idx] if killed_self_idx is not None else []))
            his = [k["hi"] if k["hi"] is not None else len(acts) for k in conn_kill] + ([killed_self_idx] if killed_self_idx is not None else [])
            if case.get("window") is None:
                check(n >= min(lo, len(acts)), lambda: f"commands before the KILL were left unanswered: {n} < {lo}", key="no-response")
            rest_b = bytes(V.plain()[V.pos:])
            ok_tail = not rest_b or pipe.final_err() or (pipe.cur is not None or case.get("window") is not None)
            check(ok_tail, lambda: f"after KILL CONNECTION the client received {rest_b[:60]!r}", key="tail")
            # statements following the one being killed must not be executed
            hi = min(his)
            ran = [e for e in vs.log[n_log0:] if e[0] == "query"]
            for e in ran:
                t = e[1].split("_g")[-1].split(" ")[0] if "_g" in e[1] else ""
                if t.isdigit() and case.get("window") is None and not lenient_end:
                    check(int(t) <= max(hi, 0), lambda: f"statement {t} was executed after KILL CONNECTION hit statement {hi}", key="ran-after")
        # ---- everybody else
        others = [(B, "bystander", w.sessions[1])]
        if not any(k["t"] == "k" for k in kills):
            others.append((K, "killer", w.sessions[0]))
        for c, who, s in others:
            check(not c.closed and s.n_close == 0, lambda: f"the {who}'s connection was ended", key="bystander")
        kk = [k for k in kills if k["t"] == "k"]
        if kk:
            K.pump()
            check(K.parser.done or K.closed, "the killer's KILL of itself was never answered", key="kill-response")
            check(K.parser.done, "the killer's KILL of itself got no response", key="kill-response")
            if any(k["kind"] == "c" for k in kk):
                check(K.closed and w.sessions[0].n_close == 1, lambda: f"KILL of the own connection: closed={K.closed}, session closed {w.sessions[0].n_close} times", key="self-kill")
            else:
                check(not K.closed and w.sessions[0].n_close == 0, "KILL QUERY of oneself ended the connection", key="self-kill")
        if not K.closed:
            check(K.ping(), "killer unusable", key="bystander")
        check(not B.leftover(), "the bystander received something", key="bystander")
        f.gate(by_gate).open()
        w.settle(limit=3000) if not infinite else [w.loop.step() for _ in range(20) if w.loop.has_work()]
        r = B.finish()
        check(r.kind == "rows" and len(r.rows) == 4, lambda: f"the bystander's statement was answered with {r!r}", key="bystander")
        check(B.ping(), "bystander unusable", key="bystander")


# ----------------------------------------------------------------- systematic: every activity x kill pattern x iteration
PATTERNS = {"q": ["q"], "c": ["c"], "qq": ["q", "q"], "qc": ["q", "c"], "cq": ["c", "q"], "cc": ["c", "c"]}
FINITE = [a for a in ACTS if a not in ("inf", "infa")]


def enum_matrix(tier):
    full = tier != "quick"
    for ai, a in enumerate(ACTS):
        gated = a in GATED + LENIENT or a in ("gexec", "gfetch", "gcur", "zexec", "zcur")
        for pn, pat in PATTERNS.items():
            for at in range(0, 14 if not full else 24):
                for how in ("direct", 0, 1):
                    for pipelined in (False, True):
                        if not full and (pn not in ("q", "c") and (at + ai) % 3 or how != "direct" and (at + (how == 1)) % 2):
                            continue
                        if not full and (at > 8 and not gated) and (at + ai) % 2:
                            continue
                        if a in ("inf", "infa") and at > 6:
                            continue
                        gaps = 0 if at % 2 else 1
                        case = {"acts": [a, "rows", "ping"], "pipelined": pipelined, "kills": [[at + gaps * j, k, "v", how] for j, k in enumerate(pat)]}
                        if gated and at > 4:
                            case["open_at"] = 7
                        yield case


def enum_hooks(tier):
    for a, h in HOOK_OF.items():
        for pn, pat in PATTERNS.items():
            for at in range(0, 12):
                for how in ("direct", 0):
                    yield {"acts": [a, "rows"], "pipelined": at % 2 == 0, "hook": h, "open_at": 7 if at > 3 else None, "kills": [[at, k, "v", how] for k in pat]}


def enum_blocked(tier):
    for a in ("big", "bexec", "inf", "infa", "gs", "rows", "none", "gexec", "gfetch", "show", "fields", "gs0", "gsn", "zexec"):
        for window in (0, 1, 40, 3000, 70_000):
            for pn, pat in PATTERNS.items():
                for at in (0, 1, 2, 3, 5, 9):
                    for read_at in (None, at, at + 1, at + 3):
                        if tier == "quick" and (at + window + (read_at or 0)) % 3 and pn not in ("q", "c"):
                            continue
                        yield {"acts": [a, "ping", "rows"], "pipelined": at % 2 == 0, "window": window, "read_at": read_at, "kills": [[at, k, "v", "direct" if at % 3 else 0] for k in pat]}


def enum_edges(tier):
    """Every single wait for the client within and at the end of a response: earlier responses fill the buffers up to there."""
    for ai, a in enumerate(ACTS):
        if a in ("inf", "infa", "big", "bexec", "fill", "long", "close"):
            continue
        for spare in range(0, 420, 21 if tier == "quick" else 3):
            for pn in ("q", "c", "qq", "qc") if tier != "quick" or spare % 2 else ("q", "qq"):
                for read_at in (None, 25):
                    at = 20
                    yield {"acts": ["fill", a, "ping", "rows"], "pipelined": True, "window": 0, "spare": (spare + 5 * ai) % 420, "open_at": 9, "read_at": read_at, "kills": [[at + j, k, "v", "direct"] for j, k in enumerate(pn)]}


def enum_idle(tier):
    for pat in PATTERNS.values():
        for half in (None, 1, 3, 4, 5, 9):
            for at in range(0, 8):
                for a in ("rows", "ping", "cu", "exec", "long"):
                    for how in ("direct", 0):
                        yield {"acts": [a] if half is not None else ["ping", a], "half": half, "rest_at": 4, "kills": [[at, k, "v", how] for k in pat]}


# ----------------------------------------------------------------- random histories
@st.composite
def cases(draw):
    acts = draw(st.lists(st.sampled_from(sorted(ACTS)), min_size=1, max_size=4))
    if sum(a in ("inf", "infa") for a in acts) > 1:
        acts = [a for a in acts if a not in ("inf", "infa")] + ["inf"]
    kills = draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from("qqqc"), st.sampled_from(["v"] * 9 + ["unknown", "k"] + sorted(ODD(0))),
                                    st.sampled_from(["direct", 0, 1, 2])).map(list), min_size=1, max_size=5))
    for k in kills:
        if k[2] == "k" and k[3] == "direct":
            k[3] = 0
    if "inf" in acts or "infa" in acts:
        kills = [[k[0] % 7] + k[1:] for k in kills]
    seen = False
    out = []
    for k in sorted(kills, key=lambda k: k[0]):
        if seen and k[3] != "direct":
            continue
        seen = seen or k[2] == "k" and k[1] == "c"
        out.append(k)
    hooks = [HOOK_OF[a] for a in acts if a in HOOK_OF]
    return {"acts": acts, "pipelined": draw(st.booleans()), "kills": out, "open_at": draw(st.one_of(st.none(), st.integers(0, 12))),
            "window": draw(st.sampled_from([None, None, None, 0, 50, 5000])), "read_at": draw(st.one_of(st.none(), st.integers(0, 12))),
            "hook": draw(st.sampled_from([None, None] + hooks)) if hooks else None, "half": draw(st.sampled_from([None, None, None, 1, 4, 5, 7])), "rest_at": draw(st.integers(1, 20))}


# ----------------------------------------------------------------- kills around login and logout
def enum_ends(tier):
    for phase in ("adding", "greeting", "login", "init", "quit", "eof", "reset", "gone", "close"):
        for pn, pat in PATTERNS.items():
            for at in range(0, 10):
                for gap in (0, 1):
                    yield {"phase": phase, "at": at, "gap": gap, "pat": pat, "hook": {"init": "init", "close": "close", "quit": "close"}.get(phase) if at % 2 or phase == "close" else None}


def run_ends(case, ctx):
    f = Fleet(case)
    with f.w as w:
        K, B = w.login(user=b"killer"), w.login(user=b"by")
        phase = case["phase"]
        if phase == "adding":
            f.control.slow = f.gate("add")
        V = w.client()
        f.vs = vs = w.sessions[-1]
        vid = max(f.control.live)
        check(phase == "adding" or V.hs is not None and V.hs.connection_id == vid, "no greeting", key="login")
        ctx.nontrivial()
        ctx.tag(phase)
        if phase in ("quit", "eof", "reset", "gone", "close"):
            g, f.case = f.case, {}
            check(V.login(user=b"victim").kind == "ok", "login failed")
            f.case = g
        if phase in ("login", "init"):
            p = wire.handshake_response(V.caps, b"victim", b"", None, b"mysql_native_password", [])
            V.parser = wire.Parser("auth", V.caps)
            V.send_payload(p, V.expect_seq)
        elif phase in ("quit", "close"):
            V.raw(wire.frame(b"\x01", 0)[0])
        elif phase == "eof":
            V.sock.rx_eof = True
        elif phase == "reset":
            V.reset_conn()
        elif phase == "gone":
            V.raw(wire.frame(b"\x01", 0)[0])
            w.settle()
        for i in range(40):
            for j, k in enumerate(case["pat"]):
                if i == case["at"] + j * case["gap"]:
                    drive(f.control.kill(vid, {"q": KillKind.QUERY, "c": KillKind.CONNECTION}[k]))
            if w.loop.has_work():
                w.loop.step()
        f.gate("hook").open()
        f.control.slow = None
        f.gate("add").open()
        w.settle()
        killed = "c" in case["pat"]
        if phase == "adding" and not killed:
            V.read_greeting()
            check(V.hs is not None and not V.closed, "KILL QUERY ended a connection that was being registered", key="login")
        if phase in ("adding", "greeting", "login", "init"):
            if not killed:
                check(not V.closed, f"KILL QUERY ended a connection that was logging in ({phase})", key="login")
                if phase in ("adding", "greeting"):
                    r = V.login(user=b"victim")
                else:
                    check(V.pump(), "no reply to the login", key="login")
                    r = V.parser.r
                check(r.kind == "ok", lambda: f"login during KILL QUERY answered with {r!r}", key="login")
                check(not V.leftover(), "unsolicited packet", key="unsolicited")
                check(V.ping() and V.query("SELECT a FROM k_rows x").kind == "rows", "unusable after KILL QUERY during login", key="usable")
                check(vs.n_init == 1 and vs.n_close == 0, "session", key="login")
            else:
                check(V.closed, f"connection killed during {phase} is still open", key="kill-open")
                check(vs.n_close <= vs.n_init, "session closed although it was never initialised", key="close-once")
                check(vid not in f.control.live, "killed connection still registered", key="registry")
        else:
            check(V.closed, lambda: "connection still open", key="kill-open")
            check(vs.n_close == 1, lambda: f"session closed {vs.n_close} times", key="close-once")
            check(f.close_finished.count(vs.idx) == 1, "the application's close callback was interrupted by a KILL", key="close-once")
            check(vid not in f.control.live, "connection still registered", key="registry")
        for c in (K, B):
            check(c.ping(), "other connection unusable", key="bystander")
        check(len(f.control.live) == 2 + (not V.closed), "registry", key="registry")


# ----------------------------------------------------------------- kills by the connection's own callbacks
def enum_selfhooks(tier):
    for hook, acts in {"init": [None], "use": ["init_db", "use"], "reset": ["cu", "reset"], "schema": ["show", "fields"], "close": ["quit", "eof"]}.items():
        for act in acts:
            for pat in PATTERNS.values():
                for linger in (None, "raise", "swallow"):
                    for gated in (None, "close"):
                        for pipelined in (False, True):
                            yield {"selfhook": hook, "act": act, "pat": pat, "linger": linger, "hook": gated, "pipelined": pipelined}


def run_selfhooks(case, ctx):
    f = Fleet(case)
    with f.w as w:
        B = w.login(user=b"by")
        V = w.client()
        f.vs = vs = w.sessions[-1]
        vid = V.hs.connection_id
        ctx.nontrivial()
        ctx.tag(case["selfhook"])
        act = case["act"]
        if act is None:
            f.armed = 1
            V.parser = wire.Parser("auth", V.caps)
            V.send_payload(wire.handshake_response(V.caps, b"victim", b"", None, b"mysql_native_password", []), V.expect_seq)
            if case["pipelined"]:
                V.allow_unsolicited = True
                V.raw(wire.frame(wire.PING, 0)[0])
            w.settle()
        else:
            check(V.login(user=b"victim").kind == "ok", "login failed")
            V.prepare("SELECT a FROM k_rows x")
            f.armed = 1
            pipe = Pipe(V)
            if act == "quit":
                V.raw(wire.frame(b"\x01", 0)[0])
            elif act == "eof":
                V.sock.rx_eof = True
            else:
                p = ACTS[act][0](V, 3)
                pipe.expect(0, wire.command_class(p))
                V.raw(wire.frame(p, 0)[0])
                if case["pipelined"]:
                    pipe.expect(1, wire.command_class(wire.PING))
                    V.raw(wire.frame(wire.PING, 0)[0])
        w.settle()
        f.gate("hook").open()
        w.settle()
        check(f.issued, "the callback was not called", key="login")
        killed = "c" in f.issued
        ended = killed or act in ("quit", "eof")
        what = f"{f.issued} of the own connection in the {case['selfhook']} callback ({act})"
        if act not in (None, "quit", "eof"):
            n = pipe.poll()
            if not ended:
                check(n == len(pipe.done) and not pipe.todo and pipe.cur is None, lambda: f"{what}: a command was never answered", key="no-response")
                check(not V.leftover(), lambda: f"{what}: unsolicited packet", key="unsolicited")
            else:
                rest = bytes(V.plain()[V.pos:])
                check(not rest or pipe.final_err(), lambda: f"{what}: the client received {rest[:60]!r}", key="tail")
        if ended:
            check(V.closed, f"{what}: the connection is still open", key="kill-open")
            if act is not None or case["linger"] is None:
                check(vs.n_close == 1, lambda: f"{what}: session closed {vs.n_close} times", key="close-once")
            if vs.n_close and not (case["selfhook"] == "close" and case["linger"]):
                check(f.close_finished.count(vs.idx) == 1, f"{what}: the application's close callback was interrupted", key="close-once")
            check(vid not in f.control.live, "killed connection still registered", key="registry")
        else:
            if act is None:
                V.pump()
                check(V.parser.done and V.parser.r.kind == "ok", lambda: f"{what}: login answered with {V.parser.r!r}", key="login")
                if case["pipelined"]:
                    return
            check(not V.closed and vs.n_close == 0, f"{what}: the connection was ended", key="spare")
            check(V.ping() and V.query("SELECT a FROM k_rows x").kind == "rows" and not V.leftover(), f"{what}: unusable afterwards", key="usable")
        check(B.ping(), "bystander unusable", key="bystander")


# ----------------------------------------------------------------- KILL statement forms
FORMS = ["KILL {id}", "KILL CONNECTION {id}", "KILL QUERY {id}", "kill query {id}", "KILL  QUERY  {id} ;", "/* x */ KILL QUERY {id}", "KILL QUERY {id} -- c", "KILL abc", "KILL QUERY abc", "KILL", "KILL QUERY",
         "KILL -1", "KILL 1.5", "KILL 99999999999999999999", "KILL QUERY 0", "KILL 0", "KILL '7'", "KILL FOO {id}", "KILL QUERY '{id}'", "KILL {id} {id}", "KILL {id} + 0", "KILL QUERY CONNECTION_ID()", "KILL NULL"]


def enum_forms(tier):
    for fm in FORMS:
        for who in ("v", "k", "unknown", "gone") + tuple(ODD(0)):
            if who not in ("v", "k", "unknown", "gone") and (FORMS.index(fm) not in (0, 1, 2) if tier == "quick" else "{id}" not in fm):
                continue
            for busy in (False, True):
                for pre in (False, True):
                    yield {"form": fm, "who": who, "busy": busy, "prepared": pre}


def run_forms(case, ctx):
    f = Fleet(case)
    with f.w as w:
        K, B, V, G = (w.login(user=u) for u in (b"killer", b"by", b"victim", b"gone"))
        G.cmd(b"\x01")
        vid = V.hs.connection_id
        tid = {"v": vid, "k": K.hs.connection_id, "unknown": vid + 500, "gone": G.hs.connection_id, **ODD(vid)}[case["who"]]
        if tid in f.control.live and case["who"] not in ("v", "k"):
            return
        if case["busy"]:
            V.send(wire.com_query(b"SELECT a FROM k_gq_g0 x", V.caps))
            B.send(wire.com_query(b"SELECT a FROM k_gq_g1 x", B.caps))
            w.settle()
        sql = case["form"].format(id=tid)
        ctx.nontrivial("{id}" in case["form"])
        if case["prepared"]:
            r = K.prepare(sql)
            check(r.kind == "prepare", lambda: f"prepare {r!r}")
            r = K.cmd(wire.com_stmt_execute(0, K.caps, [], [], 0))
        else:
            r = K.query(sql)
        check(r.kind in ("ok", "err"), lambda: f"{sql} answered with {r!r}", key="kill-response")
        ctx.tag(r.kind)
        plain = FORMS.index(case["form"]) < 7
        if plain:
            check(r.kind == "ok" or case["who"] != "v", lambda: f"{sql} answered with {r!r}", key="kill-response")
        is_q = "query" in case["form"].lower()
        hit_v = case["who"] == "v" and "{id}" in case["form"]
        w.settle()
        if not hit_v:
            check(not V.closed, f"{sql} (id of {case['who']}) ended connection {vid}", key="bystander")
            if case["busy"]:
                V.pump()
                check(not V.parser.done, lambda: f"{sql} aborted a statement of connection {vid}", key="bystander")
        elif plain and is_q:
            if case["busy"]:
                r = V.finish()
                check(r.kind == "err", lambda: f"{sql}: the running statement was answered with {r!r}", key="not-aborted")
            check(V.ping(), "unusable", key="usable")
        elif plain:
            check(V.closed, f"{sql} did not end the connection", key="kill-open")
        if case["who"] == "k" and plain and not is_q:
            check(K.closed, f"{sql} of oneself did not end the connection", key="self-kill")
        elif not (case["who"] == "k" and "{id}" in case["form"]):
            check(K.ping(), "killer unusable", key="bystander")
        for n in ("g0", "g1"):
            f.gate(n).open()
        w.settle()
        for c in (V, B):
            if case["busy"] and c is V and hit_v:
                V.pump()
                if not V.closed and not V.parser.done:
                    check(V.finish().kind in ("rows", "err"), "bad response", key="usable")
            elif case["busy"]:
                r = c.finish()
                check(r.kind == "rows", lambda: f"statement of another connection was answered with {r!r}", key="bystander")
            if not c.closed:
                check(c.ping(), "unusable", key="usable")
        check(not B.closed, "bystander closed", key="bystander")


CAMPAIGNS = [
    Campaign("matrix", run, enum=enum_matrix, cpu=20),
    Campaign("hooks", run, enum=enum_hooks, cpu=20),
    Campaign("blocked", run, enum=enum_blocked, cpu=20),
    Campaign("edges", run, enum=enum_edges, cpu=20),
    Campaign("idle", run, enum=enum_idle, cpu=20),
    Campaign("ends", run_ends, enum=enum_ends, cpu=20),
    Campaign("selfhooks", run_selfhooks, enum=enum_selfhooks, cpu=20),
    Campaign("forms", run_forms, enum=enum_forms, cpu=20),
    Campaign("histories", run, strategy=cases, quick=2000, thorough=60000, cpu=20),
]
