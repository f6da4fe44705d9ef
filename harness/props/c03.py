"""C03 - every command gets exactly one complete, well-formed response (lockstep)."""
import asyncio
import re

from hypothesis import strategies as st

import authlib
import tlsclient
import wire
from runner import Campaign
from world import App, NoResponse, ProtocolError, Provider, User, Violation, World, check

from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.errors import ErrorCode, MysqlError
from mysql_mimic.types import ColumnType

PROPERTY = "C03"
LEVEL = "exploration"
RULE = ("cases = (server capabilities, client capabilities, receive window / partial writes / read segmentation, "
        "application outcomes) x a program of up to 14 commands; every response is parsed by the independent grammar "
        "and its kind compared with the outcome the application was scripted to have.  non-trivial = the program "
        "contains an application failure, a failure half-way through rows, or a no-reply command, followed by a "
        "further command on the same connection, or it has more than 250 rows, columns or placeholders")
ASSUMPTIONS = ["harness/wire.py states the response grammar of the protocol for clients with PROTOCOL_41",
               "applications return rows of the announced width", "CLIENT_OPTIONAL_RESULTSET_METADATA is not offered"]

OPT = [wire.LENENC_AUTH, wire.DEPRECATE_EOF, wire.QUERY_ATTRIBUTES, wire.CONNECT_ATTRS, wire.CONNECT_WITH_DB,
       wire.MULTI_STATEMENTS, wire.PS_MULTI_RESULTS | wire.MULTI_RESULTS, wire.TRANSACTIONS]
SERVER_BASE = wire.BASE_CAPS | wire.LONG_PASSWORD | wire.CONNECT_WITH_DB | wire.CONNECT_ATTRS


class WeirdError(Exception):
    def __str__(self):
        return "weird \u2603 \U0001F600 \u00e9 \udc80 message"


class NoStr:
    def __str__(self):
        raise ValueError("cannot be printed")


EXCS = {
    "mysql": lambda: MysqlError("app says no", ErrorCode.NO_DB_ERROR),
    "mysql_uni": lambda: MysqlError("no \u2603 \U0001F600", ErrorCode.PARSE_ERROR),
    "exc": lambda: Exception("plain"),
    "empty": lambda: Exception(),
    "key": lambda: KeyError("k"),
    "weird": WeirdError,
    "nostr": lambda: type("E", (Exception,), {"__str__": lambda s: 1 / 0})(),
    "stopaiter": StopAsyncIteration,
    "stopiter": StopIteration,
    "eof": EOFError,
    "connreset": lambda: ConnectionResetError("upstream reset"),
    "timeout": TimeoutError,
    "oserror": lambda: OSError(5, "io"),
    "assertion": AssertionError,
    "genexit": lambda: RuntimeError("generator"),
    "long": lambda: Exception("x" * 70000),
    "nul": lambda: Exception("a\0b\nc"),
    "memory": MemoryError,
    "cancelled": lambda: asyncio.CancelledError("a task the application waited for was cancelled"),
    "recursion": lambda: RecursionError("deep"),
}
KINDS = {"i": ColumnType.LONGLONG, "s": ColumnType.VARCHAR, "d": ColumnType.DOUBLE, "t": ColumnType.TINY,
         "n": ColumnType.NULL, "b": ColumnType.BLOB, "S": ColumnType.STRING}


def cell(kind, i, j, big):
    if kind == "n" or (i * 7 + j * 3) % 5 == 4:
        return None
    if kind in "it":
        return (i + j) % 2 if kind == "t" else i * 1000 + j
    if kind == "d":
        return i + j / 8
    if kind == "b":
        return bytes([251, 0, 254, 255, i % 256]) * (1 + big)
    return ("r%d.%d \u00e9" % (i, j)) * (1 + big)


class Source:
    """Result rows according to an outcome."""

    def __init__(self, world, o):
        self.world, self.o = world, o

    def row(self, i):
        o = self.o
        r = [cell(o["cols"][j % len(o["cols"])], i, j, o["big"]) for j in range(o["ncols"])]
        return r

    def gen(self):
        o = self.o
        for i in range(o["n"]):
            if o["fail"] and i == o["fail"][0]:
                if o["fail"][1] == "cell":
                    r = self.row(i)
                    r[-1] = NoStr()
                    yield r
                else:
                    raise EXCS[o["fail"][1]]()
            yield self.row(i)
        if o["fail"] and o["fail"][0] >= o["n"] and o["fail"][1] != "cell":
            raise EXCS[o["fail"][1]]()

    def columns(self):
        o = self.o
        out = []
        for j in range(o["ncols"]):
            k = o["cols"][j % len(o["cols"])]
            name = ("c%d" % j) + ("\u00e9" if j == 1 else "") + ("n" * 300 if o["big"] and j == 2 else "")
            out.append(name if o["bare"] else ResultColumn(name, KINDS[k]))
        return out

    def result(self):
        import asyncio
        o = self.o
        cols = self.columns()
        if o["src"] == "list" and not o["fail"]:
            rows = list(self.gen())
        elif o["src"] in ("agen", "agen_sleep"):
            async def agen():
                for r in self.gen():
                    if o["src"] == "agen_sleep":
                        await asyncio.sleep(0)
                    yield r
            rows = agen()
        else:
            rows = self.gen()
        return ResultSet(rows, cols) if o["rs"] and not o["bare"] else (rows, cols)


def outcome_result(world, o):
    k = o["kind"]
    if k == "none":
        return None
    if k == "empty":
        return [], []
    if k == "raise":
        raise EXCS[o["exc"]]()
    if k == "badtuple":
        return ([(1,)], ["a"], 3)
    if k == "badtype":
        return 42
    return Source(world, o).result()


def expected_query(o):
    k = o["kind"]
    if k in ("none", "empty"):
        return {"ok"}
    if k in ("raise", "badtuple", "badtype"):
        return {"err"}
    return None  # rows; see check_rows


def fails_at(o):
    """Index of the row before which the source fails, or None.  A bad cell fails only in string columns."""
    if not o["fail"]:
        return None
    if o["fail"][1] == "cell":
        if o["fail"][0] >= o["n"]:
            return None
        last = o["cols"][(o["ncols"] - 1) % len(o["cols"])]
        return o["fail"][0] if last in "sS" or o["bare"] else o["fail"][0]
    if o["fail"][1] == "stopiter":
        pass
    return min(o["fail"][0], o["n"])


def check_rows(o, r, what, names_ok=True):
    f = fails_at(o)
    if not names_ok and r.kind == "err":
        return  # a column name that the results character set cannot represent
    if f is None:
        check(r.kind == "rows", lambda: f"{what}: application returned {o['n']} rows, the client got {r!r}")
        check(len(r.cols) == o["ncols"] and len(r.rows) == o["n"], lambda: f"{what}: {o['ncols']}x{o['n']} returned, client got "
              f"{len(r.cols)} columns and {len(r.rows)} rows")
    else:
        check(r.kind == "err", lambda: f"{what}: row source failed at row {f}, client got {r!r}")
        check(len(r.rows) <= f, lambda: f"{what}: {len(r.rows)} rows although the source failed at row {f}")


STATIC = [
    ("SELECT 1", {"rows"}), ("SET autocommit = 0", {"ok"}), ("SHOW TABLES FROM information_schema", {"rows"}),
    ("SELECT FROM WHERE", {"err"}), ("", {"ok"}), (";;", {"ok"}), ("BEGIN; SELECT 1", {"rows"}), ("SELECT 1; COMMIT", {"ok"}),
    ("SET no_such_variable = 1", {"err"}), ("SELECT 1; SET no_such_variable = 1", {"err"}), ("USE dbx", {"ok"}), ("KILL 123456789", {"ok"}),
    ("KILL QUERY 1", {"ok"}), ("KILL xyz", {"err"}), ("SHOW VARIABLES LIKE 'aut%'", {"rows"}), ("SELECT @@version, CONNECTION_ID()", {"rows"}),
    ("SELECT @@nope", {"err"}), ("SHOW WARNINGS", {"rows"}), ("ROLLBACK", {"ok"}),
    ("SELECT * FROM information_schema.tables LIMIT 3", {"rows"}), ("SELECT '\u2603' AS `\u2603`", {"rows", "err"}), ("(((", {"err"}),
    ("SHOW TABLES", {"rows", "err"}), ("/* nothing */", {"ok"}), ("SELECT 1; SELECT 2; SELECT 3", {"rows"}),
    ("DESCRIBE information_schema.tables", {"rows"}), ("SELECT REPEAT('ab', 3)", {"rows", "err"}), ("SELECT NULL, 1.5, TRUE", {"rows"}),
]


class Run:
    def __init__(self, case, ctx, w):
        self.case, self.ctx, self.w = case, ctx, w
        self.stmts = []  # {id, n, o, alive, cursor}
        self.failed = False
        self.db = False
        self.followed = False

    def exchange(self, c, payload, cls=None):
        """One command under the case's transport behaviour."""
        case = self.case
        c.send(payload, cls)
        for n in range(100000):
            self.w.settle()
            done = c.pump()
            if case["window"] and c.sock.window is not None and c.sock.window < 1 and not c.closed:
                c.sock.window = case["window"] if n < 2000 else 50_000
                continue
            if done or True:
                break
        return c.finish(payload)

    def names_ok(self, o):
        return o["ncols"] < 2 or self.case["results_charset"] not in ("ascii", "cp1251")

    def stmt(self, ref):
        if not self.stmts:
            return None
        return self.stmts[ref % len(self.stmts)]

    def mk(self, c, op):
        """(payload, checker) of one program step."""
        k = op[0]
        case = self.case
        if k in ("init_db", "use", "change_user", "static"):
            self.db = True
        outs = case["outcomes"]
        if k == "query":
            i = op[1] % len(outs)
            o = outs[i]

            def chk(r):
                self.judge(o, r, "COM_QUERY")
            sql = f"SELECT a FROM o{i}" + ("; SELECT a FROM o%d" % i if op[2] and o["kind"] != "rows" else "")
            return wire.com_query(sql.encode(), c.caps), chk
        if k == "static":
            sql, kinds = STATIC[op[1] % len(STATIC)]
            if (case["hooks"].get("use") and sql.startswith("USE")) or (case["hooks"].get("schema") and ("SHOW T" in sql or "schema" in sql)):
                kinds = {"err"}
            return wire.com_query(sql.encode("utf-8"), c.caps), self.kinds(kinds, sql)
        if k == "ping":
            return wire.PING, self.kinds({"ok"}, "COM_PING")
        if k == "debug":
            return wire.DEBUG, self.kinds({"eof"}, "COM_DEBUG")
        if k == "reset_conn":
            return wire.RESET_CONNECTION, self.kinds({"ok"} if not case["hooks"].get("reset") else {"ok", "err"}, "COM_RESET_CONNECTION")
        if k == "init_db":
            return wire.com_init_db(op[1].encode()), self.kinds({"err"} if case["hooks"].get("use") else {"ok"}, "COM_INIT_DB")
        if k == "use":
            return wire.com_query(b"USE db1", c.caps), self.kinds({"err"} if case["hooks"].get("use") else {"ok"}, "USE")
        if k == "field_list":
            sch = case["hooks"].get("schema")
            t = ["t1", "t2", "empty", "tables", "no\u00e9"][op[1] % 5]
            wild = ["", "%", "a%", "zzz"][op[2] % 4]

            def chk(r):
                self.kinds({"err"} if sch else {"fields"}, "COM_FIELD_LIST")(r)
                if r.kind == "fields":
                    n = {"t1": {"": 3, "%": 3, "a%": 1, "zzz": 0}, "t2": {"": 1, "%": 1, "a%": 0, "zzz": 0}}.get(t, {}).get(wild)
                    if n is not None and not self.db:
                        check(len(r.cols) == n, lambda: f"COM_FIELD_LIST {t} {wild}: {len(r.cols)} column definitions for {n} columns")
            return wire.com_field_list(t.encode(), wild.encode()), chk
        if k == "change_user":
            def chk(r):
                self.kinds({"err"} if case["hooks"].get("reset") else {"ok"}, "COM_CHANGE_USER")(r)
            pl = wire.change_user(c.caps, b"u2", b"", op[1].encode(), 45, b"mysql_native_password")
            return pl, chk
        if k == "unsupported":
            return bytes([op[1]]) + b"xyz" * op[2], self.kinds({"err"}, f"command {op[1]:#x}")
        if k == "prepare":
            i = op[1] % len(outs)
            n = op[2]
            sql = f"SELECT a FROM o{i}" + (" WHERE a IN (" + ",".join("?" * n) + ")" if n else "")

            def chk(r):
                self.kinds({"prepare"}, "COM_STMT_PREPARE")(r)
                if r.kind == "prepare":
                    check(r.num_params == n and r.num_columns == len(r.cols),
                          lambda: f"prepare-OK announces {r.num_params} parameters for {n} placeholders")
                    check(all(s["id"] != r.stmt_id or not s["alive"] for s in self.stmts), "statement id reused")
                    self.stmts.append({"id": r.stmt_id, "n": n, "o": outs[i], "alive": True, "cursor": None, "long": set()})
            return wire.com_stmt_prepare(sql.encode()), chk
        s = self.stmt(op[1]) if len(op) > 1 else None
        sid = s["id"] if s else 4096
        alive = bool(s and s["alive"])
        if k == "execute":
            mode = op[2]
            cur = op[3]
            n = s["n"] if s else 0
            params = [wire.P(wire.T_LONGLONG, (5).to_bytes(8, "little"), long=(j in s["long"])) if j % 2 == 0
                      else wire.P(wire.T_VAR_STRING, wire.lenstr(b"it's"), long=(j in s["long"])) for j in range(n)] if s else []
            attrs = [wire.P(wire.T_VAR_STRING, wire.lenstr(b"v"), name=b"k")] * op[4]
            pl = wire.com_stmt_execute(sid, c.caps, params, attrs, cursor=1 if cur else 0)
            bad = mode == "short" and n > 0
            if bad:
                pl = pl[:10] + pl[10:11]
            badflag = mode == "badflag"
            if badflag:
                pl = pl[:5] + bytes([2]) + pl[6:]

            def chk(r):
                if not alive:
                    return self.kinds({"err"}, "COM_STMT_EXECUTE of an unknown statement")(r)
                if bad:
                    return self.kinds({"err"}, "truncated COM_STMT_EXECUTE")(r)
                s["long"].clear()
                if badflag:
                    return self.kinds({"err", "ok", "rows"}, "COM_STMT_EXECUTE with cursor type 2")(r)
                s["cursor"] = None
                o = s["o"]
                ek = expected_query(o)
                if ek:
                    return self.judge(o, r, "COM_STMT_EXECUTE")
                if cur:
                    if r.kind == "err" and not self.names_ok(o):
                        return
                    if r.kind == "err" and o["fail"] and (o["bare"] or o["src"] == "list"):
                        self.failed = True
                        return  # type inference met the failure
                    check(r.kind == "rows" and r.cursor and not r.rows and len(r.cols) == o["ncols"],
                          lambda: f"cursor execute answered with {r!r} cursor={r.cursor}")
                    s["cursor"] = [0]
                    return
                check(not r.cursor, "cursor announced although none was requested")
                if r.kind == "rows":
                    check(not r.term.status & wire.ST_CURSOR_EXISTS, "SERVER_STATUS_CURSOR_EXISTS without a cursor")
                self.judge(o, r, "COM_STMT_EXECUTE")
            return pl, chk
        if k == "fetch":
            n = op[2]

            def chk(r):
                if not alive or not s["cursor"]:
                    self.kinds({"err"}, "COM_STMT_FETCH without a cursor")(r)
                    return
                o = s["o"]
                if r.kind == "rows":
                    check(len(r.rows) <= n, lambda: f"{len(r.rows)} rows for a fetch of {n}")
                    s["cursor"][0] += len(r.rows)
                    f = fails_at(o)
                    check(s["cursor"][0] <= (o["n"] if f is None else f), "more rows than the source has")
                else:
                    check(r.kind == "err" and o["fail"], lambda: f"fetch answered with {r!r}")
                    self.failed = True
                    s["cursor"] = None
            return wire.com_stmt_fetch(sid, n), chk
        if k == "stmt_reset":
            def chk(r):
                if not alive:
                    return self.kinds({"err"}, "COM_STMT_RESET of an unknown statement")(r)
                s["cursor"] = None
                s["long"].clear()
                self.kinds({"ok", "err"} if case["hooks"].get("reset") else {"ok"}, "COM_STMT_RESET")(r)
            return wire.com_stmt_reset(sid), chk
        if k == "close":
            pl = wire.com_stmt_close(sid)
            if op[2]:
                pl = pl[:-op[2]]  # truncated: still no reply

            def chk(r):
                if s and not op[2]:
                    s["alive"] = False
                self.ctx.tag("noreply")
                self.failed = True
            return pl, chk
        if k == "long":
            pl = wire.com_stmt_send_long_data(sid, op[2], b"12" * op[3])
            if op[4]:
                pl = pl[:5 if op[4] == 1 else 1]

            def chk(r):
                if alive and not op[4] and op[2] < s["n"]:
                    s["long"].add(op[2])
                self.ctx.tag("noreply")
                self.failed = True
            return pl, chk
        raise ValueError(k)

    def kinds(self, kinds, what):
        def chk(r):
            check(r.kind in kinds, lambda: f"{what}: answered with {r!r}, expected {sorted(kinds)}")
            if r.kind == "err":
                self.failed = True
                self.ctx.tag("err")
        return chk

    def judge(self, o, r, what):
        ek = expected_query(o)
        if ek:
            self.kinds(ek, what + " " + o["kind"])(r)
            return
        check_rows(o, r, what, self.names_ok(o))
        if r.kind == "err":
            self.failed = True
            self.ctx.tag("err-midrows" if r.rows or r.cols else "err-early")
        else:
            self.ctx.tag("rows")


def build_world(case):
    outs = case["outcomes"]

    def query(s, e, sql, attrs):
        m = re.search(r"\bo(\d+)\b", sql)
        return outcome_result(s.world, outs[int(m.group(1))])

    hooks = {}
    for name in ("use", "reset", "schema"):
        x = case["hooks"].get(name)
        if x:
            def boom(s, *a, x=x):
                raise EXCS[x]()
            hooks[name] = boom
    if "schema" not in hooks:
        hooks["schema"] = lambda s: {"t1": {"a": "int", "b": "text", "c": "date"}, "t2": {"x": "int"}, "empty": {}}
    scaps = SERVER_BASE
    for i, bit in enumerate(OPT):
        if case["scaps"] >> i & 1:
            scaps |= bit
    w = World(app=App(query=query, **hooks), provider=Provider(default_any=True), capabilities=scaps)
    ccaps = wire.BASE_CAPS | wire.LONG_PASSWORD
    for i, bit in enumerate(OPT):
        if case["ccaps"] >> i & 1:
            ccaps |= bit
    return w, ccaps


def run(case, ctx):
    w, ccaps = build_world(case)
    with w:
        c = w.client(ccaps)
        if case["split"]:
            k = case["split"]
            c.split = lambda d: [d[i:i + k] for i in range(0, len(d), k)] if len(d) < 4000 else [d[:k], d[k:]]
        sent = c.caps | (ccaps & (wire.DEPRECATE_EOF | wire.QUERY_ATTRIBUTES))  # also flags the server did not offer
        r = c.login(payload=wire.handshake_response(sent if case["overask"] else c.caps, b"u", b"", None, b"mysql_native_password",
                                                    charset=case["charset"]))
        check(r.kind == "ok", lambda: f"login answered with {r!r}")
        if case["results_charset"]:
            rr = c.query(f"SET character_set_results = '{case['results_charset']}'")
            check(rr.kind == "ok", lambda: f"SET character_set_results: {rr!r}")
        if case["window"]:
            c.sock.window = case["window"]
        if case["max_send"]:
            c.sock.max_send = case["max_send"]
        run_ = Run(case, ctx, w)
        for op in case["ops"]:
            if run_.failed:
                run_.followed = True
            ctx.tag("op:" + op[0])
            if op[0] == "quit":
                c.send(wire.QUIT)
                w.settle()
                check(c.leftover() == 0, lambda: f"bytes after COM_QUIT: {bytes(c.plain()[c.pos:c.pos+50])!r}")
                check(c.closed, "connection open after COM_QUIT")
                break
            if op[0] == "batch":
                run_batch(run_, c, op[1])
                continue
            pl, chk = run_.mk(c, op)
            r = run_.exchange(c, pl)
            chk(r)
            if r.kind == "err" and op[0] == "change_user":
                # a failed COM_CHANGE_USER ends the connection
                w.settle()
                check(c.leftover() == 0 and c.closed, "failed COM_CHANGE_USER: connection still open or extra bytes")
                break
            check(not c.closed, lambda: f"connection closed by the server after {op}")
        else:
            r = run_.exchange(c, wire.PING)
            check(r.kind == "ok", lambda: f"final COM_PING answered with {r!r}")
            w.settle()
            check(c.leftover() == 0, "unsolicited bytes at quiescence")
            run_.followed = run_.followed or run_.failed
        ctx.nontrivial(run_.followed or case.get("size", 0) > 250)


def run_batch(run_, c, ops):
    """Several commands in one network read; responses must come one after the other, each complete.  Only
    commands whose response does not depend on ids assigned within the batch are used."""
    c.pump_idle()
    todo, data = [], b""
    for op in ops:
        pl, chk = run_.mk(c, op)
        f, nxt = wire.frame(pl, 0)
        data += f
        todo.append((pl, chk, nxt))
    c.raw(data)
    for pl, chk, nxt in todo:
        c.parser = wire.Parser(wire.command_class(pl), c.caps)
        c.expect_seq = nxt
        for n in range(100000):
            while not c.parser.done:
                p = c._next_payload()
                if p is None:
                    break
                c.parser.feed(p)
            if c.parser.done:
                break
            if run_.case["window"] and c.sock.window is not None and c.sock.window < 1:
                c.sock.window = run_.case["window"] if n < 2000 else 50_000
            elif not run_.w.loop.has_work():
                raise NoResponse(f"batched command {pl[:40]!r} left without a complete response (state {c.parser.state})")
            run_.w.settle()
        chk(c.parser.r)
    for n in range(1000):
        run_.w.settle()
        if run_.case["window"] and c.sock.window < 1:
            c.sock.window = run_.case["window"] if n < 500 else 50_000
        else:
            break
    check(c.leftover() == 0, lambda: f"bytes after the last response of a batch: {bytes(c.plain()[c.pos:c.pos+60])!r}")


exc_names = st.sampled_from(sorted(EXCS))
fails = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from([0, 1, 2, 3, 7, 20]),
                                                  st.one_of(exc_names, st.just("cell"))).map(list))


def rows_outcome():
    return st.fixed_dictionaries({
        "kind": st.just("rows"), "ncols": st.one_of(st.integers(1, 5), st.sampled_from([1, 2, 3, 6, 7, 8, 14, 15, 250, 251, 252, 260])),
        "n": st.one_of(st.integers(0, 6), st.integers(0, 6), st.sampled_from([0, 1, 8, 60, 260, 300]), st.integers(245, 260)),
        "cols": st.text("isdtbSn", min_size=1, max_size=4), "bare": st.booleans(), "rs": st.booleans(),
        "src": st.sampled_from(["list", "gen", "agen", "agen_sleep"]), "fail": fails,
        "big": st.sampled_from([0, 0, 0, 40, 9000])}).map(tidy)


def tidy(o):
    if o["ncols"] > 20:
        o["n"] = min(o["n"], 5)
    if o["big"] > 100:
        o["n"] = min(o["n"], 8)
        o["ncols"] = min(o["ncols"], 4)
    if o["fail"] and o["fail"][1] == "cell":
        o["cols"] = "".join(ch if ch in "sS" else "s" for ch in o["cols"])
        o["bare"] = False
    return o


outcomes = st.one_of(rows_outcome(), rows_outcome(), st.just({"kind": "none"}), st.just({"kind": "empty"}),
                     exc_names.map(lambda e: {"kind": "raise", "exc": e}), st.just({"kind": "badtuple"}), st.just({"kind": "badtype"}))
ref = st.integers(0, 3)
simple = st.one_of(
    st.tuples(st.just("query"), st.integers(0, 3), st.booleans()),
    st.tuples(st.just("static"), st.integers(0, len(STATIC) - 1)),
    st.just(("ping",)), st.just(("debug",)), st.just(("reset_conn",)),
    st.tuples(st.just("init_db"), st.sampled_from(["db1", "", "d\u00e9"])), st.just(("use",)),
    st.tuples(st.just("field_list"), st.integers(0, 4), st.integers(0, 3)),
    st.tuples(st.just("unsupported"), st.sampled_from(sorted(set(range(256)) - wire.SUPPORTED)), st.integers(0, 2)),
)
stmtops = st.one_of(
    st.tuples(st.just("execute"), ref, st.sampled_from(["ok", "ok", "ok", "short", "badflag"]), st.booleans(), st.integers(0, 1)),
    st.tuples(st.just("fetch"), ref, st.sampled_from([0, 1, 2, 3, 10, 300, 2 ** 32 - 1])),
    st.tuples(st.just("stmt_reset"), ref), st.tuples(st.just("close"), ref, st.sampled_from([0, 0, 0, 1, 4])),
    st.tuples(st.just("long"), ref, st.integers(0, 3), st.integers(0, 3), st.sampled_from([0, 0, 0, 1, 2])),
)
prep = st.tuples(st.just("prepare"), st.integers(0, 3), st.sampled_from([0, 0, 1, 2, 3, 5, 9, 260]))
ops = st.one_of(simple, simple, prep, stmtops, stmtops,
                st.tuples(st.just("change_user"), st.sampled_from(["", "db3"])),
                st.lists(st.one_of(simple, simple, st.tuples(st.just("close"), ref, st.just(0)).filter(lambda x: False)), min_size=2, max_size=4).map(lambda l: ("batch", l)))


@st.composite
def cases(draw):
    prog = draw(st.lists(ops, min_size=2, max_size=14))
    if draw(st.integers(0, 9)) == 0:
        prog.append(("quit",))
    hooks = {}
    if draw(st.integers(0, 4)) == 0:
        hooks[draw(st.sampled_from(["use", "reset", "schema"]))] = draw(exc_names)
    slow = draw(st.integers(0, 3)) == 0
    return {
        "scaps": draw(st.one_of(st.just(255), st.integers(0, 255))), "ccaps": draw(st.one_of(st.just(255), st.integers(0, 255))),
        "overask": draw(st.booleans()), "charset": draw(st.sampled_from([45, 45, 8, 33, 255])),
        "results_charset": draw(st.sampled_from([None, None, "latin1", "ascii", "cp1251"])),
        "outcomes": draw(st.lists(outcomes, min_size=1, max_size=4)), "ops": prog, "hooks": hooks,
        "window": draw(st.sampled_from([7, 100, 1500, 33000])) if slow else None,
        "max_send": draw(st.sampled_from([None, None, 50, 4096])), "split": draw(st.sampled_from([0, 0, 0, 1, 3, 5])),
    }


def enum(tier):
    """Every command kind followed by every command kind (pairs), with and without DEPRECATE_EOF."""
    o_rows = {"kind": "rows", "ncols": 2, "n": 3, "cols": "is", "bare": False, "rs": False, "src": "agen", "fail": None, "big": 0}
    o_fail = dict(o_rows, fail=[1, "exc"])
    outs = [o_rows, o_fail, {"kind": "raise", "exc": "mysql"}, {"kind": "none"}]
    steps = [("query", i, False) for i in range(4)] + [("static", 0), ("static", 3), ("ping",), ("debug",), ("reset_conn",), ("init_db", "d"),
             ("use",), ("field_list", 0, 0), ("field_list", 2, 0), ("field_list", 0, 3), ("unsupported", 9, 0), ("unsupported", 0, 0), ("unsupported", 5, 1), ("prepare", 0, 0),
             ("prepare", 1, 2), ("execute", 0, "ok", False, 0), ("execute", 0, "ok", True, 0), ("execute", 1, "ok", False, 0),
             ("execute", 1, "ok", True, 0), ("execute", 0, "short", False, 0), ("fetch", 0, 2), ("fetch", 1, 2), ("fetch", 0, 100),
             ("stmt_reset", 0), ("stmt_reset", 1), ("close", 0, 0), ("close", 0, 4), ("long", 0, 0, 1, 0), ("long", 1, 0, 2, 0),
             ("long", 0, 0, 0, 1), ("change_user", ""), ("execute", 1, "short", False, 0), ("quit",)]
    base = {"overask": False, "charset": 45, "results_charset": None, "outcomes": outs, "hooks": {}, "window": None,
            "max_send": None, "split": 0}
    for dep in (0, 1):
        caps = 255 & ~2 | (2 if dep else 0)
        for a in steps:
            for b in steps:
                for pre in ([], [("prepare", 0, 1)], [("prepare", 0, 1), ("execute", 0, "ok", True, 0)]):
                    if tier == "quick" and pre and a[0] not in ("execute", "fetch", "stmt_reset", "close", "long", "prepare", "query"):
                        continue
                    yield dict(base, scaps=caps, ccaps=caps, ops=list(pre) + [a, b])


def enum_sizes(tier):
    """Numbers of rows, columns and placeholders around every limit of a length-encoded integer."""
    o = {"kind": "rows", "ncols": 1, "n": 1, "cols": "i", "bare": False, "rs": False, "src": "gen", "fail": None, "big": 0}
    base = {"overask": False, "charset": 45, "results_charset": None, "hooks": {}, "window": None, "max_send": None, "split": 0}
    big = [65534, 65535, 65536, 65537, 65700] + ([] if tier == "quick" else [131072, 200000])
    for caps in (255, 255 & ~2):
        for n in list(range(0, 20)) + list(range(240, 270)) + [511, 512, 513, 1023, 1024, 4096] + big:
            for bare in (False, True):
                if n > 5000 and bare and tier == "quick":
                    continue
                outs = [dict(o, n=n, bare=bare)]
                yield dict(base, scaps=caps, ccaps=caps, outcomes=outs, size=n, ops=[("query", 0, False), ("ping",)])
                yield dict(base, scaps=caps, ccaps=caps, outcomes=outs, size=n, ops=[("prepare", 0, 0), ("execute", 0, "ok", False, 0), ("execute", 0, "ok", True, 0),
                                                                             ("fetch", 0, n), ("fetch", 0, 1), ("ping",)])
        for ncols in list(range(1, 20)) + list(range(245, 262)) + [511, 512, 513, 1000, 4096]:
            outs = [dict(o, ncols=ncols, n=2, cols="is")]
            yield dict(base, scaps=caps, ccaps=caps, outcomes=outs, size=ncols, ops=[("query", 0, False), ("prepare", 0, 0), ("execute", 0, "ok", False, 0),
                                                                         ("execute", 0, "ok", True, 0), ("fetch", 0, 1), ("fetch", 0, 5)])
        for n in list(range(0, 20)) + list(range(245, 262)) + [511, 512, 1000, 5000, 32767, 32768, 65534, 65535]:
            yield dict(base, scaps=caps, ccaps=caps, outcomes=[dict(o)], size=n, ops=[("prepare", 0, n), ("execute", 0, "ok", False, 0), ("ping",)])


def enum_failures(tier):
    """Every kind of exception in every place where the application can raise one, before, between and after rows."""
    o = {"kind": "rows", "ncols": 2, "n": 3, "cols": "is", "bare": False, "rs": False, "src": "agen", "fail": None, "big": 0}
    base = {"overask": False, "charset": 45, "results_charset": None, "window": None, "max_send": None, "split": 0}
    k = 0
    for e in sorted(EXCS):
        for outs in [[{"kind": "raise", "exc": e}]] + [[dict(o, fail=[at, e], src=src, bare=bare)] for at in (0, 1, 3) for src in ("gen", "agen", "agen_sleep") for bare in (False, True)]:
            routes = [[("query", 0, False)], [("prepare", 0, 0), ("execute", 0, "ok", False, 0)], [("prepare", 0, 1), ("execute", 0, "ok", True, 0), ("fetch", 0, 2), ("fetch", 0, 5)]]
            for route in routes:
                k += 1
                caps = (255, 255 & ~2)[k // 2 % 2]
                if tier == "quick" and outs[0]["kind"] == "rows" and k % 3 and e != "cancelled":
                    continue
                yield dict(base, scaps=caps, ccaps=caps, hooks={}, outcomes=outs, ops=route + [("ping",)] + route)
        for hooks, route in (({"use": e}, [("init_db", "d"), ("use",)]), ({"schema": e}, [("field_list", 0, 0), ("field_list", 2, 1)]), ({"schema": e}, [("static", i) for i in range(len(STATIC))]),
                             ({"reset": e}, [("prepare", 0, 0), ("stmt_reset", 0)]), ({"reset": e}, [("change_user", "")])):
            for caps in (255, 255 & ~2):
                yield dict(base, scaps=caps, ccaps=caps, hooks=hooks, outcomes=[o], ops=route + [("ping",), ("query", 0, False)])


# ----------------------------------------------------------------- capabilities over TLS
TLS_BITS = [wire.DEPRECATE_EOF, wire.QUERY_ATTRIBUTES, wire.LENENC_AUTH]


def run_tls(case, ctx):
    """The capabilities in force are those of the handshake response, with or without TLS, whatever the SSL request said."""
    rows = [("a", 1), (None, 2), ("c;", None)]

    def query(s, e, sql, attrs):
        if "boom" in sql:
            raise MysqlError("no", ErrorCode.NOT_SUPPORTED_YET)
        return None if "ok" in sql else (rows, ["x", "y"])

    caps = [wire.BASE_CAPS | wire.LONG_PASSWORD | wire.CONNECT_WITH_DB | wire.CONNECT_ATTRS | sum(b for i, b in enumerate(TLS_BITS) if k >> i & 1) for k in (case["req"], case["resp"])]
    with World(app=App(query=query, schema=lambda s: {"t": {"a": "INT", "b": "TEXT"}}), ssl=tlsclient.server_context()) as w:
        c = w.client(caps[0] | wire.SSL)
        check(c.start_tls(joined=case["joined"]), "TLS handshake failed", key="tls")
        c.caps = c.want_caps = caps[1] | wire.SSL
        r = c.login(db=b"d", attrs=[(b"k", b"v")])
        check(r.kind == "ok", lambda: f"login over TLS answered with {r!r}", key="tls")

        def rows_of(r):
            return [[v if v is None else v.decode() for v in row] for row in r.text_rows()]

        for _ in range(2):
            r = c.query("SELECT x, y FROM t")
            check(r.kind == "rows" and rows_of(r) == [["a", "1"], [None, "2"], ["c;", None]], lambda: f"query over TLS answered with {r!r}", key="tls-rows")
            check(c.query("SELECT ok FROM t").kind == "ok", "no OK", key="tls-rows")
            check(c.query("SELECT boom FROM t").kind == "err", "no ERR", key="tls-rows")
            r = c.cmd(wire.com_field_list(b"t"))
            check(not r.err and [x.name for x in r.cols] == [b"a", b"b"], lambda: f"COM_FIELD_LIST over TLS answered with {r!r}", key="tls-rows")
            p = c.prepare("SELECT x, y FROM t WHERE x = ? AND y = ?")
            check(p.kind == "prepare" and p.num_params == 2, lambda: f"prepare over TLS answered with {p!r}", key="tls-rows")
            ps = [wire.P(wire.T_VAR_STRING, wire.lenstr(b"v"))] * 2
            for cursor in (0, 1):
                r = c.cmd(wire.com_stmt_execute(p.stmt_id, c.caps, ps, [], cursor))
                check(r.kind == "rows" and bool(r.cursor) == bool(cursor), lambda: f"execute over TLS answered with {r!r}", key="tls-rows")
            r = c.cmd(wire.com_stmt_fetch(p.stmt_id, 10))
            check(r.kind == "rows" and len(r.rows) == 3, lambda: f"fetch over TLS answered with {r!r}", key="tls-rows")
            check(c.ping(), "the connection over TLS doesn't survive", key="tls-rows")
        ctx.nontrivial(case["req"] != case["resp"])


def enum_tls(tier):
    for req in range(8):
        for resp in range(8):
            yield {"req": req, "resp": resp, "joined": [True, False, "settle"][(req + resp) % 3]}


CAMPAIGNS = [
    Campaign("failures", run, enum=enum_failures),
    Campaign("tls", run_tls, enum=enum_tls, exhaustive=True),
    Campaign("pairs", run, enum=enum, exhaustive=True),
    Campaign("sizes", run, enum=enum_sizes, exhaustive=True, cpu=90),
    Campaign("programs", run, strategy=cases, quick=8000, thorough=120000, cpu=30),
]
