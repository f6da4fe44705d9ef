"""C11 - server-side cursors deliver every row exactly once, in order."""
import asyncio

from hypothesis import strategies as st

import wire
from runner import Campaign
from world import App, World, check

from mysql_mimic import ResultColumn
from mysql_mimic.errors import MysqlError
from mysql_mimic.types import ColumnType

PROPERTY = "C11"
LEVEL = "exploration"
RULE = ("cases = histories of PREPARE / EXECUTE (with or without cursor, with parameters) / FETCH n / RESET / CLOSE / other commands over up to 4 statements, against a model of the remaining rows "
        "of every cursor; row sources: list, tuple, generator, async generator (suspending or not), async iterator object, sources failing at a row, results of 0..700 rows, explicit or inferred "
        "column types, NULLs; every connection uses one of 4 capability sets; non-trivial = some cursor was fetched from in at least two parts, or fetched again after exhaustion, reset, close or re-execution")
ASSUMPTIONS = ["a fetch that returns exactly the last rows may or may not flag exhaustion", "fetching again from an exhausted cursor yields no rows with last-row-sent, or ERR",
               "a fetch during which the row source fails yields the rows before the failure and ERR; the cursor is gone"]

CAPS = [wire.FULL_CAPS, wire.FULL_CAPS & ~wire.DEPRECATE_EOF, wire.BASE_CAPS, wire.FULL_CAPS & ~wire.QUERY_ATTRIBUTES]
# what the application answers, by index in the SQL: n rows, source kind, failing row, explicit types, null pattern
SOURCES = ["list", "tuple", "gen", "agen", "agen0", "aiter", "iter"]


class AIter:
    def __init__(self, rows):
        self.rows = iter(rows)

    def __aiter__(self):
        return self

    async def __anext__(self):
        try:
            return next(self.rows)
        except StopIteration:
            raise StopAsyncIteration


def cells(gen, i, spec):
    nulls = spec.get("nulls", 0)
    return [gen, i, None if nulls and (i % nulls == 0) else "r%d \u00e9" % i, None if nulls == 1 else i * 7]


def make_source(gen, spec):
    fail = spec.get("fail")

    def rows():
        for i in range(spec["n"]):
            if fail is not None and i == fail:
                raise MysqlError("row source failed")
            yield cells(gen, i, spec)
    k = spec["src"]
    if fail is not None and k in ("list", "tuple"):
        k = "gen"
    if k == "list":
        return list(rows())
    if k == "tuple":
        return tuple(tuple(r) for r in rows())
    if k == "gen":
        return rows()
    if k == "iter":
        return iter(rows())
    if k == "aiter":
        return AIter(rows()) if fail is None else AIter(rows())

    async def agen():
        for r in rows():
            if k == "agen":
                await asyncio.sleep(0)
            yield r
    return agen()


class Model:
    def __init__(self, spec_of):
        self.stmts = {}
        self.spec_of = spec_of


def current(spec, execs, i):
    """A statement may have no result, or fail, at every other execution."""
    if spec.get("alt") and sum(x[0] == i for x in execs) % 2 == 0:
        return dict(spec, src=spec["alt"])
    return spec


def app(specs, execs):
    def query(s, e, sql, attrs):
        i = int(sql.split("FROM t")[1].split()[0])
        execs.append((i, sql))
        spec = current(specs[i], execs, i)
        if spec["src"] == "none":
            return None
        if spec["src"] == "raise":
            raise MysqlError("failed")
        gen = len(execs)
        src = make_source(gen, spec)
        if spec["bare"]:
            return src, ["g", "i", "s", "x"]
        return src, [ResultColumn("g", ColumnType.LONGLONG), ResultColumn("i", ColumnType.LONG), ResultColumn("s", ColumnType.VARCHAR), ResultColumn("x", ColumnType.LONGLONG)]
    return App(query=query, schema=lambda s: {"tt": {"a": "int"}})


class Cursor:
    def __init__(self, gen, spec, cols):
        self.gen, self.spec, self.cols = gen, spec, cols
        self.pos = 0
        self.flagged = False
        self.parts = 0

    @property
    def rows(self):
        return [cells(self.gen, i, self.spec) for i in range(self.spec["n"])]


def run(case, ctx):
    specs, execs = case["specs"], []
    with World(app=app(specs, execs)) as w:
        c = w.login(caps=CAPS[case["caps"]], charset=45)
        stmts = {}  # slot -> [stmt_id, spec index, cursor or None, params]
        dead = []  # closed statement ids

        def norm(r, cols):
            return [list(x) for x in r.binary_rows(cols)]

        def expect(cur, a, b):
            return [[v.encode("utf-8") if isinstance(v, str) else v for v in row] for row in cur.rows[a:b]]

        def same(got, want):
            if len(got) != len(want):
                return False
            for g, x in zip(got, want):
                for a, b in zip(g, x):
                    if isinstance(a, str):
                        a = a.encode("utf-8")
                    if a is not None and b is not None and type(a) is not type(b):
                        a = int(a) if isinstance(b, int) else a
                    if a != b:
                        return False
            return True

        def plain(r, gen, spec):
            return same(norm(r, r.cols), expect(Cursor(gen, spec, r.cols), 0, spec["n"]))

        for op in case["ops"]:
            k = op[0]
            if k == "prep":
                slot, si, npar = op[1], op[2] % len(specs), op[3]
                sql = "SELECT g FROM t%d WHERE 1" % si + " AND x = ?" * npar
                r = c.prepare(sql)
                check(r.kind == "prepare" and len(r.params) == npar, lambda: f"prepare: {r!r}", key="prepare")
                if slot in stmts:
                    dead.append(None)
                check(r.stmt_id not in [s[0] for s in stmts.values()], lambda: f"statement id {r.stmt_id} is in use", key="stmt-id")
                stmts[slot] = [r.stmt_id, si, None, npar]
                continue
            if k == "other":
                what = op[1]
                if what == "ping":
                    check(c.ping(), "ping failed")
                elif what == "query":
                    i = op[2] % len(specs)
                    r = c.query("SELECT g FROM t%d" % i)
                    check(r.kind in ("rows", "ok", "err"), "bad response")
                elif what == "fields":
                    c.cmd(wire.com_field_list(b"tt", b""))
                elif what == "set":
                    c.query("SET sql_mode = 'X%d'" % op[2])
                elif what == "initdb":
                    c.cmd(wire.com_init_db(b"d%d" % op[2]))
                elif what == "long":
                    s = stmts.get(op[2] % 4)
                    if s and s[3]:
                        c.cmd(wire.com_stmt_send_long_data(s[0], 0, b"1"))
                        c.cmd(wire.com_stmt_reset(s[0]))
                        s[2] = None
                elif what == "bad":
                    c.cmd(b"\x66")
                continue
            if k == "unknown":
                sid = op[2] + 1000
                r = c.cmd({"exec": lambda: wire.com_stmt_execute(sid, c.caps, [], [], 1), "fetch": lambda: wire.com_stmt_fetch(sid, 3), "reset": lambda: wire.com_stmt_reset(sid),
                           "close": lambda: wire.com_stmt_close(sid)}[op[1]]())
                check(r.kind == ("none" if op[1] == "close" else "err"), lambda: f"{op[1]} of an unknown statement answered with {r!r}", key="unknown")
                continue
            s = stmts.get(op[1])
            if s is None:
                continue
            sid, si, cur, npar = s
            spec = specs[si]
            if k == "exec":
                params = [wire.P(wire.T_LONGLONG, (7 + i).to_bytes(8, "little")) for i in range(npar)]
                attrs = [wire.P(wire.T_VAR_STRING, wire.lenstr(b"v"), name=b"n%d" % i) for i in range(op[3])]
                n0 = len(execs)
                r = c.cmd(wire.com_stmt_execute(sid, c.caps, params, attrs, op[2]))
                check(len(execs) == n0 + 1, lambda: f"the application received {len(execs) - n0} statements for one COM_STMT_EXECUTE", key="exec-count")
                spec = current(spec, execs, si)
                if cur is not None and cur.pos:
                    ctx.nontrivial()
                s[2] = None
                if spec["src"] == "none":
                    check(r.kind == "ok", lambda: f"statement without result answered with {r!r}", key="exec")
                elif spec["src"] == "raise":
                    check(r.kind == "err", lambda: f"failing statement answered with {r!r}", key="exec")
                elif op[2]:
                    early = spec.get("fail") is not None and spec["bare"]
                    if early and r.kind == "err":
                        continue
                    check(r.kind == "rows", lambda: f"execute with cursor answered with {r!r}", key="exec")
                    check(r.cursor and not r.rows, lambda: f"execute with a read-only cursor: cursor announced={r.cursor}, rows sent={len(r.rows)}", key="no-cursor")
                    check([x.name for x in r.cols] == [b"g", b"i", b"s", b"x"], lambda: f"columns {r.cols}", key="cols")
                    s[2] = Cursor(len(execs), spec, r.cols)
                    ctx.tag("cursor")
                elif spec.get("fail") is not None and spec["fail"] < spec["n"]:
                    check(r.kind == "err", lambda: f"failing rows answered with {r!r}", key="exec")
                else:
                    check(r.kind == "rows" and not r.cursor, lambda: f"execute without cursor answered with {r!r}, cursor={r.cursor}", key="exec")
                    check(plain(r, len(execs), spec), lambda: f"execute without cursor: rows {norm(r, r.cols)[:5]}", key="exec-rows")
                continue
            if k == "reset":
                r = c.cmd(wire.com_stmt_reset(sid))
                check(r.kind == "ok", lambda: f"reset answered with {r!r}", key="reset")
                if cur is not None:
                    ctx.nontrivial(cur.pos < spec["n"])
                s[2] = None
                continue
            if k == "close":
                c.cmd(wire.com_stmt_close(sid))
                del stmts[op[1]]
                r = c.cmd(wire.com_stmt_fetch(sid, 2))
                check(r.kind == "err", lambda: f"fetch from a closed statement answered with {r!r}", key="closed")
                r = c.cmd(wire.com_stmt_execute(sid, c.caps, [], [], 1))
                check(r.kind == "err", lambda: f"execute of a closed statement answered with {r!r}", key="closed")
                continue
            # ---- fetch
            n = op[2]
            c.send(wire.com_stmt_fetch(sid, n))
            w.settle()
            r = c.finish()
            if cur is None:
                ctx.tag("fetch-without-cursor")
                check(r.kind == "err", lambda: f"fetch without an open cursor answered with {r!r}", key="no-cursor-fetch")
                continue
            cur.parts += 1
            if cur.parts > 1:
                ctx.nontrivial()
            total = spec["n"]
            stop = spec.get("fail") if spec.get("fail") is not None and spec["fail"] < total else None
            avail = (stop if stop is not None else total) - cur.pos
            if cur.flagged:
                ctx.tag("refetch")
                check(r.kind == "err" or (not r.rows and (last(r) or not n)), lambda: f"fetch from an exhausted cursor: {r!r} with rows {norm(r, cur.cols)[:3] if r.rows else ''}", key="refetch")
                if r.kind == "err":
                    s[2] = None
                continue
            if stop is not None and n > avail:
                check(r.kind == "err", lambda: f"fetch across a failing row answered with {r!r}", key="fail")
                check(same(norm(r, cur.cols), expect(cur, cur.pos, cur.pos + avail)), lambda: f"rows before the failure: {norm(r, cur.cols)}", key="fail-rows")
                s[2] = None
                ctx.tag("failed")
                continue
            if stop is not None and n == avail and r.kind == "err":
                s[2] = None
                continue  # looking one row ahead met the failure
            check(r.kind != "err", lambda: f"fetch of {n} rows at {cur.pos}/{total} answered with {r!r}", key="fetch-err")
            want = min(n, avail)
            got = norm(r, cur.cols)
            check(len(got) == want, lambda: f"fetch of {n} rows at {cur.pos}/{total} returned {len(got)} rows", key="fetch-count")
            check(same(got, expect(cur, cur.pos, cur.pos + want)), lambda: f"fetch of {n} rows at {cur.pos}/{total} returned {got[:4]}, expected {expect(cur, cur.pos, cur.pos + want)[:4]}", key="fetch-rows")
            cur.pos += want
            if n > want:
                check(last(r), lambda: f"a fetch of {n} rows that found only {want} does not flag last-row-sent", key="last-missing")
            if cur.pos < total:
                check(not last(r), lambda: f"last-row-sent flagged while {total - cur.pos} rows remain", key="last-early")
            if last(r):
                cur.flagged = True
                ctx.tag("exhausted")
        check(c.ping(), "ping failed")


def last(r):
    return bool(r.term.status & wire.ST_LAST_ROW_SENT)


# ----------------------------------------------------------------- systematic
def enum_small(tier):
    sizes = [0, 1, 2, 3, 7]
    for n in range(0, 8):
        for a in sizes:
            for b in sizes:
                for d in sizes:
                    for si, src in enumerate(SOURCES):
                        k = n + a + b * 3 + d * 5 + si
                        if tier == "quick" and k % 3:
                            continue
                        yield {"caps": k % 4, "specs": [{"n": n, "src": src, "bare": bool(k % 2), "nulls": (0, 2, 1)[si % 3]}],
                               "ops": [["prep", 0, 0, k % 3], ["exec", 0, 1, (k // 4) % 3], ["fetch", 0, a], ["fetch", 0, b], ["fetch", 0, d], ["fetch", 0, 4], ["fetch", 0, 1]]}


def enum_break(tier):
    """A cursor interrupted after every number of rows by re-execution, reset, close or another statement."""
    for n in (0, 1, 3, 6):
        for a in range(0, 5):
            for bi, brk in enumerate((["exec", 0, 1, 0], ["exec", 0, 0, 0], ["reset", 0], ["close", 0], ["prep", 0, 0, 0], ["exec", 1, 1, 0], ["exec", 1, 0, 1], ["reset", 1], ["close", 1], ["fetch", 1, 2],
                                      ["other", "query", 0], ["other", "fields", 0], ["other", "set", 1], ["other", "initdb", 0], ["other", "ping", 0], ["other", "bad", 0], ["unknown", "fetch", 1],
                                      ["unknown", "reset", 2], ["unknown", "close", 3], ["unknown", "exec", 4])):
                for src in SOURCES:
                    for caps in range(4):
                        if tier == "quick" and (n + a + bi + caps + SOURCES.index(src)) % 4:
                            continue
                        specs = [{"n": n, "src": src, "bare": bool((n + a) % 2), "nulls": 3, "alt": [None, "raise", "none"][(a + bi + caps) % 3] if brk[0] == "exec" else None}, {"n": 5, "src": "gen", "bare": False}]
                        yield {"caps": caps, "specs": specs, "ops": [["prep", 0, 0, 0], ["prep", 1, 1, 0], ["exec", 1, 1, 0], ["exec", 0, 1, 0], ["fetch", 0, a], brk, ["fetch", 1, 1], ["fetch", 0, 2], ["fetch", 1, 2], ["fetch", 0, 9],
                                                                     ["fetch", 1, 9], ["exec", 0, 1, 0], ["fetch", 0, 1], ["fetch", 0, 100]]}


def enum_big(tier):
    for n in (250, 254, 255, 256, 257, 511, 700):
        for f in ([n], [n + 1], [n - 1, 1, 1], [250, 1000], [255, 255, 255], [2 ** 32 - 1], [2 ** 31], [1] * 5 + [4096]):
            for src in SOURCES:
                for caps in range(4):
                    if tier == "quick" and (n + len(f) + SOURCES.index(src) + caps) % 3:
                        continue
                    yield {"caps": caps, "specs": [{"n": n, "src": src, "bare": caps % 2 == 0, "nulls": 0}], "ops": [["prep", 0, 0, 0], ["exec", 0, 1, 0]] + [["fetch", 0, k] for k in f] + [["fetch", 0, 5]]}
    for n in (9999, 10000, 10001, 20003):
        for f in ([n], [n - 1, 1, 1], [10000, 10000, 10000], [1, 9999, 1, 10000], [2 ** 32 - 1]):
            for src in SOURCES if tier != "quick" else SOURCES[n % 3::3]:
                yield {"caps": n % 4, "specs": [{"n": n, "src": src, "bare": n % 2 == 0, "nulls": 0}], "ops": [["prep", 0, 0, 0], ["exec", 0, 1, 0]] + [["fetch", 0, k] for k in f] + [["fetch", 0, 5]]}


def run_crowd(case, ctx):
    """Very many statements on one connection: none gets the id of another one that is still open, and no cursor suffers."""
    execs = []
    specs = [{"n": 9, "src": "gen", "bare": False, "nulls": 0}]
    with World(app=app(specs, execs)) as w:
        c = w.login(caps=CAPS[case["caps"]], charset=45)
        live = {}  # id -> cursor or None
        gone = set()

        def prepare(count):
            sent, data = [], []
            pl = wire.com_stmt_prepare(b"SELECT g FROM t0 WHERE 1")
            for _ in range(count):
                f, nxt = wire.frame(pl, 0)
                data.append(f)
            c.pump_idle()
            c.raw(b"".join(data))
            w.settle()
            ids = []
            for _ in range(count):
                c.parser = wire.Parser(wire.command_class(pl), c.caps)
                c.expect_seq = nxt
                while not c.parser.done:
                    p = c._next_payload()
                    check(p is not None, "COM_STMT_PREPARE unanswered")
                    c.parser.feed(p)
                r = c.parser.r
                check(r.kind == "prepare", lambda: f"prepare: {r!r}", key="prepare")
                check(r.stmt_id not in live, lambda: f"the id {r.stmt_id} of an open statement was given to another one, after {len(live) + len(gone)} statements", key="stmt-id")
                live[r.stmt_id] = None
                gone.discard(r.stmt_id)
                ids.append(r.stmt_id)
            return ids

        def execute(sid):
            r = c.cmd(wire.com_stmt_execute(sid, c.caps, [], [], 1))
            check(r.kind == "rows" and r.cursor, lambda: f"execute with cursor answered with {r!r}", key="exec")
            live[sid] = Cursor(len(execs), specs[0], r.cols)

        def fetch(sid, n):
            cur = live[sid]
            r = c.cmd(wire.com_stmt_fetch(sid, n))
            check(r.kind == "rows", lambda: f"fetch with {len(live)} open statements answered with {r!r}", key="fetch-err")
            want = min(n, 9 - cur.pos)
            got = [[v.encode() if isinstance(v, str) else v for v in row] for row in r.binary_rows(cur.cols)]
            exp = [[v.encode() if isinstance(v, str) else v for v in row] for row in cur.rows[cur.pos:cur.pos + want]]
            check(got == exp, lambda: f"fetch of {n} rows at {cur.pos}/9 returned {got}, expected {exp}", key="fetch-rows")
            cur.pos += want
            check(last(r) or n <= want, "last-row-sent is missing", key="last-missing")
            check(not last(r) or cur.pos == 9, "last-row-sent is premature", key="last-early")

        cursors = prepare(case["open"])
        for sid in cursors:
            execute(sid)
        for sid in cursors:
            fetch(sid, 2)
        left = case["total"]
        while left > 0:
            ids = prepare(min(left, 400))
            left -= len(ids)
            if case["keep"]:
                ids = ids[case["keep"]:]
            data = b"".join(wire.frame(wire.com_stmt_close(i), 0)[0] for i in ids)
            c.raw(data)
            w.settle()
            for i in ids:
                del live[i]
                gone.add(i)
        for sid in reversed(cursors):
            fetch(sid, 3)
        for i in sorted(gone)[:3] + sorted(gone)[-3:]:
            r = c.cmd(wire.com_stmt_fetch(i, 2))
            check(r.kind == "err", lambda: f"fetch from a closed statement answered with {r!r}", key="closed")
        for sid in cursors:
            fetch(sid, 2)
            fetch(sid, 9)
        # resetting, re-executing or closing a late statement concerns this one only
        late = prepare(3)
        early = cursors[:3]
        for sid in early + late:
            execute(sid)
            fetch(sid, 1)
        for how, sid in zip(("reset", "close", "exec"), late):
            if how == "exec":
                execute(sid)
                fetch(sid, 4)
                continue
            r = c.cmd((wire.com_stmt_reset if how == "reset" else wire.com_stmt_close)(sid))
            check(how == "close" or r.kind == "ok", lambda: f"{how} of {sid} answered with {r!r}", key="reset")
            r = c.cmd(wire.com_stmt_fetch(sid, 2))
            check(r.kind == "err", lambda: f"fetch after the {how} of {sid} answered with {r!r}", key="closed")
        for sid in early + late[2:]:
            fetch(sid, 3)
            fetch(sid, 9)
        ctx.nontrivial()
        ctx.tag("crowd")


def enum_crowd(tier):
    for total, opened, keep in ((3, 2, 0), (30, 300, 0), (130, 3, 0), (260, 3, 0), (300, 10, 1), (1100, 5, 0), (33000, 1, 0), (66000, 2, 1), (66000, 2, 0)) + (((140000, 3, 0), (70000, 1, 300)) if tier != "quick" else ()):
        yield {"total": total, "open": opened, "keep": keep, "caps": (total // 10) % 4}


# ----------------------------------------------------------------- random histories
def spec_strategy():
    return st.fixed_dictionaries({"n": st.one_of(st.integers(0, 8), st.integers(0, 60), st.sampled_from([255, 256, 300, 600])), "src": st.sampled_from(SOURCES * 3 + ["none", "raise"]), "bare": st.booleans(),
                                  "nulls": st.integers(0, 3), "fail": st.sampled_from([None] * 12 + list(range(10))), "alt": st.sampled_from([None] * 5 + ["raise", "none"])})


@st.composite
def op(draw):
    k = draw(st.integers(0, 19))
    slot = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3]))
    if k <= 1:
        return ["prep", slot, draw(st.integers(0, 3)), draw(st.integers(0, 2))]
    if k <= 5:
        return ["exec", slot, draw(st.sampled_from([1, 1, 1, 0])), draw(st.integers(0, 2))]
    if k <= 13:
        return ["fetch", slot, draw(st.one_of(st.integers(0, 3), st.integers(1, 3), st.integers(0, 30), st.sampled_from([255, 256, 1000, 2 ** 32 - 1])))]
    if k == 14:
        return ["reset", slot]
    if k == 15:
        return ["close", slot]
    if k <= 18:
        return ["other", draw(st.sampled_from(["ping", "query", "fields", "set", "initdb", "long", "bad"])), draw(st.integers(0, 3))]
    return ["unknown", draw(st.sampled_from(["exec", "fetch", "reset", "close"])), draw(st.integers(0, 5))]


@st.composite
def cases(draw):
    specs = draw(st.lists(spec_strategy(), min_size=1, max_size=4))
    k = draw(st.integers(1, 4))
    ops = [["prep", i, draw(st.integers(0, 3)), draw(st.integers(0, 1))] for i in range(k)] + [["exec", i, 1, 0] for i in range(k)]
    return {"caps": draw(st.integers(0, 3)), "specs": specs, "ops": ops + draw(st.lists(op(), min_size=8, max_size=26))}


def run_killed(case, ctx):
    """A fetch aborted by KILL QUERY: rows may be lost with it, but never behind the client's back."""
    n, at, src = case["n"], case["at"], case["src"]
    with World(app=App()) as w:
        gate = w.gate("row")

        class Steps:
            """An iterator object, which stays usable after a cancelled step."""

            def __init__(self):
                self.i = 0

            def __aiter__(self):
                return self

            async def __anext__(self):
                if self.i >= n:
                    raise StopAsyncIteration
                if self.i == at:
                    await gate.wait()
                self.i += 1
                return (self.i - 1, "x" * case["wide"])

        async def agen():
            for i in range(n):
                if i == at:
                    await gate.wait()
                yield (i, "x" * case["wide"])

        async def stubborn():
            for i in range(n):
                if i == at:
                    try:
                        await gate.wait()
                    except asyncio.CancelledError:
                        if case["swallow"] == "raise":
                            raise MysqlError("interrupted")
                        if case["swallow"] == "end":
                            return
                yield (i, "x" * case["wide"])

        def query(s, e, sql, attrs):
            if "t0" in sql:
                return {"steps": Steps, "agen": agen, "stubborn": stubborn, "list": lambda: [(i, "x" * case["wide"]) for i in range(n)]}[src](), [ResultColumn("i", ColumnType.LONG), ResultColumn("x", ColumnType.VARCHAR)]
            return [(i, "o") for i in range(5)], ["i", "x"]
        w.app = App(query=query)
        c = w.login(caps=CAPS[case["caps"]], charset=45)
        k = w.login(user=b"k")
        sid, other = c.prepare("SELECT i FROM t0").stmt_id, c.prepare("SELECT i FROM t1").stmt_id
        r = c.cmd(wire.com_stmt_execute(other, c.caps, [], [], 1))
        ocols = r.cols
        r = c.cmd(wire.com_stmt_execute(sid, c.caps, [], [], 1))
        cols = r.cols
        check(r.cursor, "no cursor", key="no-cursor")

        def ids(r, cols):
            return [int(x[0]) for x in r.binary_rows(cols)]
        pos = 0
        if case["before"]:
            r = c.cmd(wire.com_stmt_fetch(sid, case["before"]))
            check(r.kind == "rows" and ids(r, cols) == list(range(case["before"])) and not last(r), lambda: f"fetch of {case['before']} of {n} rows: {r!r}", key="killed-before")
            pos = case["before"]
        if case["ofetch"]:
            r = c.cmd(wire.com_stmt_fetch(other, 2))
            check(ids(r, ocols) == [0, 1], "other cursor", key="killed-other")
        if src == "list":
            c.sock.window = case["window"]
        c.send(wire.com_stmt_fetch(sid, case["size"]))
        w.settle()
        for _ in range(case["kills"]):
            r = k.query("KILL QUERY %d" % w.sessions[0].conn_id)
            check(r.kind == "ok", lambda: f"KILL: {r!r}", key="kill")
        if case["open"]:
            gate.open()
        w.settle()
        c.sock.window = None
        w.settle()
        gate.open()
        w.settle()
        r = c.finish(b"fetch")
        got = ids(r, cols)
        check(got == list(range(pos, pos + len(got))), lambda: f"the killed fetch delivered rows {got[:10]} from position {pos}", key="killed-rows")
        pos += len(got)
        killed = r.kind == "err"
        ctx.nontrivial(killed)
        if not killed and not (src == "stubborn" and case["swallow"] == "end"):
            check(len(got) == min(case["size"], n - pos + len(got)) and (not last(r) or pos == n), lambda: f"fetch of {case['size']} answered without an error: {len(got)} rows, last={last(r)}", key="killed-fetch")
        if case["ofetch"] != 2:
            r = c.cmd(wire.com_stmt_fetch(other, 2))
            a = 2 if case["ofetch"] else 0
            check(r.kind == "rows" and ids(r, ocols) == [a, a + 1], lambda: f"another statement's cursor, after the kill: {r!r} {ids(r, ocols)}", key="killed-other")
        if not (src == "stubborn" and case["swallow"] == "end"):
            for size in (1, 2, n + 1, 1):
                r = c.cmd(wire.com_stmt_fetch(sid, size))
                if r.kind == "err":
                    if pos < n and not killed:
                        check(False, lambda: f"fetch failed with {pos} of {n} rows delivered, nothing killed: {r!r}", key="killed-later")
                    break
                got = ids(r, cols)
                check(got == list(range(pos, pos + len(got))), lambda: f"after a killed fetch that delivered the rows up to {pos}, a fetch delivered {got[:10]}", key="killed-later")
                pos += len(got)
                check(not last(r) or pos == n, lambda: f"after a killed fetch, a fetch flags the last row at {pos} of {n} rows", key="killed-last")
                check(len(got) == size or pos == n, lambda: f"after a killed fetch, a fetch of {size} delivers {len(got)} rows, {pos} of {n} so far", key="killed-later")
        r = c.cmd(wire.com_stmt_execute(sid, c.caps, [], [], 1))
        check(r.kind == "rows" and r.cursor, lambda: f"re-execution after the kill: {r!r}", key="killed-again")
        r = c.cmd(wire.com_stmt_fetch(sid, n + 1))
        check(r.kind == "rows" and ids(r, cols) == list(range(n)) and last(r), lambda: f"re-executed after the kill: {r!r} {ids(r, cols)[:10]}", key="killed-again")


def enum_killed(tier):
    j = 0
    for n in (1, 3, 6):
        for src in ("agen", "steps", "stubborn", "list"):
            for before in range(0, min(n, 4)):
                for at in range(before, n):
                    for size in (1, 2, n, n + 1):
                        for op in (False, True):
                            j += 1
                            if tier == "quick" and j % 2:
                                continue
                            yield {"n": n, "src": src, "before": before, "at": at, "size": size, "open": op, "kills": 1 + j // 2 % 2, "caps": j // 4 % 4, "ofetch": j // 2 % 3,
                                   "swallow": ("go", "raise", "end")[j // 2 % 3], "wide": (300000 if src == "list" else 3), "window": 50000 * (at + 1)}


CAMPAIGNS = [
    Campaign("small", run, enum=enum_small, cpu=15),
    Campaign("break", run, enum=enum_break, cpu=15),
    Campaign("big", run, enum=enum_big, cpu=30),
    Campaign("killed", run_killed, enum=enum_killed, cpu=15),
    Campaign("crowd", run_crowd, enum=enum_crowd, cpu=200),
    Campaign("histories", run, strategy=cases, quick=2500, thorough=80000, cpu=15),
]
