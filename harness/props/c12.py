"""C12 - results stream lazily, with back-pressure and without starving other clients."""
import gc
import tracemalloc

from hypothesis import strategies as st

import tlsclient
import wire
from runner import Campaign
from world import App, World, check

from mysql_mimic import ResultColumn
from mysql_mimic.types import ColumnType

PROPERTY = "C12"
LEVEL = "exploration"
RULE = ("cases = a result (text, binary, or cursor FETCH of any size; explicit or inferred column types, leading or permanent NULL columns; row sizes 10 B..1 MB; endless or 200 000-row sources of 6 kinds that "
        "never suspend) streamed to a client with a generated schedule of receive windows (also partial sends, TLS): after every step the rows pulled from the source exceed those accepted by the socket by "
        "less than a fixed bound, the loop comes to rest, and further window makes further progress; separately other connections issue commands while the result streams to an eager client, counting the "
        "rows pulled until each is answered; live row objects and traced memory are bounded; non-trivial = more than the bound's worth of rows remained unpulled, or another connection was served mid-stream")
ASSUMPTIONS = ["fixed bound used: 2 MiB of encoded rows plus 4 rows plus 25 000 rows (column type inference and batching)", "fairness bound: 100 000 rows of every endless source per answered command"]

BYTES, ROWS, INFER = 2 << 20, 4, 25_000
FAIR = 100_000


class Row(tuple):
    """A row whose lifetime is observable."""
    live = 0

    def __new__(cls, it):
        Row.live += 1
        return tuple.__new__(cls, it)

    def __del__(self):
        Row.live -= 1


class Source:
    def __init__(self, spec):
        self.spec = spec
        self.pulled = 0
        self.suspended = 0
        pad = "p" * spec["size"]
        k = spec["kind"]
        limit = spec.get("n")
        nulls = spec.get("nulls", 0)  # rows during which the third column is NULL (-1: always)

        def make(i):
            return Row((i, pad, None if nulls == -1 or i < nulls else "v%d" % (i % 7)))

        def gen():
            while limit is None or self.pulled < limit:
                i = self.pulled
                self.pulled += 1
                yield make(i)

        async def agen():
            for r in gen():
                yield r

        class It:
            def __iter__(s):
                return s

            def __next__(s):
                if limit is not None and self.pulled >= limit:
                    raise StopIteration
                self.pulled += 1
                return make(self.pulled - 1)

        class AIt:
            def __aiter__(s):
                return s

            async def __anext__(s):
                if limit is not None and self.pulled >= limit:
                    raise StopAsyncIteration
                self.pulled += 1
                return make(self.pulled - 1)

        class Iterable:
            def __iter__(s):
                return gen()
        self.rows = {"gen": gen, "agen": agen, "iter": It, "aiter": AIt, "iterable": Iterable, "map": lambda: map(lambda x: x, gen())}[k]()

    @property
    def result(self):
        if self.spec["bare"]:
            return self.rows, ["i", "pad", "v"]
        return self.rows, [ResultColumn("i", ColumnType.LONGLONG), ResultColumn("pad", ColumnType.VARCHAR), ResultColumn("v", ColumnType.VARCHAR)]


def make_app(specs, sources):
    def query(s, e, sql, attrs):
        if "FROM s" not in sql:
            return [(1, 2)], ["a", "b"]
        i = int(sql.split("FROM s")[1].split()[0])
        src = Source(specs[i])
        sources.append(src)
        return src.result
    return App(query=query, schema=lambda s: {"t": {"a": "int"}})


def bound_rows(spec):
    return BYTES // (spec["size"] + 8) + ROWS + INFER


def start(w, c, spec, mode, i=0):
    """-> a function sending the command that starts the stream (not run to its end)."""
    if mode == "text":
        return lambda: c.send(wire.com_query(b"SELECT i FROM s%d x" % i, c.caps))
    r = c.prepare(b"SELECT i FROM s%d x" % i)
    check(r.kind == "prepare", "prepare failed")
    if mode == "binary":
        return lambda: c.send(wire.com_stmt_execute(r.stmt_id, c.caps, [], [], 0))
    r2 = c.cmd(wire.com_stmt_execute(r.stmt_id, c.caps, [], [], 1))
    check(r2.kind == "rows" and r2.cursor, lambda: f"cursor: {r2!r}")
    return lambda: c.send(wire.com_stmt_fetch(r.stmt_id, mode[1]))


def size_of(spec, mode):
    return spec["size"]


def run_pressure(case, ctx):
    spec, mode = case["spec"], case["mode"]
    mode = tuple(mode) if isinstance(mode, list) else mode
    sources = []
    Row.live = 0
    kw = {"ssl": tlsclient.server_context()} if case.get("tls") else {}
    with World(app=make_app([spec], sources), **kw) as w:
        c = w.client()
        if case.get("tls"):
            c.caps = wire.FULL_CAPS & c.hs.caps | wire.SSL
            check(c.start_tls(), "TLS failed")
        check(c.login().kind == "ok", "login")
        other = w.login()
        sock = c.sock
        slack = 0

        def idle(limit=20_000):
            for _ in range(limit):
                if not w.loop.has_work():
                    return True
                w.loop.step()
                if sources and spec.get("n") is None and sources[-1].pulled - base[1] > 60 * bound_rows(spec) + 3_000_000 // max(1, spec["size"]):
                    return False
            return False
        base = [0, 0]
        if mode == "text" or mode == "binary":
            if mode == "binary":
                r = c.prepare(b"SELECT i FROM s0 x")
                sock.window = 0
                c.send(wire.com_stmt_execute(r.stmt_id, c.caps, [], [], 0))
            else:
                sock.window = 0
                c.send(wire.com_query(b"SELECT i FROM s0 x", c.caps))
        else:
            r = c.prepare(b"SELECT i FROM s0 x")
            r2 = c.cmd(wire.com_stmt_execute(r.stmt_id, c.caps, [], [], 1))
            check(r2.cursor, "no cursor")
            check(sources[-1].pulled <= INFER, lambda: f"opening a cursor pulled {sources[-1].pulled} rows", key="cursor-eager")
            sock.window = 0
            c.send(wire.com_stmt_fetch(r.stmt_id, mode[1]))
        sock.max_send = case.get("max_send")
        base = [sock.tx_total, 0]
        blocked = False
        for win in [0] + case["windows"]:
            before = sock.tx_total
            sock.window = (sock.window or 0) + win
            avail = sock.window
            check(idle(), lambda: f"with a client that accepts {win} more bytes the server does not come to rest: {sources[-1].pulled if sources else 0} rows pulled, {sock.tx_total - base[0]} bytes accepted", key="no-pressure")
            src = sources[-1]
            sent_rows = (sock.tx_total - base[0]) // (spec["size"] + 4)
            ahead = src.pulled - sent_rows
            limit = BYTES // (spec["size"] + 8) + ROWS + (INFER if spec["bare"] or spec["size"] < 40 else 0)
            if mode not in ("text", "binary"):
                check(src.pulled <= mode[1] + INFER, lambda: f"fetching {mode[1]} rows pulled {src.pulled}", key="over-fetch")
            check(ahead <= limit, lambda: f"{ahead} rows ({spec['size']} B each) were pulled beyond what the client accepted ({sock.tx_total - base[0]} bytes, {src.pulled} rows pulled)", key="ahead")
            del sock.tx[:]
            c.pos = 0
            gc.collect() if Row.live > limit + 4 else None
            check(Row.live <= limit + 4, lambda: f"{Row.live} row objects are alive after {src.pulled} were pulled", key="retained")
            total = spec.get("n") if mode in ("text", "binary") else min(mode[1], spec.get("n") or 1 << 60)
            if total is None or total > sent_rows + bound_rows(spec):
                blocked = True
                if win:
                    check(sock.tx_total - before == avail, lambda: f"the client accepts {avail} bytes, but the server sent only {sock.tx_total - before} although rows remain", key="no-progress")
            check(other.ping(), "another connection is not served while a client does not read", key="blocked-other")
        ctx.nontrivial(blocked)
        ctx.tag(mode if isinstance(mode, str) else "fetch", "bare" if spec["bare"] else "typed", spec["kind"])


@st.composite
def spec_strategy(draw, infinite=True):
    size = draw(st.sampled_from([10, 60, 300, 3000, 40_000, 300_000]))
    spec = {"kind": draw(st.sampled_from(["gen", "agen", "iter", "aiter", "iterable", "map"])), "size": size, "bare": draw(st.booleans()), "nulls": draw(st.sampled_from([0, 0, 1, 40, -1]))}
    if not infinite or draw(st.integers(0, 4)) == 0:
        spec["n"] = draw(st.sampled_from([0, 1, 500, 50_000])) if size <= 300 else draw(st.sampled_from([1, 60]))
    return spec


@st.composite
def pressure_cases(draw):
    mode = draw(st.sampled_from(["text", "text", "binary", "fetch"]))
    if mode == "fetch":
        mode = ["fetch", draw(st.sampled_from([0, 1, 100, 5000, 2 ** 31, 2 ** 32 - 1]))]
    return {"spec": draw(spec_strategy()), "mode": mode, "windows": draw(st.lists(st.sampled_from([1, 3, 100, 5000, 40_000, 200_000, 700_000]), max_size=6)),
            "max_send": draw(st.sampled_from([None, None, 1000, 17_000])), "tls": draw(st.integers(0, 5)) == 0}


def enum_pressure(tier):
    for mode in ("text", "binary", ["fetch", 2 ** 32 - 1], ["fetch", 100]):
        for kind in ("gen", "agen", "iter", "aiter", "iterable", "map"):
            for size in (10, 1000, 100_000) + ((1_000_000,) if tier != "quick" else ()):
                for bare, nulls in ((False, 0), (True, 0), (True, 3), (True, -1)):
                    yield {"spec": {"kind": kind, "size": size, "bare": bare, "nulls": nulls}, "mode": mode, "windows": [1000, 150_000, 1], "tls": (size == 1000 and kind == "gen")}


# ----------------------------------------------------------------- other connections during an endless stream
def run_fair(case, ctx):
    specs = case["specs"]
    sources = []
    with World(app=make_app(specs, sources)) as w:
        others = [w.login(caps=wire.FULL_CAPS), w.login(caps=wire.BASE_CAPS)]
        stmt = others[0].prepare(b"SELECT a FROM t WHERE a = ?").stmt_id
        streams = [w.login() for _ in specs]
        starts = [start(w, c, spec, m, i) for i, (c, spec, m) in enumerate(zip(streams, specs, case["modes"]))]
        for send in starts:
            send()
        for _ in range(case["lead"]):
            w.loop.step()

        def until(cond, what, factor=1):
            p0 = [s.pulled for s in sources]
            while not cond():
                check(w.loop.has_work(), f"{what} was never answered", key="no-answer")
                w.loop.step()
                for c in streams:
                    del c.sock.tx[:]
                for s, p in zip(sources, p0):
                    check(s.pulled - p <= FAIR * factor, lambda: f"{what} was not answered while a streaming connection pulled {s.pulled - p} rows", key="starved")
        # the streams must have reached their sources
        until(lambda: len(sources) == len(specs), "the streaming statement")
        cmds = {"ping": wire.PING, "query": wire.com_query(b"SELECT a FROM t", wire.FULL_CAPS), "static": wire.com_query(b"SELECT @@version", wire.FULL_CAPS), "prepare": wire.com_stmt_prepare(b"SELECT ?"),
                "fields": wire.com_field_list(b"t", b""), "show": wire.com_query(b"SHOW DATABASES", wire.FULL_CAPS), "initdb": wire.com_init_db(b"x"), "set": wire.com_query(b"SET sql_mode = 'A'", wire.FULL_CAPS),
                "exec": wire.com_stmt_execute(stmt, wire.FULL_CAPS, [wire.P(wire.T_LONGLONG, bytes(8))], [], 0)}
        n = 0
        for what in case["cmds"]:
            if what == "login":
                c = wire_login(w, until)
                n += 1
                continue
            c = others[0]
            c.send(cmds[what])
            until(lambda: c.pump(), f"{what} of another connection")
            check(c.parser.r.kind not in ("err", None), lambda: f"{what} answered with {c.parser.r!r}", key="answer")
            n += 1
        ctx.nontrivial(n > 0 and all(s.spec.get("n") is None for s in sources))
        ctx.tag(*[m if isinstance(m, str) else "fetch" for m in case["modes"]])


def wire_login(w, until):
    from world import Client
    c = Client(w, wire.FULL_CAPS)
    c.connect(settle=False)
    until(lambda: len(c.sock.tx) > 60, "a new connection")
    c.read_greeting()
    c.parser = wire.Parser("auth", c.caps)
    c.send_payload(wire.handshake_response(c.caps, b"u", b"", None, b"mysql_native_password", []), c.expect_seq)
    until(lambda: c.pump(), "a login", 2)
    check(c.parser.r.kind == "ok", "login failed")
    return c


def enum_fair(tier):
    cmds = ["ping", "query", "static", "prepare", "fields", "show", "initdb", "set", "exec", "login"]
    for mi, mode in enumerate(("text", "binary", ["fetch", 2 ** 32 - 1])):
        for ki, kind in enumerate(("gen", "agen", "iter", "aiter", "iterable", "map")):
            for si, size in enumerate((1, 400)):
                for bi, (bare, nulls) in enumerate(((False, 0), (True, 0), (True, -1), (True, 40))):
                    k = mi + ki + si + bi
                    for ci in range(len(cmds) if tier != "quick" else 1):
                        yield {"specs": [{"kind": kind, "size": size, "bare": bare, "nulls": nulls}], "modes": [mode], "lead": (k * 3) % 5, "cmds": [cmds[(k + ci) % 10], cmds[(k * 3 + 1 + ci) % 10]]}


@st.composite
def fair_cases(draw):
    n = draw(st.integers(1, 2))
    modes = [draw(st.sampled_from(["text", "binary", ["fetch", 2 ** 32 - 1]])) for _ in range(n)]
    specs = [{"kind": draw(st.sampled_from(["gen", "agen", "iter", "aiter", "iterable", "map"])), "size": draw(st.sampled_from([1, 60, 300])), "bare": draw(st.booleans()),
              "nulls": draw(st.sampled_from([0, 1, 500, -1]))} for _ in range(n)]
    return {"specs": specs, "modes": modes, "lead": draw(st.integers(0, 6)),
            "cmds": draw(st.lists(st.sampled_from(["ping", "query", "static", "prepare", "fields", "show", "initdb", "set", "exec", "login"]), min_size=1, max_size=2))}


# ----------------------------------------------------------------- memory
def run_memory(case, ctx):
    """An eager client discards a large result: neither rows nor encoded packets accumulate."""
    spec, mode = dict(case["spec"]), case["mode"]
    sources = []
    Row.live = 0
    with World(app=make_app([spec], sources)) as w:
        c = w.login()
        start(w, c, spec, mode)()
        src = None
        tracemalloc.start()
        try:
            for _ in range(400):
                if not w.loop.has_work():
                    break
                w.loop.step()
                del c.sock.tx[:]
                if sources and src is None:
                    src = sources[-1]
                    base_mem = tracemalloc.get_traced_memory()[0]
                if src and src.pulled * spec["size"] > case["bytes"]:
                    break
            check(src is not None and src.pulled > 0, "nothing was streamed", key="no-stream")
            gc.collect()
            mem = tracemalloc.get_traced_memory()[0] - base_mem
        finally:
            tracemalloc.stop()
        done = src.pulled * spec["size"]
        ctx.nontrivial(done > case["bytes"])
        bound = 12_000_000 if not (spec["bare"] and spec["nulls"]) else 12_000_000 + INFER * (spec["size"] + 300)
        check(mem <= bound, lambda: f"{mem} bytes are held after streaming {done} bytes to a client that reads everything", key="memory")


def enum_memory(tier):
    for mode in ("text", "binary", ["fetch", 2 ** 32 - 1]):
        for kind in ("gen", "aiter"):
            for bare, nulls in ((False, 0), (True, 2)):
                yield {"spec": {"kind": kind, "size": 2000, "bare": bare, "nulls": nulls}, "mode": mode, "bytes": 45_000_000 if not bare else 90_000_000}


CAMPAIGNS = [
    Campaign("pressure", run_pressure, enum=enum_pressure, cpu=60),
    Campaign("fair", run_fair, enum=enum_fair, cpu=60),
    Campaign("memory", run_memory, enum=enum_memory, cpu=120),
    Campaign("pressure-random", run_pressure, strategy=pressure_cases, quick=300, thorough=8000, cpu=60),
    Campaign("fair-random", run_fair, strategy=fair_cases, quick=60, thorough=3000, cpu=60),
]
