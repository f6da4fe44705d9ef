"""C04 - packet framing is lossless for every payload size and stream segmentation."""
import asyncio
import hashlib
import json
import random

from hypothesis import strategies as st

import sim
import tlsclient
import wire
from runner import Campaign
from world import App, AppSession, Violation, World, check

from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.errors import ErrorCode, MysqlError
from mysql_mimic.stream import MysqlStream
from mysql_mimic.types import ColumnType

PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("cases = (conversation, cut positions of the client's byte stream, whether the server runs between the chunks), "
        "(payload sizes in each direction around 251, 64 Ki, 32 KiB buffer and k*(2^24-1) boundaries x segmentation / partial "
        "sends) and (SSL request + TLS flights, cut or joined anywhere); oracle: reassembled payloads equal what was sent, and "
        "the conversation equals the one of the unsegmented run.  non-trivial = a cut falls inside a packet, several packets "
        "share a read, or a payload spans several packets")
ASSUMPTIONS = ["the client's TLS implementation is OpenSSL via Python's ssl module"]
M = wire.MAXP


# ----------------------------------------------------------------------------- conversations
def scenario(name, caps):
    """[(command payload)] after the handshake response; none depends on the nonce or the id."""
    q = lambda s, attrs=(): wire.com_query(s.encode(), caps, attrs)
    L = lambda n: wire.P(wire.T_LONGLONG, n.to_bytes(8, "little"))
    S = lambda b: wire.P(wire.T_VAR_STRING, wire.lenstr(b))
    if name == "queries":
        return [q("SELECT a FROM t"), q("SELECT 1"), q("SELECT FROM"), wire.PING, q("SET autocommit=0"), q("SELECT @@autocommit"),
                wire.com_init_db(b"db1"), q("SELECT b FROM u")]
    if name == "stmts":
        return [wire.com_stmt_prepare(b"SELECT a FROM t WHERE x=? AND y=?"), wire.com_stmt_send_long_data(1, 1, b"abc"),
                wire.com_stmt_send_long_data(1, 1, b"def"), wire.com_stmt_execute(1, caps, [L(7), wire.P(wire.T_BLOB, b"", long=True)]),
                wire.com_stmt_execute(1, caps, [L(7), S(b"it's")], cursor=1), wire.com_stmt_fetch(1, 2), wire.com_stmt_fetch(1, 9),
                wire.com_stmt_reset(1), wire.com_stmt_close(1), wire.com_stmt_execute(1, caps, [L(7), S(b"x")]), wire.PING]
    if name == "mixed":
        return [b"", wire.PING, bytes([9]), wire.com_field_list(b"t1"), wire.RESET_CONNECTION, wire.DEBUG,
                wire.change_user(caps, b"u2", b"", b"db2", 45, b"mysql_native_password"), q("SELECT a FROM t"), wire.QUIT]
    if name == "tiny":
        return [wire.PING, q("SELECT 1"), wire.QUIT]
    raise ValueError(name)


SCEN = ["queries", "stmts", "mixed", "tiny"]


def app():
    def query(s, e, sql, attrs):
        if "fail" in sql:
            raise MysqlError("nope", ErrorCode.PARSE_ERROR)
        return [(i, "v%d" % i) for i in range(4)], ["n", "s"]
    return App(query=query, schema=lambda s: {"t1": {"a": "int", "b": "text"}})



def client_bytes(c, name):
    caps = c.caps
    data, n = wire.frame(wire.handshake_response(caps, b"u", b"", b"db0", b"mysql_native_password", [(b"k", b"v")]), 1)
    marks = [len(data)]
    for p in fix_ids(scenario(name, caps)):
        f, _ = wire.frame(p, 0)
        data += f
        marks.append(len(data))
    return data, marks


def fix_ids(cmds):
    """The scenarios name statement 1; the server's first statement id is what it is (learned once)."""
    if STMT_ID[0] in (None, 1):
        return cmds
    out = []
    for p in cmds:
        if p[:1] in (b"\x17", b"\x18", b"\x19", b"\x1a", b"\x1c"):
            p = p[:1] + STMT_ID[0].to_bytes(4, "little") + p[5:]
        out.append(p)
    return out


STMT_ID = [None]


def learn():
    if STMT_ID[0] is None:
        try:
            with World(app=app()) as w:
                c = w.login()
                c.allow_unsolicited = True
                c.send(wire.com_stmt_prepare(b"SELECT 1"))
                w.settle()
                c.pump()
                STMT_ID[0] = c.parser.r.stmt_id
        except (Violation, wire.ProtocolError):
            pass
        STMT_ID[0] = 1 if STMT_ID[0] is None else STMT_ID[0]


BASE = {}
CAPS = {"full": wire.FULL_CAPS, "old": wire.BASE_CAPS | wire.CONNECT_WITH_DB, "qa": wire.BASE_CAPS | wire.CONNECT_WITH_DB | wire.QUERY_ATTRIBUTES | wire.DEPRECATE_EOF}


def logs(w):
    return [[str(x) for x in ev[1:]] if ev[1] != "query" else [str(ev[1]), ev[2], json.dumps(ev[3])] for ev in w.events]


def baseline(name, capname):
    """Responses, one packet per read; parsed by the grammar to be sure the reference run is sane."""
    learn()
    k = (name, capname)
    if k in BASE:
        return BASE[k]
    with World(app=app()) as w:
        c = w.client(caps=CAPS[capname])
        start = c.pos
        r = c.login(db=b"db0", attrs=[(b"k", b"v")])
        check(r.kind == "ok", "login failed in the unsegmented run")
        for p in fix_ids(scenario(name, c.caps)):
            if p == b"":
                c.parser = wire.Parser("unsupported", c.caps)
                data, c.expect_seq = wire.frame(p, 0)
                c.raw(data)
                w.settle()
                c.finish()
            else:
                c.cmd(p)
        BASE[k] = (bytes(c.sock.tx[start:]), logs(w), c.closed)
    return BASE[k]


def run_segment(case, ctx):
    name, capname = case["scen"], case["caps"]
    ref_tx, ref_log, ref_closed = baseline(name, capname)
    with World(app=app()) as w:
        c = w.client(caps=CAPS[capname])
        data, marks = client_bytes(c, name)
        start = len(c.sock.tx)
        if case["max_send"]:
            c.sock.max_send = case["max_send"]
        cuts = case["cuts"]
        if cuts == "bytes":
            cuts = list(range(1, len(data)))
        elif cuts == "marks":
            cuts = marks[:-1]
        cuts = sorted({x % len(data) for x in cuts} - {0})
        ctx.nontrivial(any(x not in marks for x in cuts) or len(cuts) < len(marks) - 1)
        prev = 0
        for i, x in enumerate(cuts + [len(data)]):
            c.sock.rx.append(data[prev:x])
            prev = x
            if case["settle"] >> (i % 16) & 1:
                w.settle()
        w.settle()
        got = bytes(c.sock.tx[start:])
        check(got == ref_tx, lambda: f"server's answer differs from the unsegmented run: {diff(ref_tx, got)}", key="segment")
        lg = logs(w)
        check(lg == ref_log, lambda: f"application saw {lg}, in the unsegmented run {ref_log}", key="segment-app")
        check(c.closed == ref_closed, lambda: f"connection closed={c.closed}, unsegmented {ref_closed}")


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return f"lengths {len(a)}/{len(b)}, first difference at {i}: {a[i:i+40]!r} / {b[i:i+40]!r}"


def enum_segment(tier):
    learn()
    lens = {}
    for capname in CAPS:
        with World(app=app()) as w:
            c = w.client(caps=CAPS[capname])
            for s in SCEN:
                lens[s, capname] = len(client_bytes(c, s)[0])
    for s in SCEN:
        for capname in CAPS:
            n = lens[s, capname]
            base = {"scen": s, "caps": capname, "max_send": None}
            for settle in (0xFFFF, 0):
                for cuts in ("bytes", "marks", []):
                    for ms in (None, 1, 7):
                        yield dict(base, cuts=cuts, settle=settle, max_send=ms)
                for i in range(1, n):
                    if capname == "full" or tier != "quick" or i % 3 == 0:
                        yield dict(base, cuts=[i], settle=settle)
    # all pairs of cuts in the handshake response + one command
    n = lens["tiny", "old"]
    for i in range(1, n):
        for j in range(i + 1, n):
            yield {"scen": "tiny", "caps": "old", "max_send": None, "cuts": [i, j], "settle": 0xFFFF}
    if tier != "quick":
        for s in ("stmts", "mixed"):
            n = lens[s, "qa"]
            for i in range(1, n):
                for j in range(i + 1, n):
                    yield {"scen": s, "caps": "qa", "max_send": None, "cuts": [i, j], "settle": 0xFFFF}


segment_cases = st.fixed_dictionaries({
    "scen": st.sampled_from(SCEN), "caps": st.sampled_from(sorted(CAPS)), "max_send": st.sampled_from([None, None, 1, 5, 33]),
    "cuts": st.lists(st.integers(1, 700), max_size=12), "settle": st.integers(0, 0xFFFF)})


# ----------------------------------------------------------------------------- incoming sizes
class RawSession(AppSession):
    """Receives the SQL text unparsed."""

    async def handle_query(self, sql, attrs):
        self.world.got.append(sql)
        if sql.startswith("E"):
            raise MysqlError("e", ErrorCode.PARSE_ERROR)
        return None


def body(n, salt):
    """n deterministic printable bytes without short period alignment with packets."""
    unit = hashlib.sha256(b"%d" % salt).hexdigest().encode() + b"xyzzy12"
    return (unit * (n // len(unit) + 1))[:n]


def chunked(data, case):
    """Client stream -> chunks: cuts around each packet header, plus maybe fixed-size pieces."""
    cuts = set()
    pos = 0
    while pos < len(data):
        for d in case["hdr_cuts"]:
            if 0 < pos + d < len(data):
                cuts.add(pos + d)
        n = int.from_bytes(data[pos:pos + 3], "little")
        pos += 4 + n
        if case["end_cut"]:
            cuts.add(pos + case["end_cut"])
    if case["piece"]:
        cuts.update(range(case["piece"], len(data), case["piece"]))
    cuts = sorted(x for x in cuts if 0 < x < len(data))
    prev = 0
    for x in cuts + [len(data)]:
        yield data[prev:x]
        prev = x


def run_incoming(case, ctx):
    with World(session_factory=lambda: RawSession(w)) as w:
        w.got = []
        c = w.login(caps=CAPS["old"])
        data, want, exps = b"", [], []
        for i, n in enumerate(case["sizes"]):
            # n is the payload length, command byte included
            p = b"" if n == 0 else b"\x03" + body(n - 1, i)
            f, nxt = wire.frame(p, 0)
            data += f
            exps.append((p, nxt))
            if n:
                want.append(p[1:].decode())
            ctx.nontrivial(n >= M or case["hdr_cuts"] or case["piece"])
            if n >= M:
                ctx.tag(f"multi{n // M}" + ("-exact" if n % M == 0 else ""))
        for i, ch in enumerate(chunked(data, case)):
            c.sock.rx.append(ch)
            if case["settle"] and i % case["settle"] == 0:
                w.settle()
        for p, nxt in exps:
            c.parser = wire.Parser("ok" if p else "unsupported", c.caps)
            c.expect_seq = nxt
            w.settle()
            while not c.parser.done:
                x = c._next_payload()
                check(x is not None, lambda: f"no response to a payload of {len(p)} bytes (connection closed={c.closed})", key="incoming-noresp")
                c.parser.feed(x)
            kind = "err" if not p or p[1:2] == b"E" else "ok"
            check(c.parser.r.kind == kind, lambda: f"payload of {len(p)} bytes answered with {c.parser.r!r}", key="incoming-kind")
        check(c.leftover() == 0, "bytes after the last response")
        check(w.got == want, lambda: f"application received texts of lengths {[len(x) for x in w.got]}, sent {[len(x) for x in want]}"
              + ("" if [len(x) for x in w.got] != [len(x) for x in want] else " (contents differ)"), key="incoming-text")


def enum_incoming(tier):
    base = {"hdr_cuts": [], "end_cut": 0, "piece": 0, "settle": 0}
    deltas = (-1, 0, 1) if tier == "quick" else (-2, -1, 0, 1, 2, 4096)
    ks = (1, 2) if tier == "quick" else (1, 2, 3)
    for k in ks:
        for d in deltas:
            n = k * M + d
            for h in ([], [1, 2, 3], [2, 5]) if tier != "quick" or k == 1 else ([], [1, 3]):
                for settle in (0, 1):
                    yield dict(base, sizes=[3, n, 5], hdr_cuts=h, settle=settle)
            if tier != "quick" or k == 1:
                yield dict(base, sizes=[n], piece=65536, settle=3)
                yield dict(base, sizes=[n, n], piece=1 << 20, end_cut=2, settle=1)
    small = list(range(0, 8)) + [250, 251, 252, 255, 256, 4095, 65534, 65535, 65536, 65537, 131072, 262144, 300001]
    for n in small:
        for h in ([], [1], [2], [3], [4], [1, 2, 3, 4, 5]):
            for settle in (0, 1):
                yield dict(base, sizes=[n, 4, n, 0, 9], hdr_cuts=h, settle=settle)
        yield dict(base, sizes=[n] * 6, settle=0)
        if n < 10000:
            yield dict(base, sizes=[n, 3, n], piece=1, settle=1)


incoming_cases = st.fixed_dictionaries({
    "sizes": st.lists(st.one_of(st.integers(0, 40), st.integers(0, 1000), st.integers(0, 140000)), min_size=1, max_size=6),
    "hdr_cuts": st.lists(st.integers(1, 9), max_size=3), "end_cut": st.integers(0, 3),
    "piece": st.sampled_from([0, 0, 17, 1000, 65536]), "settle": st.integers(0, 5)}).map(
    lambda d: dict(d, piece=max(d["piece"], 500) if d["piece"] and sum(d["sizes"]) > 20000 else d["piece"]))


# ----------------------------------------------------------------------------- outgoing sizes
def row_values(total, ncols, binary, salt):
    """String values of one row whose packet payload is exactly `total` bytes (or the closest below)."""
    over = (1 + (ncols + 9) // 8) if binary else 0
    vals = [b""] * ncols
    left = total - over
    for j in range(ncols - 1):
        vals[j] = body(min(5, max(0, left // ncols - 9)), j)
        left -= len(wire.lenstr(vals[j]))
    n = max(0, left - len(wire.lenenc(max(0, left))))
    while n > 0 and len(wire.lenenc(n)) + n > left:
        n -= 1
    while len(wire.lenenc(n + 1)) + n + 1 <= left:
        n += 1
    vals[-1] = body(n, salt)
    return vals


def run_outgoing(case, ctx):
    ncols = case["ncols"]
    rows = [row_values(t, ncols, case["binary"], i) for i, t in enumerate(case["sizes"])]
    msg = "m" * (case["err"] or 0)

    def query(s, e, sql, attrs):
        cols = [ResultColumn(f"c{j}", ColumnType.BLOB) for j in range(ncols)]

        async def gen():
            for r in rows:
                yield r
            if case["err"]:
                raise MysqlError(msg, ErrorCode.PARSE_ERROR)
        return ResultSet(gen(), cols)

    with World(app=App(query=query)) as w:
        c = w.login(caps=CAPS[case["caps"]])
        c.sock.max_send = case["max_send"]
        c.sock.window = case["window"]
        w.loop.sim_selector
        if case["binary"]:
            c.sock.window = None
            p = c.prepare("SELECT a FROM t")
            c.sock.window = case["window"]
            payload = wire.com_stmt_execute(p.stmt_id, c.caps, cursor=1 if case["binary"] == "cursor" else 0)
        else:
            payload = wire.com_query(b"SELECT a FROM t", c.caps)

        def exchange(pl):
            c.send(pl)
            for _ in range(1_000_000):
                w.settle()
                if c.pump() or c.closed:
                    break
                if c.sock.window is not None and c.sock.window < 1:
                    c.sock.window = case["window"]
                else:
                    break
            return c.finish(pl)
        r = exchange(payload)
        got = list(r.rows)
        cols = r.cols
        if case["binary"] == "cursor":
            check(r.cursor, "no cursor")
            for n in (1, 2, 100):
                c.parser = None
                f = exchange(wire.com_stmt_fetch(p.stmt_id, n))
                got += f.rows
                r = f
                if f.kind == "err" or f.term.status & wire.ST_LAST_ROW_SENT:
                    break
        vals = [wire.binary_row(x, cols) if case["binary"] else wire.text_row(x, ncols) for x in got]
        for i, (a, b) in enumerate(zip(vals, rows)):
            check(a == b, lambda: f"row {i} of payload size {len(got[i])}: client got values of lengths {[len(x) for x in a]}, "
                  f"sent {[len(x) for x in b]}", key="outgoing-row")
            n = len(got[i])
            ctx.nontrivial(n >= M or n + 4 > 2 ** 15 or case["max_send"] or case["window"])
            if n >= M:
                ctx.tag(f"multi{n // M}" + ("-exact" if n % M == 0 else ""))
        if case["err"]:
            check(r.kind == "err", lambda: f"the error was answered with {r!r}")
            check(r.err.msg.decode() == msg, lambda: f"error message of {len(msg)} characters arrived as {len(r.err.msg)} bytes", key="outgoing-err")
            ctx.nontrivial(case["err"] > M - 20)
        else:
            check(r.kind == "rows" and len(vals) == len(rows), lambda: f"{len(rows)} rows sent, client got {r!r}", key="outgoing-count")
        c.sock.window = None
        c.parser = None
        check(c.ping(), "PING failed")


def enum_outgoing(tier):
    base = {"ncols": 1, "binary": 0, "max_send": None, "window": None, "err": 0, "caps": "full"}
    deltas = (-1, 0, 1) if tier == "quick" else (-2, -1, 0, 1, 2)
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        for d in deltas:
            n = k * M + d
            for b in (0, 1, "cursor"):
                if tier == "quick" and k == 2 and b == 1:
                    continue
                yield dict(base, sizes=[3, n, 7], binary=b, caps="old" if d == 0 else "full")
                if k == 1 and (d == 0 or tier != "quick"):
                    yield dict(base, sizes=[n, 5], binary=b, max_send=100000, ncols=3)
                    yield dict(base, sizes=[n, n, 5], binary=b, window=1 << 20)
            if k == 1:
                yield dict(base, sizes=[4], err=n - 9)  # 9 = ERR header
                yield dict(base, sizes=[], err=n - 9, caps="old")
    for n in (5, 250, 251, 252, 253, 254, 255, 256, 257, 258, 32763, 32764, 32765, 32766, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 65539, 65540, 131072):
        for b in (0, 1, "cursor"):
            for ms in (None, 1000):
                yield dict(base, sizes=[n, 3, n], binary=b, max_send=ms)
            yield dict(base, sizes=[n] * 9, binary=b, window=30000, ncols=2, caps="old")
    # enough rows for the sequence id to wrap
    for b in (0, 1):
        for n in (251, 252, 253, 254, 255, 256, 257, 600):
            yield dict(base, sizes=[5] * n, binary=b)


outgoing_cases = st.fixed_dictionaries({
    "sizes": st.lists(st.one_of(st.integers(1, 60), st.integers(240, 270), st.integers(1, 70000)), max_size=9),
    "ncols": st.integers(1, 4), "binary": st.sampled_from([0, 1, "cursor"]), "max_send": st.sampled_from([None, 11, 5000]),
    "window": st.sampled_from([None, None, 3000, 40000]), "err": st.sampled_from([0, 0, 0, 1, 250, 70000]), "caps": st.sampled_from(sorted(CAPS))})


# ----------------------------------------------------------------------------- the stream object
class Sink:
    """Writer double: records, and only accepts what asyncio's transport would."""

    def __init__(self):
        self.out = bytearray()

    def write(self, data):
        self.out += data

    async def drain(self):
        await asyncio.sleep(0)

    def get_extra_info(self, *a, **k):
        return None


def run_stream(case, ctx):
    async def main():
        reader = asyncio.StreamReader()
        sink = Sink()
        s = MysqlStream(reader, sink)
        for ops in case["turns"]:
            # server -> client
            sent = []
            before = len(sink.out)
            seq0 = 0
            for i, (n, drain) in enumerate(ops["out"]):
                p = body(n, i)
                sent.append(p)
                await s.write(p, drain=drain)
                ctx.nontrivial(n == 0 or n >= M or not drain)
                ctx.tag("empty" if n == 0 else "big" if n >= M else "small")
            await s.drain()
            data = bytes(sink.out[before:])
            want = b""
            for p in sent:
                f, seq0 = wire.frame(p, seq0)
                want += f
            check(data == want, lambda: f"payloads of sizes {[len(p) for p in sent]} framed differently: {diff(want, data)}", key="frame")
            # client -> server, continuing the sequence
            data, sent = b"", []
            for i, n in enumerate(ops["in"]):
                p = body(n, i + 99)
                f, seq0 = wire.frame(p, seq0)
                data += f
                sent.append(p)
            prev = 0
            chunks = []
            for x in sorted({c % len(data) for c in ops["cuts"]} - {0} if data else []) + [len(data)]:
                chunks.append(data[prev:x])
                prev = x

            async def feed():
                for ch in chunks:
                    if ch:
                        reader.feed_data(ch)
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
            t = asyncio.get_running_loop().create_task(feed())
            for p in sent:
                got = await asyncio.wait_for(s.read(), 10)
                check(bytes(got) == p, lambda: f"payload of {len(p)} bytes read as {len(got)} bytes", key="unframe")
            await t
            s.reset_seq()
        return True

    loop = sim.SimLoop()
    loop.enter()
    try:
        loop.run_coro(main())
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"MysqlStream raised {type(e).__name__}: {e}", key="stream-exc") from e
    finally:
        loop.leave()


_small = st.one_of(st.integers(0, 12), st.integers(0, 300), st.integers(0, 70000))
stream_cases = st.fixed_dictionaries({"turns": st.lists(st.fixed_dictionaries({
    "out": st.lists(st.tuples(_small, st.booleans()).map(list), max_size=8),
    "in": st.lists(_small, max_size=4), "cuts": st.lists(st.integers(1, 70000), max_size=5)}), min_size=1, max_size=4)})


def enum_stream(tier):
    for n in (0, 1, M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 1) + ((3 * M, 3 * M + 1) if tier != "quick" else ()):
        for pre in ([], [0], [5, 0], [40000]):
            for dr in (True, False):
                yield {"turns": [{"out": [[x, dr] for x in pre + [n, 2]], "in": pre + [n, 3], "cuts": [1, 2, 5, M + 5, M + 6]},
                                 {"out": [[1, True]], "in": [1], "cuts": []}]}
    for k in (250, 255, 256, 257, 300, 520):
        yield {"turns": [{"out": [[i % 3, i % 5 == 0] for i in range(k)], "in": [i % 3 for i in range(k)], "cuts": [3, 9]}] * 2}


# ----------------------------------------------------------------------------- TLS
def run_tls(case, ctx):
    name, capname = case["scen"], case["caps"]
    ref_tx, ref_log, ref_closed = baseline(name, capname)
    with World(app=app(), ssl=tlsclient.server_context()) as w:
        c = w.client(caps=CAPS[capname])
        tls = tlsclient.TlsClient(case["version"])
        hello = tls.start()
        tls.rx_pos = len(c.sock.tx)
        req, nxt = wire.frame(wire.ssl_request(c.caps), c.expect_seq)
        first = req + hello
        if case["max_send"]:
            c.sock.max_send = case["max_send"]

        def deliver(data, cuts):
            prev = 0
            for x in sorted({q % (len(data) + 1) for q in cuts}) + [len(data)]:
                if x > prev:
                    c.sock.rx.append(data[prev:x])
                    prev = x
                    if case["settle"]:
                        w.settle()
        cuts = list(case["cuts"])
        if not case["joined"]:
            cuts.append(len(req))
        ctx.nontrivial(case["joined"] or bool(cuts))
        ctx.tag("joined" if len(req) not in cuts else "split-at-boundary")
        deliver(first, cuts)
        # commands as TLS application data
        learn()
        data, _ = wire.frame(wire.handshake_response(c.caps | wire.SSL, b"u", b"", b"db0", b"mysql_native_password", [(b"k", b"v")]), nxt)
        for p in fix_ids(scenario(name, c.caps)):
            f, _ = wire.frame(p, 0)
            data += f
        for _ in range(60):
            w.settle()
            out = tls.advance(c.sock)
            if tls.done:
                if case["pipeline"]:
                    # last handshake flight, login and commands in one go
                    ctx.tag("pipelined-" + case["version"])
                    deliver(out + tls.encrypt(data), case["cuts2"])
                else:
                    deliver(out, case["cuts2"])
                    w.settle()
                    k = max(1, case["piece"])
                    for i in range(0, len(data), k):
                        c.sock.rx.append(tls.encrypt(data[i:i + k]))
                        if case["settle"]:
                            w.settle()
                break
            if out:
                deliver(out, case["cuts2"])
            elif not w.loop.has_work():
                break
        check(tls.done, lambda: f"the TLS handshake did not complete (closed={c.closed}, server sent {len(c.sock.tx) - tls.rx_pos} more bytes)", key="tls-handshake")
        w.settle()
        got = bytes(tls.plain(c.sock))
        # the reference started at sequence 2 for the login OK; over TLS it is 3
        check(len(got) >= 4 and got[3] == 3, lambda: f"reply to the login over TLS: {got[:40]!r} (closed={c.closed})", key="tls-login")
        got = got[:3] + b"\x02" + got[4:]
        check(got == ref_tx, lambda: f"conversation over TLS differs from the plain one: {diff(ref_tx, got)}", key="tls-conv")
        check(logs(w) == ref_log, lambda: f"application saw {logs(w)}, without TLS {ref_log}", key="tls-app")


def enum_tls(tier):
    # ssl request = 36 bytes, hello follows
    base = {"scen": "tiny", "caps": "full", "version": "1.3", "max_send": None, "cuts": [], "cuts2": [], "joined": True,
            "settle": 0, "pipeline": False, "piece": 100000}
    for v in ("1.2", "1.3"):
        for j in (True, False):
            for settle in (0, 1):
                for pipe in (False, True):
                    for s in SCEN:
                        yield dict(base, version=v, joined=j, settle=settle, pipeline=pipe, scen=s)
        for settle in (0, 1):
            for i in list(range(1, 80)) + [100, 150, 200, 250]:
                yield dict(base, version=v, cuts=[i], settle=settle, pipeline=bool(i % 2))
    for i in range(1, 120, 1 if tier != "quick" else 5):
        for settle in (0, 1):
            yield dict(base, cuts2=[i], settle=settle, pipeline=True)
    yield dict(base, cuts=list(range(1, 600)), cuts2=list(range(1, 900)), settle=1, pipeline=True, scen="queries")
    yield dict(base, cuts=list(range(1, 600)), cuts2=list(range(1, 900)), settle=0, pipeline=True, scen="stmts")


tls_cases = st.fixed_dictionaries({
    "scen": st.sampled_from(SCEN), "caps": st.sampled_from(sorted(CAPS)), "version": st.sampled_from(["1.2", "1.3"]),
    "max_send": st.sampled_from([None, 1, 100]), "cuts": st.lists(st.integers(0, 600), max_size=4),
    "cuts2": st.lists(st.integers(0, 900), max_size=5), "joined": st.booleans(), "settle": st.integers(0, 1),
    "pipeline": st.booleans(), "piece": st.sampled_from([1, 3, 20, 64, 10 ** 6])})


CAMPAIGNS = [
    Campaign("outgoing-sizes", run_outgoing, enum=enum_outgoing, cpu=60),
    Campaign("incoming-sizes", run_incoming, enum=enum_incoming, cpu=60),
    Campaign("stream-sizes", run_stream, enum=enum_stream, cpu=60),
    Campaign("segments", run_segment, enum=enum_segment, exhaustive=True),
    Campaign("tls-cuts", run_tls, enum=enum_tls, cpu=30),
    Campaign("segment-random", run_segment, strategy=lambda: segment_cases, quick=2500, thorough=60000),
    Campaign("incoming-random", run_incoming, strategy=lambda: incoming_cases, quick=800, thorough=20000, cpu=30),
    Campaign("outgoing-random", run_outgoing, strategy=lambda: outgoing_cases, quick=800, thorough=20000, cpu=30),
    Campaign("stream-random", run_stream, strategy=lambda: stream_cases, quick=1500, thorough=40000, cpu=30),
    Campaign("tls-random", run_tls, strategy=lambda: tls_cases, quick=600, thorough=15000, cpu=30),
]
