"""C07 - malformed or hostile packets cannot hang, crash or wedge the server."""
import resource
import struct

from hypothesis import strategies as st

import authlib
import tlsclient
import wire
from runner import Campaign
from world import App, NoResponse, ProtocolError, Violation, World, check

from mysql_mimic.control import LocalControl

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("cases = (capabilities, stage: greeting / authentication / TLS / command phase) x hostile byte streams: every truncation, byte substitution and "
        "inserted absurd length of valid packets, random framed and unframed bytes, wrong sequence numbers, huge counts, in any segmentation; after every "
        "delivery an older connection is served, afterwards a new one; non-trivial = the server answered with ERR or closed the connection, or bytes of an "
        "incomplete packet were left hanging while others were served")
ASSUMPTIONS = ["CPU budget 6 s and memory growth below 400 MB per case of at most a few MB of input", "the cost of executing expensive but well-formed SQL is not part of "
               "packet handling (see KNOWN_FINDINGS for the expressions known to be unbounded)"]
CPU = 8
SETUP_SQL = ["SELECT ? FROM t", "CALL p(?, ?, ?)", "SELECT 1 FROM t"]


class Reg(LocalControl):
    def __init__(self):
        super().__init__(server_id=7)
        self.live = set()

    async def add(self, connection):
        i = await super().add(connection)
        self.live.add(i)
        return i

    async def remove(self, connection_id):
        self.live.discard(connection_id)
        return await super().remove(connection_id)


def app():
    def query(s, e, sql, attrs):
        if "t" in sql:
            return [(i, "r%d" % i) for i in range(5)], ["a", "b"]
        return None
    return App(query=query, schema=lambda s: {"t": {"a": "int", "b": "text"}})


def reassemble(buf, expect):
    """Logical payloads in a client byte stream: yields ("payload", bytes, last_seq) / ("badseq",); returns rest."""
    out = []
    i = 0
    part = b""
    start = 0
    while len(buf) - i >= 4:
        n = buf[i] | buf[i + 1] << 8 | buf[i + 2] << 16
        if buf[i + 3] != expect:
            out.append(("badseq",))
            return out, b"", expect
        if len(buf) - i - 4 < n:
            break
        part += bytes(buf[i + 4:i + 4 + n])
        i += 4 + n
        expect = (expect + 1) & 255
        if n == wire.MAXP:
            continue
        out.append(("payload", part, (expect - 1) & 255))
        part = b""
        start = i
        expect = None
        break
    return out, bytes(buf[start:]), expect


class Attacker:
    """Feeds bytes, models which logical packets the server has seen, checks each answer."""

    def __init__(self, w, c, state="auth"):
        self.w, self.c, self.state = w, c, state
        self.pending = b""
        self.next_seq = 1 if state == "auth" else 0
        self.log = []
        self.errs = 0

    @property
    def closed(self):
        return self.c.closed

    def feed(self, data):
        c = self.c
        c.deliver(data)
        self.pending += data
        self.w.settle()
        while True:
            if self.state in ("lax", "dead", "quit"):
                break
            got, rest, _ = reassemble(self.pending, self.next_seq)
            if not got:
                break
            self.pending = rest
            if got[0][0] == "badseq":
                self.state = "lax"
                break
            self.answer(got[0][1], got[0][2])
        if self.state == "lax":
            self.lax()
        elif self.state in ("quit", "dead"):
            check(c.closed, lambda: f"the connection stays open after {'COM_QUIT' if self.state == 'quit' else 'failed authentication'}", key="still-open")
        elif not c.closed:
            check(c.leftover() == 0, lambda: f"unsolicited bytes {bytes(c.plain()[c.pos:c.pos+60])!r} (client sent {data[:60]!r})", key="unsolicited")
        if c.closed:
            self.state = "closed"

    def lax(self):
        """After a wrong sequence number: at most well-formed ERR packets, then closed (or in step)."""
        c = self.c
        n = 0
        while c.leftover() >= 4:
            c.expect_seq = c.plain()[c.pos + 3]
            p = c._next_payload()
            check(p is not None, "truncated packet after a wrong sequence number")
            check(p[:1] == b"\xff", lambda: f"a wrong sequence number was answered with {p[:40]!r}", key="badseq-answer")
            wire.ERR(p, early=True)
            n += 1
        check(n <= 1, f"{n} ERR packets after one wrong sequence number", key="badseq-many")
        self.errs += n
        if not c.closed:
            self.state, self.pending, self.next_seq = "cmd?", b"", 0

    def answer(self, payload, last_seq):
        c = self.c
        c.expect_seq = (last_seq + 1) & 255
        if self.state in ("auth", "reauth"):
            cls = "auth"
        elif not payload:
            cls = "unsupported"
        else:
            cls = wire.command_class(payload)
        if cls == "quit":
            self.state = "quit"
            return
        ps = wire.Parser(cls, c.caps)
        while not ps.done:
            p = c._next_payload()
            if p is None:
                break
            ps.feed(p)
        self.log.append((cls, ps.r.kind))
        if not ps.done:
            check(c.closed, lambda: f"no complete answer to packet {payload[:80].hex()} ({len(payload)} bytes, {cls}, state {ps.state}) and the connection is still open", key="no-answer")
            self.state = "closed"
            return
        if ps.r.kind == "err":
            self.errs += 1
        if cls == "auth":
            if ps.r.kind == "ok":
                self.state, self.next_seq = "cmd", 0
            elif ps.r.kind == "err":
                # a change-user whose packet cannot be parsed may leave the connection usable
                if self.state == "cmd" and not c.closed:
                    self.next_seq = 0
                else:
                    self.state = "dead"
            else:
                self.state, self.next_seq = "reauth", c.expect_seq
        else:
            self.next_seq = 0

    def in_step(self):
        """If the connection is in the command phase with no partial packet, it must be in step."""
        if self.state in ("cmd", "cmd?") and not self.c.closed and not self.pending:
            n = len(self.log)
            self.state = "cmd"
            self.feed(wire.frame(wire.PING, 0)[0])
            check(self.log[n:] == [("ok", "ok")], lambda: f"the connection is out of step: ping was answered {self.log[n:]}", key="out-of-step")


class Arena:
    """World with a canary connection; checks the other clients after every delivery."""

    def __init__(self, ctx, user=None, **kw):
        self.user = user
        self.reg = Reg()
        self.w = World(app=app(), control=self.reg, **kw)
        self.ctx = ctx
        self.rss = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss

    def __enter__(self):
        self.canary = self.w.login(user=self.user or b"canary")
        return self

    def __exit__(self, t, v, tb):
        self.w.shutdown()

    def serve(self, c):
        r = c.query("SELECT a FROM t")
        check(r.kind == "rows" and len(r.rows) == 5, lambda: f"another connection's query was answered with {r!r}", key="canary")

    def live(self):
        return len(self.reg.live)

    def finish(self, attackers):
        self.serve(self.canary)
        n = self.w.login(user=self.user or b"late")
        self.serve(n)
        for a in attackers:
            if a.errs or a.c.closed or a.pending:
                self.ctx.nontrivial()
            a.c.sock.rx_eof = True
        self.w.settle()
        for a in attackers:
            check(a.c.sock.closed, "the offending connection's socket is not closed after it ended", key="leak-socket")
        check(self.live() == 2, lambda: f"{self.live()} connections registered where 2 are alive", key="leak-registry")
        for s in self.w.sessions:
            alive = s in (self.w.sessions[0], self.w.sessions[-1])
            check(s.n_close == (0 if alive else s.n_init), lambda: f"session of {s.username!r}: initialised {s.n_init}, closed {s.n_close} times", key="session-close")
        self.serve(self.canary)
        self.serve(n)
        grown = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - self.rss
        check(grown < 400_000, lambda: f"memory grew by {grown >> 10} MB", key="memory")


CAPS = [wire.FULL_CAPS, wire.BASE_CAPS, wire.FULL_CAPS & ~wire.DEPRECATE_EOF, wire.BASE_CAPS | wire.QUERY_ATTRIBUTES | wire.DEPRECATE_EOF,
        wire.FULL_CAPS & ~wire.LENENC_AUTH]
VALS = [0, 1, 0x7F, 0x80, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]
BOMBS = [b"\xfb", b"\xfc\xff\xff", b"\xfd\xff\xff\xff", b"\xfe" + b"\xff" * 8, b"\xfe" + struct.pack("<Q", 1 << 63), b"\xfe" + struct.pack("<Q", 1 << 40),
         b"\xfe\0\0\0\0\0\0\0\0", b"\xff" * 9, b"\0" * 9]


def mutate(p, m):
    k, pos, v = m
    if k == "cut":
        return p[:pos]
    if k == "set":
        return p[:pos] + bytes([VALS[v] if v < len(VALS) else p[pos] ^ 0x80]) + p[pos + 1:]
    if k == "ins":
        return p[:pos] + BOMBS[v] + p[pos:]
    if k == "rep":  # replace the rest
        return p[:pos] + BOMBS[v]
    if k == "ext":
        return p + bytes([v]) * pos
    if k == "del":
        return p[:pos] + p[pos + 1 + v:]
    return p


def mutations(n, lo=0, dense=True):
    for i in range(lo, n):
        yield ["cut", i, 0]
    for i in range(lo, n):
        for v in range(len(VALS) + 1):
            yield ["set", i, v]
    for i in range(lo, n + 1):
        for v in range(len(BOMBS)):
            yield ["rep" if (i + v) % 2 else "ins", i, v]
    for i in range(lo, n):
        yield ["del", i, i % 3]
    for k in (1, 2, 9, 300):
        for v in (0, 65, 255):
            yield ["ext", k, v]


# ----------------------------------------------------------------- handshake response
def handshakes():
    out = {}
    for i, caps in enumerate(CAPS):
        out[f"plain{i}"] = wire.handshake_response(caps, b"u", b"", b"db", b"mysql_native_password", [(b"k", b"v"), (b"_pid", b"12")])
    out["switch"] = wire.handshake_response(wire.FULL_CAPS, b"carol", b"", b"db", b"mysql_native_password", [])
    out["auth"] = wire.handshake_response(wire.FULL_CAPS, b"alice", bytes(range(20)), b"", b"mysql_native_password", [(b"a" * 260, b"b")])
    out["zstd"] = wire.handshake_response(wire.FULL_CAPS | wire.ZSTD, b"u", b"", b"", b"mysql_native_password", [])
    out["ssl"] = wire.ssl_request(wire.FULL_CAPS)
    out["old"] = struct.pack("<HB", 1, 0) + b"root\0pw\0"
    return out


def enum_handshake(tier):
    for name, p in sorted(handshakes().items()):
        if name.startswith("plain") and name not in ("plain0", "plain1", "plain4") and tier == "quick":
            continue
        for j, m in enumerate(mutations(len(p))):
            if tier == "quick" and m[0] in ("ins", "rep", "del") and j % 3:
                continue
            if tier == "quick" and m[0] == "set" and 9 <= m[1] < 31 and j % 11:
                continue
            yield {"base": name, "m": m}


def provider(kind):
    if kind == "auth":
        return authlib.make_provider(["native", "clear", "multi", "any", "nologin"])
    return None


def run_handshake(case, ctx):
    base = handshakes()[case["base"]]
    p = mutate(base, case["m"])
    with Arena(ctx, provider=None) as ar:
        w = ar.w
        c = w.client(caps=wire.FULL_CAPS)
        a = Attacker(w, c)
        c.caps = (struct.unpack("<I", p[:4])[0] if len(p) >= 4 else 0) & c.hs.caps
        protocol41 = c.caps & wire.PROTOCOL_41
        if not protocol41:
            # no model of the 4.0 packets: only the neutral part applies
            c.deliver(wire.frame(p, 1)[0])
            w.settle()
            c.pos = len(c.plain())
            a.state = "closed"
            a.errs = 1
        else:
            a.feed(wire.frame(p, 1)[0])
            if case["m"][0] == "cut" and not (case["base"] == "zstd" and case["m"][1] == len(base) - 1):
                check(a.state != "cmd", lambda: f"a truncated handshake response ({p.hex()}) was accepted", key="truncated-login")
            ar.serve(ar.canary)
            if a.state == "reauth":
                a.feed(wire.frame(b"\xff\x00" * 30, a.next_seq)[0])
            a.in_step()
        ctx.tag(a.state)
        ar.finish([a])


# ----------------------------------------------------------------- command phase
def commands(caps, ids):
    s1, s2, s3 = ids
    P, L = wire.P, wire.lenstr
    at = [P(wire.T_VAR_STRING, L(b"val"), name=b"n1"), P(wire.T_LONGLONG, struct.pack("<q", 5), name=b"n2"), P(wire.T_DOUBLE, None, name=b"n3")]
    three = [P(wire.T_VAR_STRING, L(b"str")), P(wire.T_LONG, struct.pack("<i", 5)), P(wire.T_DOUBLE, struct.pack("<d", 2.5))]
    d = {
        "query": wire.com_query(b"SELECT a FROM t", caps),
        "query-attrs": wire.com_query(b"SELECT a FROM t", caps, at),
        "prepare": wire.com_stmt_prepare(b"SELECT ?, '?' FROM t WHERE a = ?"),
        "execute": wire.com_stmt_execute(s1, caps, [P(wire.T_VAR_STRING, L(b"abc"))]),
        "execute-cursor": wire.com_stmt_execute(s1, caps, [P(wire.T_TINY, b"\5")], cursor=1),
        "execute3": wire.com_stmt_execute(s2, caps, three),
        "execute-attrs": wire.com_stmt_execute(s2, caps, three, at),
        "execute0": wire.com_stmt_execute(s3, caps, []),
        "execute0-attrs": wire.com_stmt_execute(s3, caps, [], at),
        "long": wire.com_stmt_send_long_data(s1, 0, b"chunk"),
        "fetch": wire.com_stmt_fetch(s1, 2),
        "stmt-reset": wire.com_stmt_reset(s1),
        "stmt-close": wire.com_stmt_close(s3 + 1000),
        "init-db": wire.com_init_db(b"dbx"),
        "field-list": wire.com_field_list(b"t", b"%"),
        "change-user": wire.change_user(caps, b"u2", b"", b"db2", 45, b"mysql_native_password", [(b"k", b"v")]),
        "change-user-short": wire.change_user(caps, b"u2", b"", b"db2"),
        "ping": wire.PING, "debug": wire.DEBUG, "reset": wire.RESET_CONNECTION, "quit": wire.QUIT,
    }
    return d


NAMES = sorted(commands(wire.FULL_CAPS, (0, 1, 2)))
# proper prefixes of these are malformed from the second byte on
ALL_MANDATORY = {"execute", "execute-cursor", "execute3", "execute-attrs", "fetch", "stmt-reset", "execute0-attrs"}


def setup(w, c):
    ids = []
    for sql in SETUP_SQL:
        ids.append(c.prepare(sql).stmt_id)
    r = c.cmd(wire.com_stmt_execute(ids[0], c.caps, [wire.P(wire.T_TINY, b"\1")], cursor=1))
    check(r.kind == "rows" and r.cursor, lambda: f"opening a cursor was answered with {r!r}")
    return ids


def enum_commands(tier):
    for ci, caps in enumerate(CAPS[:2] if tier == "quick" else CAPS):
        base = commands(caps, (0, 1, 2))
        for name in NAMES:
            ms = list(mutations(len(base[name]), 0))
            if tier == "quick":
                ms = [m for j, m in enumerate(ms) if m[0] == "cut" or (j + ci) % 3 == 0 or len(base[name]) < 12]
            for k in range(0, len(ms), 12):
                yield {"base": name, "caps": ci, "muts": ms[k:k + 12]}
            for v in range(256) if name == "ping" else ():
                yield {"base": name, "caps": ci, "muts": [["cmd", v, 0]]}


def run_commands(case, ctx):
    caps = CAPS[case["caps"]]
    with Arena(ctx) as ar:
        w = ar.w
        atts = []
        a = None
        for m in case["muts"]:
            if a is None or a.state != "cmd" or a.c.closed:
                c = w.login(caps=caps)
                ids = setup(w, c)
                a = Attacker(w, c, "cmd")
                atts.append(a)
                base = commands(c.caps, ids)
            p = bytes([m[1]]) if m[0] == "cmd" else mutate(base[case["base"]], m)
            before = len(w.events)
            n = len(a.log)
            a.feed(wire.frame(p, 0)[0])
            if a.state == "reauth":
                a.feed(wire.frame(b"x" * 21, a.next_seq)[0])
            strict = m[0] == "cut" and 0 < m[1] and (case["base"] in ALL_MANDATORY or (case["base"] == "query-attrs" and m[1] < len(p) and False))
            if strict:
                check(not any(e[1] == "query" for e in w.events[before:]), lambda: f"truncated {case['base']} packet {p.hex()} was executed", key="truncated-exec")
                check(a.c.closed or a.log[n][1] == "err", lambda: f"truncated {case['base']} packet {p.hex()} was answered {a.log[n:]}", key="truncated-ok")
            if m[0] == "cmd" and m[1] not in wire.SUPPORTED:
                check(a.c.closed or a.log[n][1] == "err", lambda: f"unknown command {m[1]:#x} was answered {a.log[n:]}", key="unknown-command")
            a.in_step()
            ctx.tag(a.log[n][1] if len(a.log) > n else "nothing")
        ar.finish(atts)


# ----------------------------------------------------------------- arbitrary streams
def chunked(data, cuts):
    ps = sorted({x % (len(data) + 1) for x in cuts})
    out, prev = [], 0
    for x in ps + [len(data)]:
        out.append(data[prev:x])
        prev = x
    return [x for x in out if x]


@st.composite
def piece(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        return ["raw", draw(st.binary(max_size=40)).hex()]
    if k == 1:  # header lies about the length
        return ["hdr", draw(st.sampled_from([0, 1, 2, 5, 100, 0xFFFFFE, 0xFFFFFF])), draw(st.sampled_from([None, 0, 1, 255])), draw(st.binary(max_size=20)).hex()]
    if k == 2:
        return ["seq", draw(st.integers(0, 255)), draw(st.binary(max_size=20)).hex()]
    if k == 3:
        return ["cmd", draw(st.integers(0, 40)), draw(st.binary(max_size=40)).hex()]
    if k == 4:
        return ["empty"]
    if k == 5:
        return ["good", draw(st.sampled_from(NAMES))]
    base = draw(st.sampled_from(NAMES))
    return ["mut", base, draw(st.lists(st.tuples(st.sampled_from(["cut", "set", "ins", "rep", "del", "ext"]), st.integers(0, 60), st.integers(0, 8)).map(list), min_size=1, max_size=3))]


@st.composite
def stream_cases(draw):
    return {"caps": draw(st.integers(0, len(CAPS) - 1)), "pre": draw(st.booleans()), "pieces": draw(st.lists(piece(), min_size=1, max_size=8)),
            "cuts": draw(st.lists(st.integers(0, 400), max_size=5)), "one": draw(st.booleans()), "two": draw(st.booleans())}


def build_piece(pc, base, seq):
    k = pc[0]
    if k == "raw":
        return bytes.fromhex(pc[1])
    if k == "hdr":
        return struct.pack("<I", pc[1])[:3] + bytes([seq if pc[2] is None else pc[2]]) + bytes.fromhex(pc[3])
    if k == "seq":
        return wire.frame(bytes.fromhex(pc[2]), pc[1])[0]
    if k == "cmd":
        return wire.frame(bytes([pc[1]]) + bytes.fromhex(pc[2]), seq)[0]
    if k == "empty":
        return wire.frame(b"", seq)[0]
    if k == "good":
        return wire.frame(base[pc[1]], seq)[0]
    p = base[pc[1]]
    for m in pc[2]:
        kk, pos, v = m
        pos %= max(1, len(p))
        if kk in ("set", "del") and not p:
            continue
        p = mutate(p, [kk, pos, v])
    return wire.frame(p, seq)[0]


def run_streams(case, ctx):
    caps = CAPS[case["caps"]]
    with Arena(ctx) as ar:
        w = ar.w
        if case["pre"]:
            c = w.client(caps=caps)
            a = Attacker(w, c)
            base = dict.fromkeys(NAMES, handshakes()["plain%d" % case["caps"]])
        else:
            c = w.login(caps=caps)
            base = commands(c.caps, setup(w, c))
            a = Attacker(w, c, "cmd")
        atts = [a]
        if case["two"]:
            # another attacker sits in the middle of a packet all the while
            c2 = w.client(caps=caps)
            b = Attacker(w, c2)
            b.feed(b"\x20\0\0\1abc")
            atts.append(b)
        if case["one"]:
            # everything at once, cut arbitrarily
            seq = a.next_seq
            data = b""
            for pc in case["pieces"]:
                data += build_piece(pc, base, seq)
                seq = 0
            parts = chunked(data, case["cuts"])
        else:
            parts = None
        i = 0
        while not a.c.closed:
            if parts is not None:
                if i >= len(parts):
                    break
                data = parts[i]
            else:
                if i >= len(case["pieces"]):
                    break
                data = build_piece(case["pieces"][i], base, a.next_seq or 0)
            i += 1
            if case["pre"] and a.state == "auth":
                pend = a.pending + data
                got, _, _ = reassemble(pend, a.next_seq)
                if got and got[0][0] == "payload":
                    p = got[0][1]
                    a.c.caps = (struct.unpack("<I", p[:4])[0] if len(p) >= 4 else 0) & a.c.hs.caps
                    if not a.c.caps & wire.PROTOCOL_41:
                        a.c.deliver(data)
                        w.settle()
                        a.state = "closed"
                        a.errs = 1
                        break
            a.feed(data)
            if a.state == "cmd?":
                a.in_step()
            if i <= 2:
                ar.serve(ar.canary)
        if parts is None:
            a.in_step()
        ctx.tag(a.state)
        ar.finish(atts)


# ----------------------------------------------------------------- authentication exchange, TLS
AUTHRESP = ["", "00", "ff", "01", "aa" * 19, "aa" * 20, "aa" * 21, "00" * 20, "41" * 300, "c3", "ff" * 5 + "00", "00" * 300, "fe", "0a" * 70000]


def enum_auth(tier):
    for user in ("carol", "rita", "alice", "mara", "andy", "dave", "gina", "bob", "nobody"):
        for plugin in ("mysql_native_password", "mysql_clear_password", "zzz", "", "multi_client"):
            for r in AUTHRESP if tier != "quick" or user != "nobody" else AUTHRESP[:2]:
                yield {"user": user, "plugin": plugin, "resp": [r, r]}
            yield {"user": user, "plugin": plugin, "resp": ["badseq"]}
            yield {"user": user, "plugin": plugin, "resp": ["eof"]}


def run_auth(case, ctx):
    with Arena(ctx, user=b"bob", provider=authlib.make_provider(["native", "clear", "multi", "any", "nologin"])) as ar:
        w = ar.w
        c = w.client(caps=wire.FULL_CAPS)
        a = Attacker(w, c)
        a.feed(wire.frame(wire.handshake_response(c.caps, case["user"].encode(), b"", b"", case["plugin"].encode(), []), 1)[0])
        for r in case["resp"]:
            if a.c.closed or a.state != "reauth":
                break
            if r == "badseq":
                a.feed(wire.frame(b"x" * 20, (a.next_seq + 7) & 255)[0])
            elif r == "eof":
                c.sock.rx_eof = True
                w.settle()
                break
            else:
                a.feed(wire.frame(bytes.fromhex(r), a.next_seq)[0])
            ar.serve(ar.canary)
        a.in_step()
        ctx.tag(a.state)
        ar.finish([a])


TLSGARBAGE = ["16030100050100000100", "00" * 10, "ff" * 600, "1603010200" + "01" * 512, "", "15030100020246", "05000002", "474554202f20485454502f312e310d0a0d0a", "16", "160301ffff" + "00" * 20]


def enum_tls(tier):
    for g in TLSGARBAGE:
        for joined in (True, False):
            for end in ("eof", "reset", "more", "timeout"):
                yield {"g": g, "joined": joined, "end": end}


def run_tls(case, ctx):
    with Arena(ctx, ssl=tlsclient.server_context()) as ar:
        w = ar.w
        c = w.client(caps=wire.FULL_CAPS | wire.SSL)
        a = Attacker(w, c)
        a.state = "tls"
        a.errs = 1
        data = wire.frame(wire.ssl_request(wire.FULL_CAPS), 1)[0]
        g = bytes.fromhex(case["g"])
        if case["joined"]:
            c.deliver(data + g)
        else:
            c.deliver(data)
            w.settle()
            c.deliver(g)
        w.settle()
        ar.serve(ar.canary)
        if case["end"] == "more":
            c.deliver(b"\x17\x03\x03\x00\x05hello" * 3)
            w.settle()
        elif case["end"] == "reset":
            c.reset_conn()
        elif case["end"] == "timeout":
            w.loop.now += 3600
            w.settle()
        ar.finish([a])


# ----------------------------------------------------------------- big inputs: work must stay proportionate
def big_payloads(caps, ids):
    P, L = wire.P, wire.lenstr
    M = 1_000_000
    qa = caps & wire.QUERY_ATTRIBUTES
    s1, s2, s3 = ids
    d = {
        "query-text": wire.com_query(b"SELECT '" + b"x" * M + b"' FROM t", caps),
        "query-garbage": wire.com_query(b"\xff\xfe" * 1000, caps),
        "query-nul": wire.com_query(b"\0" * 100_000, caps),
        "query-space": wire.com_query(b" " * M, caps),
        "query-semicolons": wire.com_query(b";" * 20_000, caps),
        "query-quotes": wire.com_query(b"'" * 99_999, caps),
        "query-paren": wire.com_query(b"SELECT " + b"(" * 20_000, caps),
        "query-paren-closed": wire.com_query(b"SELECT " + b"(" * 3000 + b"1" + b")" * 3000, caps),
        "query-not": wire.com_query(b"SELECT " + b"NOT " * 5000 + b"1 FROM t", caps),
        "query-comment": wire.com_query(b"/*" * 50_000, caps),
        "query-backslash": wire.com_query(b"SELECT '" + b"\\" * 100_001, caps),
        "prepare-q": wire.com_stmt_prepare(b"?" * 60_000),
        "prepare-q-many": wire.com_stmt_prepare(b"?," * 70_000),
        "prepare-quote": wire.com_stmt_prepare(b"'" + b"\\'" * 200_000),
        "prepare-open": wire.com_stmt_prepare(b"/* ' " * 100_000),
        "prepare-open2": wire.com_stmt_prepare(b"'\"`" * 100_000 + b"?"),
        "prepare-dashes": wire.com_stmt_prepare(b"--" * 200_000),
        "prepare-back": wire.com_stmt_prepare(b"'" + b"\\" * 300_000),
        "long-1M": wire.com_stmt_send_long_data(s1, 0, b"y" * M),
        "long-param": wire.com_stmt_send_long_data(s1, 65535, b"y"),
        "init-db": wire.com_init_db(b"d" * M),
        "field-list": wire.com_field_list(b"t" * 100_000, b"%" * 100),
        "field-list-unterminated": b"\x04" + b"t" * M,
        "change-user-unterminated": b"\x11" + b"u" * M,
        "change-user-attrs": wire.change_user(caps, b"u", b"", b"", 45, b"mysql_native_password", [(b"k%d" % i, b"v") for i in range(30_000)]),
        "fetch-all": wire.com_stmt_fetch(s1, 0xFFFFFFFF),
        "execute-nulls": wire.com_stmt_execute(s3, caps, [], [P(wire.T_NULL, None, name=b"x%d" % i) for i in range(30_000)]) if qa else wire.com_stmt_execute(s3, caps, []),
        "execute-count": b"\x17" + struct.pack("<IBI", s2, 8, 1) + b"\xfe" + struct.pack("<Q", 1 << 33) + b"\xff" * M,
        "query-count": b"\x03" + b"\xfe" + struct.pack("<Q", 8 * M) + b"\1" + b"\xff" * M + b"\1",
        "query-count-64": b"\x03" + b"\xfe" + b"\xff" * 8 + b"\1" + b"\xff" * 100,
        "unknown-1M": b"\x55" * M,
        "ping-1M": b"\x0e" * M,
    }
    return d


BIG = sorted(big_payloads(wire.FULL_CAPS, (0, 1, 2)))
BIGHS = ["user", "attrs", "attrs-lie", "plugin", "auth", "db", "attrs-many"]


def enum_big(tier):
    for ci in (0, 1):
        for n in BIG:
            yield {"caps": ci, "name": n}
    for n in BIGHS:
        yield {"hs": n}


def run_big(case, ctx):
    M = 1_000_000
    with Arena(ctx) as ar:
        w = ar.w
        if "hs" in case:
            caps = wire.FULL_CAPS
            c = w.client(caps=caps)
            a = Attacker(w, c)
            h = lambda **k: wire.handshake_response(caps, **{**dict(user=b"u", auth=b"", db=b"", plugin=b"mysql_native_password", attrs=[]), **k})
            p = {"user": h(user=b"u" * M), "plugin": h(plugin=b"p" * M), "auth": h(auth=b"a" * M), "db": h(db=b"d" * M),
                 "attrs": h(attrs=[(b"k" * M, b"v" * M)]), "attrs-many": h(attrs=[(b"%d" % i, b"") for i in range(60_000)]),
                 "attrs-lie": h()[:-1] + b"\xfe" + struct.pack("<Q", 1 << 60) + b"\0\0" * 300_000}[case["hs"]]
            a.feed(wire.frame(p, 1)[0])
            if a.state == "reauth":
                a.feed(wire.frame(b"z" * M, a.next_seq)[0])
        else:
            c = w.login(caps=CAPS[case["caps"]])
            a = Attacker(w, c, "cmd")
            p = big_payloads(c.caps, setup(w, c))[case["name"]]
            a.feed(wire.frame(p, 0)[0])
            ctx.tag(str(a.log[-1:]))
        a.in_step()
        ctx.nontrivial()
        ar.finish([a])


# ----------------------------------------------------------------- partial packets left hanging, many at once
@st.composite
def hang_cases(draw):
    return {"at": [draw(st.tuples(st.booleans(), st.sampled_from(NAMES), st.integers(0, 70), st.sampled_from(["stay", "eof", "reset"])).map(list)) for _ in range(draw(st.integers(1, 6)))],
            "caps": draw(st.integers(0, len(CAPS) - 1))}


def run_hang(case, ctx):
    caps = CAPS[case["caps"]]
    with Arena(ctx) as ar:
        w = ar.w
        atts = []
        for pre, name, cut, end in case["at"]:
            if pre:
                c = w.client(caps=caps)
                a = Attacker(w, c)
                data = wire.frame(handshakes()["plain%d" % case["caps"]], 1)[0]
            else:
                c = w.login(caps=caps)
                ids = setup(w, c)
                a = Attacker(w, c, "cmd")
                data = wire.frame(commands(c.caps, ids)[name], 0)[0]
            c.caps = caps & c.hs.caps
            a.feed(data[:cut % len(data)])
            if end == "eof":
                c.sock.rx_eof = True
            elif end == "reset":
                c.reset_conn()
            w.settle()
            atts.append(a)
            ar.serve(ar.canary)
        ar.finish(atts)


# ----------------------------------------------------------------- expensive expressions in small packets
HEAVY = {
    "heavy-pow": "SELECT POW(9, 99999999)", "heavy-like": "SELECT '" + "a" * 40 + "' LIKE '" + "%a" * 25 + "b'",
    "heavy-show-like": "SHOW VARIABLES LIKE '" + "%e" * 30 + "#'", "heavy-tables-like": "SHOW TABLES LIKE '" + "%a" * 30 + "#'",
    "heavy-shift": "SELECT 1 << 10000000000",
    # strings that Python would repeat or take for a format, numbers of very many digits
    "heavy-mul": "SELECT 'abcdefgh' * 100000000", "heavy-lmul": "SELECT 100000000 * 'abcdefgh'",
    "heavy-mod": "SELECT '%0300000000d' % 5", "heavy-mod2": "SELECT MOD('%300000000d', 5)",
    "heavy-round": "SELECT ROUND(7, -100000000)", "heavy-round2": "SELECT ROUND(7.5, -100000000), ROUND(7.5, 1000000000000)",
    "heavy-repeat": "SELECT REPEAT('abcdefgh', 100000000)", "heavy-pad": "SELECT LPAD('a', 800000000, 'b')", "heavy-space": "SELECT SPACE(800000000)",
    "heavy-right-shift": "SELECT 1 >> 10000000000, 1 << -10000000000", "heavy-interval": "SELECT NOW() + INTERVAL 99999999999 YEAR",
    "heavy-factors": "SELECT " + " * ".join(["99999999999999999999"] * 200), "heavy-power": "SELECT POWER(POWER(9, 999999), 999999)",
    "heavy-regexp": "SELECT '" + "a" * 40 + "' REGEXP '(a+)+b'", "heavy-format": "SELECT DATE_FORMAT(NOW(), '%0300000000d')",
}


def enum_heavy(tier):
    for n in sorted(HEAVY):
        yield {"q": n}


def run_heavy(case, ctx):
    import resource
    import sim
    peak = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    with Arena(ctx) as ar:
        w = ar.w
        w.app.hooks["schema"] = lambda s: {"d": {"a" * 60: {"x": "int"}}}
        c = w.login(db=b"d")
        a = Attacker(w, c, "cmd")
        try:
            with sim.cpu_guard(4):
                a.feed(wire.frame(wire.com_query(HEAVY[case["q"]].encode(), c.caps), 0)[0])
            ar.finish([a])
        except sim.CpuTimeout:
            raise Violation(f"{HEAVY[case['q']][:60]!r} keeps the event loop busy", key=case["q"])
        except Violation as v:
            raise Violation(v.msg, key=case["q"])
        grown = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - peak
        if grown > 300_000:
            raise Violation(f"{HEAVY[case['q']][:60]!r} makes the server use {grown >> 10} MB more", key=case["q"])
        ctx.nontrivial()


CAMPAIGNS = [
    Campaign("handshake", run_handshake, enum=enum_handshake, cpu=CPU),
    Campaign("auth", run_auth, enum=enum_auth, cpu=CPU),
    Campaign("commands", run_commands, enum=enum_commands, cpu=CPU),
    Campaign("tls", run_tls, enum=enum_tls, cpu=CPU),
    Campaign("big", run_big, enum=enum_big, cpu=CPU),
    Campaign("streams", run_streams, strategy=stream_cases, quick=2500, thorough=80000, cpu=CPU),
    Campaign("hanging", run_hang, strategy=hang_cases, quick=300, thorough=6000, cpu=CPU),
    Campaign("heavy-sql", run_heavy, enum=enum_heavy, cpu=20),
]
