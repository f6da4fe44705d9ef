"""C08 - connections do not interfere: each behaves as if it were alone."""
import datetime

from hypothesis import strategies as st

import pristine
import wire
from runner import Campaign
from world import App, AppSession, NoResponse, Violation, World, check

from mysql_mimic import context
from mysql_mimic.variables import GlobalVariables, SessionVariables

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("cases = 2..4 connections, each with a program of up to 9 commands (variables, databases, users, character sets, prepared statements, long data, cursors, "
        "SET_VAR hints, malformed packets, disconnects, failed logins), and a schedule interleaving their sub-steps (first bytes of a packet / the rest / release of the "
        "suspended application / collecting the response) down to single event-loop iterations; each connection's responses and application events must equal those of "
        "a run of its program alone; non-trivial = commands of two connections overlapped in time, or (sequential campaign) an earlier connection issued a state-changing command")
ASSUMPTIONS = ["the application keeps no state across sessions", "connection ids and nonces differ between runs and are not compared", "KILL is C09's subject"]

STATELESS = ("get", "text", "user", "show", "attrs", "misc", "now")
USER_FNS = ["USER()", "CURRENT_USER()", "@@external_user", "CURRENT_USER", "SESSION_USER()", "SYSTEM_USER()", "user()", "Session_User()"]
DB_FNS = ["DATABASE()", "SCHEMA()", "schema()", "database()"]
NOW_FNS = ["NOW()", "LOCALTIME", "LOCALTIME()", "LOCALTIMESTAMP", "LOCALTIMESTAMP()", "CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP()", "CURTIME()", "CURRENT_TIME", "CURRENT_TIME()", "now()"]
VARS = [b"sql_mode", b"wait_timeout", b"autocommit", b"init_connect", b"time_zone", b"max_execution_time", b"transaction_isolation", b"collation_connection"]
VALUES = [[b"'ANSI'", b"'X1'", b"'Y2'"], [b"1", b"77", b"28800"], [b"0", b"1"], [b"'a'", b"'b'"], [b"'+01:00'", b"'-05:30'", b"'UTC'"], [b"5", b"6"],
          [b"'SERIALIZABLE'", b"'READ-COMMITTED'"], [b"'utf8mb4_bin'", b"'utf8mb4_general_ci'"]]
NAMES = [b"latin1", b"utf8mb4", b"cp1251", b"utf8", b"greek"]
TEXTS = [b"SELECT '\xe9'", b"SELECT '\xc3\xa9'", b"SELECT '\xd0\x96' AS `\xd0\x96`", b"SELECT a FROM t WHERE x = '\xe1'", b"SELECT a FROM t WHERE x = '\xc3\xa1\xc3\xa9'",
         # texts which differ in their case or their blanks only
         b"SELECT a FROM t WHERE x = 'AbC'", b"SELECT a FROM t WHERE x = 'aBc'", b"SELECT 'Q  q'", b"SELECT 'Q q'", b"select 'q  Q'", b"SELECT 'q' AS Q", b"SELECT 'q' AS q"]
SQLS = [b"SELECT ?", b"INSERT INTO t VALUES (?, ?)", b"SELECT a FROM t WHERE x = ?", b"SELECT a FROM t", b"SELECT a FROM t WHERE '?' = ?"]
USERS = [b"u0", b"u1", b"u2", b"u3"]
DBS = [b"d0", b"d1", b"d2", b"information_schema"]
CAPS = [wire.FULL_CAPS, wire.BASE_CAPS, wire.FULL_CAPS & ~wire.DEPRECATE_EOF, wire.FULL_CAPS & ~wire.QUERY_ATTRIBUTES]
CHARSETS = [45, 8, 51, 33]


class S(AppSession):
    shared = None

    def __init__(self, world, shared):
        super().__init__(world)
        if shared is not None:
            self.variables = SessionVariables(shared)


def make_app(world_ref):
    def state(s):
        v = s.variables
        return [s.username, s.database, v.get("sql_mode"), str(v.get("wait_timeout")), str(v.get("character_set_client")), str(v.get("character_set_results")), str(v.get("external_user"))]

    async def query(s, e, sql, attrs):
        w = world_ref[0]
        cid = s.connection.connection_id
        check(context.connection_id.get() == cid, lambda: f"context.connection_id is {context.connection_id.get()} while connection {cid} is served", key="context")
        rows = [state(s) + [str(i), repr(sorted(attrs.items()))] for i in range(4)]
        cols = ["user", "db", "mode", "wt", "cc", "cr", "eu", "i", "attrs"]
        if "/*g" in sql:
            name = sql.split("/*g", 1)[1].split("*/")[0]
            kind, name = name[0], name[1:]
            g = w.gates.setdefault(name, w.gate(name))
            if kind == "a":
                await g.wait()
                check(context.connection_id.get() == cid, "context.connection_id changed during a query", key="context")
                return [state(s) + [str(i), repr(sorted(attrs.items()))] for i in range(4)], cols
            if kind == "f":
                await g.wait()
                raise RuntimeError(f"failure of {s.username}")

            async def gen():
                yield rows[0]
                yield rows[1]
                await g.wait()
                yield state(s) + ["2", "late"]
                yield rows[3]
            return gen(), cols
        return rows, cols
    return App(query=query, schema=lambda s: {str(s.username): {"t": {"c_" + str(s.username): "int"}}, "d0": {"t": {"z": "int"}}})


# ----------------------------------------------------------------- operations
@st.composite
def op(draw, ci):
    k = draw(st.integers(0, 27))
    if k <= 1:
        i = draw(st.integers(0, len(VARS) - 1))
        return ["set", i, draw(st.integers(0, len(VALUES[i]) - 1))]
    if k <= 3:
        return ["get", draw(st.integers(0, len(VARS) - 1))]
    if k <= 5:
        return ["names", draw(st.integers(0, len(NAMES) - 1)), draw(st.integers(0, 2))]
    if k <= 7:
        return ["text", draw(st.integers(0, len(TEXTS) - 1))]
    if k <= 9:
        return ["db", draw(st.sampled_from(["use", "init", "select"])), draw(st.integers(0, len(DBS) - 1))]
    if k == 10:
        return draw(st.one_of(st.sampled_from(USER_FNS + DB_FNS).map(lambda f: ["user", f]), st.sampled_from(NOW_FNS).map(lambda f: ["now", f])))
    if k == 11:
        return ["cu", draw(st.integers(0, 3)), draw(st.integers(0, 2)), draw(st.integers(0, 3))]
    if k <= 13:
        return ["prep", draw(st.integers(0, len(SQLS) - 1)), draw(st.integers(0, 2))]
    if k <= 15:
        return ["long", draw(st.integers(0, 3)), draw(st.integers(0, 1)), draw(st.binary(max_size=4)).hex()]
    if k <= 18:
        return ["exec", draw(st.integers(0, 3)), draw(st.integers(0, 1)), draw(st.integers(0, 2)), draw(st.text(alphabet="ab'\\?é", max_size=3))]
    if k <= 20:
        return ["fetch", draw(st.integers(0, 3)), draw(st.integers(0, 3))]
    if k == 21:
        return ["stmt", draw(st.sampled_from(["reset", "close"])), draw(st.integers(0, 3))]
    if k <= 24:
        return ["gate", draw(st.sampled_from(["a", "f", "s", "h"]))]
    if k == 25:
        return ["show", draw(st.sampled_from(["SHOW TABLES", "SHOW VARIABLES LIKE 'sql%'", "SHOW COLUMNS FROM t", "SHOW DATABASES"]))]
    if k == 26:
        return ["misc", draw(st.sampled_from(["ping", "reset", "bad", "garbage", "debug", "badseq", "die", "halfdie"]))]
    return ["attrs", draw(st.integers(0, 3))]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 4))
    conns = []
    for ci in range(n):
        conns.append({"caps": draw(st.integers(0, 3)), "cs": draw(st.integers(0, 3)), "user": draw(st.integers(0, 3)), "db": draw(st.sampled_from([None, 0, 1])),
                      "login": draw(st.sampled_from(["ok"] * 6 + ["die", "garbage"])), "ops": draw(st.lists(op(ci), min_size=1, max_size=9))})
    return {"conns": conns, "shared": draw(st.booleans()), "sched": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 4)).map(list), max_size=120))}


def payload(o, c, ci, oi):
    k = o[0]
    q = lambda s: wire.com_query(s, c.caps)
    if k == "set":
        return q(b"SET " + VARS[o[1]] + b" = " + VALUES[o[1]][o[2]])
    if k == "get":
        return q(b"SELECT @@" + VARS[o[1]])
    if k == "names":
        n = NAMES[o[1]]
        return q([b"SET NAMES '" + n + b"'", b"SET CHARACTER SET '" + n + b"'", b"SET character_set_results = '" + n + b"'"][o[2]])
    if k == "text":
        return q(TEXTS[o[1]])
    if k == "db":
        if o[1] == "use":
            return q(b"USE " + DBS[o[2]])
        return wire.com_init_db(DBS[o[2]]) if o[1] == "init" else q(b"SELECT DATABASE()")
    if k in ("user", "now"):
        return q(b"SELECT " + o[1].encode())
    if k == "cu":
        return wire.change_user(c.caps, USERS[o[1]], b"", DBS[o[2]], CHARSETS[o[3]], b"mysql_native_password", [])
    if k == "prep":
        return wire.com_stmt_prepare(SQLS[o[1]] + (b" /*gs%d_%d*/" % (ci, oi) if o[2] == 2 and o[1] >= 2 else b""))
    if k == "long":
        return wire.com_stmt_send_long_data(o[1], o[2], bytes.fromhex(o[3]))
    if k == "exec":
        return wire.com_stmt_execute(o[1], c.caps, [wire.P(wire.T_VAR_STRING, wire.lenstr(o[4].encode()))] * o[3], [], o[2])
    if k == "fetch":
        return wire.com_stmt_fetch(o[1], o[2])
    if k == "stmt":
        return (wire.com_stmt_reset if o[1] == "reset" else wire.com_stmt_close)(o[2])
    if k == "gate":
        name = b"%d_%d" % (ci, oi)
        if o[1] == "h":
            return q(b"SELECT /*+ SET_VAR(sql_mode='HINT%d') SET_VAR(wait_timeout=%d) */ a FROM t WHERE x = '/*ga%s*/'" % (ci, 100 + ci, name))
        return q(b"SELECT a FROM t WHERE x = '/*g" + o[1].encode() + name + b"*/'")
    if k == "show":
        return q(o[1].encode())
    if k == "attrs":
        return wire.com_query(b"SELECT a FROM t", c.caps, [wire.P(wire.T_VAR_STRING, wire.lenstr(b"v%d" % ci), name=b"n%d" % j) for j in range(o[1])])
    m = o[1]
    return {"ping": wire.PING, "reset": wire.RESET_CONNECTION, "bad": b"\x55", "garbage": b"\x17\1\2", "debug": wire.DEBUG}.get(m, wire.PING)


def shift(r):
    """What of the answer to a query for the time doesn't depend on when it is asked: the columns and the shift to UTC in half hours"""
    if r.kind != "rows":
        return r.summary()
    texts = [v.decode() for row in r.text_rows() for v in row]
    now = datetime.datetime.now(datetime.timezone.utc)
    out = []
    for t in texts:
        h, m, s = (int(x) for x in t[-8:].split(":"))
        out.append([len(t), round(((h - now.hour) * 3600 + (m - now.minute) * 60 + s - now.second) / 1800) % 48])
    return [[c.name.decode() for c in r.cols], out]


class Conn:
    """Executes one connection's program step by step."""

    def __init__(self, w, spec, ci):
        self.w, self.spec, self.ci = w, spec, ci
        self.out = []
        self.oi = -1  # -1: login
        self.stage = 0
        self.c = None
        self.session = None
        self.over = False
        self.gates = []

    def done(self):
        return self.over or self.oi >= len(self.spec["ops"])

    def pending(self):
        """Is a command of this connection under way?"""
        return self.stage > 0 and not self.done()

    def step(self, settle):
        w = self.w
        if self.oi == -1:
            self.login(settle)
        else:
            self.command(settle)

    def login(self, settle):
        w, sp = self.w, self.spec
        if self.stage == 0:
            from world import Client
            n = len(w.sessions)
            self.c = Client(w, CAPS[sp["caps"]])
            self.c.connect(settle=False)
            w.settle()
            self.c.read_greeting()
            self.session = w.sessions[n]
            hs = self.c.hs
            self.out.append(["greeting", hs.server_version, hs.caps, hs.charset, hs.status])
            self.stage = 1
            return
        c = self.c
        if self.stage == 1:
            db = None if sp["db"] is None else DBS[sp["db"]]
            p = wire.handshake_response(c.caps, USERS[sp["user"]], b"", db, b"mysql_native_password", [], CHARSETS[sp["cs"]])
            if sp["login"] == "garbage":
                p = p[:40]
            c.parser = wire.Parser("auth", c.caps)
            data, c.expect_seq = wire.frame(p, 1)
            if sp["login"] == "die":
                c.raw(data[:20])
                c.sock.rx_eof = True
                self.over = True
                settle()
                return
            c.raw(data[:len(data) // 2])
            self.rest = data[len(data) // 2:]
            self.stage = 2
            settle()
            return
        if self.stage == 2:
            c.raw(self.rest)
            self.stage = 3
            settle()
            return
        w.settle()
        c.pump()
        check(c.parser.done, lambda: f"no reply to login of connection {self.ci}", key="login")
        self.out.append(["login", c.parser.r.kind])
        if c.parser.r.kind != "ok":
            self.over = True
        self.oi, self.stage = 0, 0

    def command(self, settle):
        w, c = self.w, self.c
        o = self.spec["ops"][self.oi]
        if self.stage == 0:
            if o == ["misc", "die"]:
                c.reset_conn()
                self.over = True
                settle()
                return
            if c.closed:
                self.out.append("closed")
                self.over = True
                return
            self.p = p = payload(o, c, self.ci, self.oi)
            cls = wire.command_class(p)
            c.pump()
            c.parser = wire.Parser(cls, c.caps)
            data, c.expect_seq = wire.frame(p, 9 if o == ["misc", "badseq"] else 0)
            k = (self.oi * 3 + self.ci) % len(data)
            c.raw(data[:k])
            if o == ["misc", "halfdie"]:
                c.sock.rx_eof = True
                self.over = True
                settle()
                return
            self.rest = data[k:]
            self.stage = 1
        elif self.stage == 1:
            c.raw(self.rest)
            self.stage = 2
        elif self.stage == 2:
            for name, g in list(w.gates.items()):
                if name.startswith(f"{self.ci}_") and not g.opened:
                    g.open()
            self.stage = 3
        else:
            w.settle()
            # a statement of this connection may have met its gate only now
            for name, g in list(w.gates.items()):
                if name.startswith(f"{self.ci}_"):
                    g.open()
            w.settle()
            c.pump()
            if o == ["misc", "badseq"]:
                self.out.append(["badseq", c.closed])
                self.over = True
                return
            if not c.parser.done:
                if c.closed:
                    self.out.append("closed mid-response")
                    self.over = True
                    return
                raise NoResponse(f"connection {self.ci}: no complete response to {self.p[:60]!r}")
            self.out.append([o, shift(c.parser.r) if o[0] == "now" else c.parser.r.summary()])
            if c.parser.r.kind == "switch":
                self.over = True
            self.stage = 0
            self.oi += 1
            return
        settle()

    def result(self):
        return {"responses": self.out, "events": [list(e) for e in self.session.log], "closed": self.c.closed} if self.session else None


def settler(w, iters):
    def f():
        if iters == 0:
            w.settle()
        else:
            for _ in range(iters):
                if not w.loop.has_work():
                    break
                w.loop.step()
    return f


def new_world(case):
    ref = []
    shared = GlobalVariables() if case["shared"] else None
    w = World(app=make_app(ref), session_factory=lambda: S(w, shared))
    ref.append(w)
    w.gates = {}
    return w


def solo(case, ci):
    with new_world(case) as w:
        k = Conn(w, case["conns"][ci], ci)
        while not k.done():
            k.step(w.settle)
        w.settle()
        return k.result()


def joint(case):
    with new_world(case) as w:
        conns = [Conn(w, sp, i) for i, sp in enumerate(case["conns"])]
        overlap = False
        for ci, iters in case["sched"]:
            k = conns[ci]
            if k.done():
                continue
            overlap = overlap or any(x.pending() for x in conns if x is not k)
            k.step(settler(w, iters if iters < 4 else 0))
        left = True
        while left:
            left = False
            for k in conns:
                if not k.done():
                    left = True
                    overlap = overlap or any(x.pending() for x in conns if x is not k)
                    k.step(w.settle)
        w.settle()
        return [k.result() for k in conns], overlap


def run(case, ctx):
    conns = case["conns"]
    together, overlap = pristine.call(joint, case)
    # sequential campaign: an earlier connection issued a command that leaves state behind
    sequential = len(conns) > 1 and case.get("seq") and any(o[0] not in STATELESS for k in conns[:-1] for o in k["ops"])
    ctx.nontrivial(overlap or sequential)
    for ci in range(len(conns)):
        alone = pristine.call(solo, case, ci)
        a, b = together[ci], alone
        for i in range(max(len(a["responses"]), len(b["responses"]))):
            x = a["responses"][i] if i < len(a["responses"]) else None
            y = b["responses"][i] if i < len(b["responses"]) else None
            check(x == y, lambda: f"connection {ci} received {x!r} among others, {y!r} when alone", key="response")
        check(a["events"] == b["events"], lambda: f"the application saw {a['events']} for connection {ci} among others, {b['events']} when alone", key="events")
        check(a["closed"] == b["closed"], lambda: f"connection {ci} closed={a['closed']} among others, {b['closed']} when alone", key="closed")
        for o in case["conns"][ci]["ops"]:
            ctx.tag(o[0])


# ----------------------------------------------------------------- systematic: every pair of operations overlapping
PAIR_OPS = [["set", 0, 1], ["set", 1, 1], ["set", 4, 0], ["get", 0], ["get", 1], ["names", 0, 0], ["names", 2, 1], ["names", 2, 2], ["text", 0], ["text", 2], ["text", 4], ["db", "use", 1], ["db", "init", 2], ["db", "select", 0],
            ["user", "USER()"], ["user", "CURRENT_USER()"], ["now", "NOW()"], ["cu", 2, 1, 2], ["prep", 2, 0], ["prep", 2, 2], ["prep", 3, 0], ["long", 0, 0, "7a7a"], ["exec", 0, 0, 1, "x"], ["exec", 0, 1, 1, "y"], ["fetch", 0, 1],
            ["fetch", 0, 3], ["stmt", "reset", 0], ["stmt", "close", 0], ["gate", "a"], ["gate", "f"], ["gate", "s"], ["gate", "h"], ["show", "SHOW TABLES"], ["show", "SHOW VARIABLES LIKE 'sql%'"], ["attrs", 2], ["misc", "reset"],
            ["misc", "garbage"], ["misc", "badseq"], ["misc", "die"], ["misc", "halfdie"], ["misc", "bad"]]
PROBE = [["get", 0], ["get", 1], ["text", 0], ["db", "select", 0], ["user", "USER()"], ["exec", 0, 0, 1, "p"], ["fetch", 0, 1], ["now", "LOCALTIME"], ["user", "SCHEMA()"], ["now", "CURTIME()"], ["user", "SYSTEM_USER()"]]
PREP = [["prep", 2, 0], ["exec", 0, 1, 1, "c"]]


def enum_pairs(tier):
    pats = [[0, 1, 0, 1, 0, 1, 0, 1], [0, 1, 1, 0, 0, 1, 1, 0], [0, 0, 1, 1, 1, 1, 0, 0], [0, 0, 0, 1, 1, 1, 1, 0]]
    for i, a in enumerate(PAIR_OPS):
        for j, b in enumerate(PAIR_OPS):
            for pi, pat in enumerate(pats):
                if tier == "quick" and (i + j + pi) % 4:
                    continue
                pre0 = 4 + 4 * len(PREP)
                sched = [[0, 0]] * pre0 + [[1, 0]] * pre0 + [[x, 0 if pi % 2 else 2] for x in pat]
                mk = lambda o, u: {"caps": (i + u) % 4, "cs": (j + u) % 4, "user": u, "db": u, "login": "ok", "ops": PREP + [o] + PROBE}
                yield {"conns": [mk(a, 0), mk(b, 1)], "shared": bool((i + j) % 2), "sched": sched}


# ----------------------------------------------------------------- sequences of connections: state of a finished one is gone
@st.composite
def seq_cases(draw):
    n = draw(st.integers(2, 5))
    conns = []
    for ci in range(n):
        conns.append({"caps": draw(st.integers(0, 3)), "cs": draw(st.integers(0, 3)), "user": draw(st.integers(0, 3)), "db": draw(st.sampled_from([None, 0, 1])), "login": "ok",
                      "ops": draw(st.lists(op(ci), min_size=1, max_size=6)) + (PROBE if ci else [])})
    return {"conns": conns, "seq": True, "shared": draw(st.booleans()), "sched": [[ci, 0] for ci in range(n) for _ in range(4 + 4 * len(conns[ci]["ops"]))]}


CAMPAIGNS = [
    Campaign("pairs", run, enum=enum_pairs, cpu=20),
    Campaign("interleavings", run, strategy=cases, quick=1600, thorough=50000, cpu=20),
    Campaign("sequential", run, strategy=seq_cases, quick=400, thorough=8000, cpu=20),
]
