"""C15 - text crosses the wire in the negotiated character sets without corruption."""
import re

from hypothesis import strategies as st

import charsets
import wire
from charsets import CODEC, encodable, repertoire
from runner import Campaign
from world import App, NoResponse, World, check

from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.charset import CharacterSet
from mysql_mimic.errors import ErrorCode, MysqlError
from mysql_mimic.types import ColumnType

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("cases = histories of character-set switches (handshake and COM_CHANGE_USER collation ids, SET NAMES [COLLATE], SET CHARACTER SET, SET character_set_client / _results in every spelling, also "
        "pipelined with the following command) and of transfers in both directions (SQL text, prepared SQL, string parameters, long data, attribute names and values, COM_INIT_DB, USE, COM_FIELD_LIST, user and "
        "database names; result cells of columns in every character set in the text, binary and cursor protocols, column names, error messages) of strings drawn from the character set's repertoire; the bytes are "
        "encoded and decoded by the harness with its own table of codecs; plus a sweep of the whole repertoire of every character set; non-trivial = a string with a non-ASCII character is transferred "
        "after a switch or a handshake in a character set other than utf8mb4")
ASSUMPTIONS = ["Python's codecs named in harness/charsets.py are the MySQL character sets (latin1 is cp1252, as in MySQL)",
               "character_set_results after the handshake and COM_CHANGE_USER is read back from the server; user and database of COM_CHANGE_USER may be decoded in the old or in the new client character set",
               "NUL-terminated protocol strings are only used when their encoding contains no NUL byte; UTF-16/32/UCS2 are selected by SET only (the collation id of a handshake can't announce them in MySQL either)",
               "strings that the results character set can't represent may arrive altered, or as an error"]

ALL = sorted(c for c, codec in CODEC.items() if codec and c != "utf8mb3")
HS = [c for c in ALL if c not in charsets.NOT_CLIENT]
HAS = {x.name for x in CharacterSet}


def ids_of(cs):
    """Collations of a character set, without those of the catalogue of MySQL 8 that mysql-mimic's never had."""
    return [i for i in charsets.COLLATIONS["utf8mb3" if cs == "utf8" else cs] if i < 256 and i != 76]


COLUMN_SETS = [c for c in ALL if c in HAS]


def rep(cs):
    return repertoire(cs)


def text(cs, ints, bad=()):
    """String from indices, drawn from the repertoire of cs; every third index selects among the first 128 characters."""
    r = rep(cs)
    out = []
    for i in ints:
        ch = r[(i // 3) % min(len(r), 128)] if i % 3 == 0 else r[(i // 3 * 7919 + 130) % len(r)]
        if ch not in bad and ch != "\0":
            out.append(ch)
    s = "".join(out)
    return s if encodable(s, cs) else "x"


def word(cs, ints):
    """Identifier-like string: letters only."""
    return "".join(ch for ch in text(cs, ints) if ch.isalpha() and ch.lower() == ch == ch.upper().lower())[:40] or "w"


def quote(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "''") + "'"


class Conn:
    def __init__(self, w, c, seen, client, out):
        self.w, self.c, self.seen = w, c, seen
        self.client = client
        self.out = out
        self.results = "utf8mb4"
        self.sess = w.sessions[-1]
        self.pending = None

    def enc(self, s):
        return s.encode(CODEC[self.client])

    def dec(self, b):
        return b.decode(CODEC[self.results])

    def cmd(self, payload, cls=None):
        """Run a command; a pending (pipelined) switch is sent in the same segment before it."""
        if self.pending is None:
            return self.c.cmd(payload, cls)
        first, self.pending = self.pending, None
        c = self.c
        c.pump_idle()
        c.raw(wire.frame(first, 0)[0] + wire.frame(payload, 0)[0])
        c.world.settle()
        for p, k in ((first, wire.command_class(first)), (payload, cls or wire.command_class(payload))):
            c.parser = wire.Parser(k, c.caps)
            c.expect_seq = 1
            while not c.parser.done:
                d = c._next_payload()
                if d is None:
                    raise NoResponse(f"incomplete response to the pipelined command {p[:60]!r} (closed={c.closed})")
                c.parser.feed(d)
            if p is first:
                check(c.parser.r.kind == "ok", lambda: f"switch answered with {c.parser.r!r}", key="switch")
        check(not c.leftover(), "bytes after the response", key="extra")
        return c.parser.r

    def query(self, sql, attrs=()):
        return self.cmd(wire.com_query(self.enc(sql), self.c.caps, attrs))

    def sync(self, cands):
        """Learn character_set_results from the server."""
        r = self.query("SELECT @@character_set_results AS a, @@character_set_client AS b")
        check(r.kind == "rows", lambda: f"reading the character set: {r!r}", key="read")
        a, b = [v.decode(charsets.codec_of_collation(col.charset)) for v, col in zip(r.text_rows()[0], r.cols)]
        same = lambda x, y: x.replace("utf8mb3", "utf8") == y.replace("utf8mb3", "utf8")
        check(same(b, self.client), lambda: f"@@character_set_client is {b!r} instead of {self.client!r}", key="read")
        ok = [x for x in cands if same(a, x)]
        check(ok, lambda: f"@@character_set_results is {a!r}, it may be {cands}", key="read")
        self.results = ok[0]

    def cell(self, v, col):
        codec = charsets.codec_of_collation(col.charset)
        check(codec, lambda: f"column {col.name!r} announces collation {col.charset}", key="column-charset")
        return v.decode(codec)

    def rows(self, r, binary=False):
        return [[self.cell(v, c) if isinstance(v, bytes) else v for v, c in zip(row, r.cols)] for row in (r.binary_rows() if binary else r.text_rows())]


SWITCH = {
    "names": ["SET NAMES {c}", "SET NAMES '{c}'", "set names {c}", "SET NAMES {c} COLLATE {k}", "SET NAMES DEFAULT"],
    "charset": ["SET CHARACTER SET {c}", "SET CHARACTER SET '{c}'", "SET CHARSET {c}", "SET CHARACTER SET DEFAULT"],
    "client": ["SET character_set_client = '{c}'", "SET SESSION character_set_client='{c}'", "SET @@character_set_client = '{c}'", "SET @@session.character_set_client = '{c}'", "SET character_set_client = DEFAULT"],
    "results": ["SET LOCAL character_set_results='{c}'", "SET @@SESSION.character_set_results = '{c}'", "SET @@character_set_results = '{c}'", "SET character_set_results = NULL"],
    "both": ["SET character_set_client = '{c}', character_set_results = '{d}'", "SET character_set_results = '{d}', @@character_set_client = '{c}'"],
}


def run(case, ctx):
    seen = []
    out = {}

    def query(s, e, sql, attrs):
        seen.append((sql, dict(attrs), e))
        if "exc" in out:
            raise out["exc"]
        return out.get("result")

    def schema(s):
        return out.get("schema")
    with World(app=App(query=query, schema=schema)) as w:
        hs = case["hs"]
        cs = charsets.CHARSET_OF[hs["id"]].replace("utf8mb3", "utf8")
        user, db = (text(cs, hs["user"], "\0") or "u"), text(cs, hs["db"], "\0")
        c = w.client(wire.FULL_CAPS | wire.CONNECT_WITH_DB)
        r = c.login(user=user.encode(CODEC[cs]), db=db.encode(CODEC[cs]), charset=hs["id"])
        what = f"handshake with collation {hs['id']} ({cs}), user {user!r}, database {db!r}"
        check(r.kind == "ok", lambda: f"{what} was refused: {r!r}", key="handshake")
        cn = Conn(w, c, seen, cs, out)
        s = cn.sess
        init = [e for e in s.log if e[0] == "init"]
        check(init == [("init", user, db)], lambda: f"{what}: the application sees {init!r}", key="handshake-text")
        check(s.variables.get("external_user") == user, lambda: f"{what}: external_user is {s.variables.get('external_user')!r}", key="handshake-text")
        cn.sync(["utf8mb4", cs])
        switched = cs not in ("utf8mb4", "utf8")
        ctx.nontrivial(switched and not user.isascii())
        cn.user, cn.db = user, db
        for n, op in enumerate(case["ops"]):
            k = op["op"]
            if k in SWITCH:
                flush(cn)
                new, res = ALL[op["cs"] % len(ALL)], ALL[op["cs2"] % len(ALL)]
                forms = SWITCH[k]
                form = forms[op["i"] % len(forms)]
                coll = charsets.COLLATION_NAMES[ids_of(new)[op["i"] % len(ids_of(new))]].replace("utf8mb3", "utf8")
                # names are case-insensitive
                alias = [str, str.upper, lambda n: "utf8mb3" if n == "utf8" else n.title()][op["i"] // len(forms) % 3]
                sql = form.format(c=alias(new), d=alias(res), k=coll)
                if "DEFAULT" in form or "NULL" in form:
                    new = "utf8mb4"
                payload = wire.com_query(cn.enc(sql), c.caps)
                if op.get("pipe"):
                    cn.pending = payload
                else:
                    r = c.cmd(payload)
                    check(r.kind == "ok", lambda: f"{sql!r} was refused: {r!r}", key="switch")
                if k in ("names", "charset"):
                    cn.client = cn.results = new
                elif k == "client":
                    cn.client = new
                elif k == "results":
                    cn.results = new
                else:
                    cn.client, cn.results = new, res
                switched = True
            elif k == "change":
                flush(cn)
                cid = HS_IDS[op["i"] % len(HS_IDS)]
                new = charsets.CHARSET_OF[cid].replace("utf8mb3", "utf8")
                by = cn.client if op.get("old") else new
                user, db = text(by, op["t"], "\0") or "u", text(by, op["t"][::-1], "\0")
                ub, dbb = user.encode(CODEC[by]), db.encode(CODEC[by])
                other = new if by is cn.client else cn.client

                def alt(b):
                    try:
                        return b.decode(CODEC[other])
                    except UnicodeError:
                        return None
                if 0 in ub + dbb or (cn.client in charsets.NOT_CLIENT):
                    continue
                # the bytes must be text in both
                if alt(ub) is None or alt(dbb) is None:
                    user, db = "eve", "base"
                    ub, dbb = b"eve", b"base"
                sw = op["i"] % 3 == 0
                r = c.cmd(wire.change_user(c.caps, ub, b"", dbb, cid, b"no_such_plugin" if sw else b"mysql_native_password", [(b"k", b"v")]))
                if sw:
                    check(r.kind == "switch" and r.payload[1:].startswith(b"mysql_native_password\0"), lambda: f"COM_CHANGE_USER with results in {cn.results}: the auth switch request names the plugin {r.payload!r} ({r!r})", key="plugin-name")
                    r = c.auth_step(b"")
                what = f"COM_CHANGE_USER with collation {cid} ({new}) after {cn.client}, user {user!r}"
                check(r.kind == "ok", lambda: f"{what} was answered with {r!r}", key="change-user")
                got = (s.variables.get("external_user"), s.database)
                ok = [(user, db), (alt(ub), alt(dbb))]
                check(got in ok, lambda: f"{what}: the application sees {got!r} instead of {ok!r}", key="change-user-text")
                before = cn.results
                cn.client = new
                cn.sync([before, new])
                cn.user, cn.db = got
                switched = True
            else:
                t = text(cn.client, op["t"])
                try:
                    transfer(cn, op, k, t, f"step {n} (client {cn.client}, results {cn.results}): {k}", out)
                finally:
                    out.clear()
                ctx.nontrivial(switched and not t.isascii())
                ctx.tag("client:" + cn.client)
                ctx.tag(k)
        flush(cn)
        check(c.ping(), "no answer to COM_PING in the end", key="ping")


def flush(cn):
    if cn.pending is not None:
        r = cn.cmd(wire.PING)
        check(r.kind == "ok", lambda: f"COM_PING: {r!r}", key="ping")


def transfer(cn, op, k, t, what, out):
    c, seen = cn.c, cn.seen
    del seen[:]
    rt = text(cn.results, op["t"][::-1], "\0") or "r"
    what += f" {t!r}"
    if k == "sql":
        sql = ["SELECT a FROM t WHERE b = {q}", "SELECT {q} AS x, a FROM t -- {q}", "INSERT INTO t VALUES ({q}, {q})", "SELECT a FROM t WHERE b LIKE {q} /* c */"][op["i"] % 4].replace("{q}", quote(t.replace("\n", "").replace("\r", "")))
        r = cn.query(sql)
        check(r.kind in ("ok", "rows") and [x[0] for x in seen] == [sql], lambda: f"{what}: sent {sql!r}, the application got {[x[0] for x in seen]!r} ({r!r})", key="sql")
    elif k == "attrs":
        names = [t + str(i) for i in range(op["i"] % 4)]
        vals = [t[i:] for i in range(len(names))]
        r = cn.query("SELECT a FROM t", [wire.P(0xFD, wire.lenstr(cn.enc(v)), name=cn.enc(nm)) for nm, v in zip(names, vals)])
        check([x[1] for x in seen] == [dict(zip(names, vals))], lambda: f"{what}: attributes {dict(zip(names, vals))!r} arrived as {[x[1] for x in seen]!r} ({r!r})", key="attrs")
    elif k in ("param", "long", "prepared"):
        lit = text(cn.client, op["t"][::-1]).replace("?", "!").replace("\n", "")
        sql = "SELECT a FROM t WHERE b = ? AND c = " + quote(lit) + " AND d = ?"
        p = cn.cmd(wire.com_stmt_prepare(cn.enc(sql)))
        check(p.kind == "prepare" and p.num_params == 2, lambda: f"{what}: preparing {sql!r}: {p!r}", key="prepare")
        for col in p.pcols if hasattr(p, "pcols") else ():
            check(cn.dec(col.name) == "?", lambda: f"{what}: parameter column is named {col.name!r}", key="column-name")
        if k == "long":
            data = cn.enc(t)
            cut = op["i"] % (len(data) + 1)
            for part in (data[:cut], data[cut:]):
                cn.cmd(wire.com_stmt_send_long_data(p.stmt_id, 0, part))
        if op.get("sw") is not None:
            # the strings of an execution are in the character set of that moment
            new = ALL[op["sw"] % len(ALL)]
            if all(encodable(x, new) for x in (t, lit)) and k != "long":
                r = cn.query(f"SET NAMES {new}")
                check(r.kind == "ok", lambda: f"SET NAMES {new}: {r!r}", key="switch")
                cn.client = cn.results = new
        params = [wire.P(0xFD, wire.lenstr(cn.enc(t)), long=k == "long"), wire.P([0xFE, 0x0F, 0xFC, 0xFD][op["i"] % 4], wire.lenstr(cn.enc(t[::-1] if encodable(t[::-1], cn.client) else t)))]
        r = cn.cmd(wire.com_stmt_execute(p.stmt_id, c.caps, params, [wire.P(0xFD, wire.lenstr(cn.enc(t)), name=cn.enc("n" + t))] if k == "param" else []))
        cn.cmd(wire.com_stmt_close(p.stmt_id))
        check(len(seen) == 1, lambda: f"{what}: execution answered with {r!r}", key="execute")
        e = seen[0][2]
        lits = [x.this for x in e.find_all(type(e.find(EXP.Literal)))]
        want = [t, lit, t[::-1] if encodable(t[::-1], cn.client) else t]
        check(sorted(lits) == sorted(want), lambda: f"{what}: {sql!r} with the parameters {want!r} reached the application as {seen[0][0]!r}", key="params")
        if k == "param":
            check(seen[0][1] == {"n" + t: t}, lambda: f"{what}: the attributes arrived as {seen[0][1]!r}", key="attrs")
    elif k == "init_db":
        r = cn.cmd(wire.com_init_db(cn.enc(t)))
        check(r.kind == "ok" and cn.sess.database == t, lambda: f"{what}: COM_INIT_DB selected {cn.sess.database!r} ({r!r})", key="init-db")
        cn.db = t
        readback(cn, "DATABASE()", t, what)
    elif k == "use":
        name = word(cn.client, op["t"])
        r = cn.query(f"USE `{name}`")
        check(r.kind == "ok" and cn.sess.database == name, lambda: f"{what}: USE {name!r} selected {cn.sess.database!r} ({r!r})", key="use")
        cn.db = name
    elif k == "who":
        readback(cn, ["USER()", "@@external_user", "SESSION_USER()"][op["i"] % 3], cn.user, what)
        readback(cn, "DATABASE()", cn.db, what)
    elif k == "fields":
        name, col = "t" + word(cn.client, op["t"]), word(cn.results, op["t"][::-1])
        if 0 in cn.enc(name) or not encodable(name, cn.results):
            return
        out["schema"] = {name: {col: "INT", col + "2": "TEXT"}, "other": {"zz": "INT"}}
        cn.sess.database = None
        # with a wildcard in the client's character set, too
        wild, want = b"", [col, col + "2"]
        if encodable(col, cn.client) and not set(col) & set("\\%_\0") and op["i"] % 3:
            wild, want = [(cn.enc(col), [col]), (cn.enc(col + "2"), [col + "2"]), (cn.enc(col[:1] + "%"), want)][op["i"] // 3 % 3]
        r = cn.cmd(wire.com_field_list(cn.enc(name), wild))
        cn.sess.database = cn.db
        check(r.kind == "fields", lambda: f"{what}: COM_FIELD_LIST of {name!r} answered with {r!r}", key="field-list")
        got = [cn.dec(x.name) for x in r.cols]
        check(got == want, lambda: f"{what}: COM_FIELD_LIST of {name!r} with the wildcard {wild!r} names {got!r} instead of {want!r}", key="field-list")
        if want:
            check({cn.dec(x.table) for x in r.cols} == {name}, lambda: f"{what}: COM_FIELD_LIST of {name!r} is for the tables {[x.table for x in r.cols]!r}", key="field-list")
    elif k in ("cells", "bcells", "fetch"):
        sets = [COLUMN_SETS[(op["i"] + 5 * j) % len(COLUMN_SETS)] for j in range(1 + op["i"] % 4)]
        vals = [[text(s, [x + j * 31 + i for x in op["t"]]) for j, s in enumerate(sets)] for i in range(3)]
        names = [rt + str(j) for j in range(len(sets))]
        types = [ColumnType.VARCHAR, ColumnType.STRING, ColumnType.VAR_STRING, ColumnType.ENUM, ColumnType.SET, ColumnType.JSON, ColumnType.BLOB, ColumnType.LONG_BLOB]
        out["result"] = ResultSet(rows=vals, columns=[ResultColumn(nm, types[(op["i"] + j) % len(types)], character_set=CharacterSet[s]) for j, (nm, s) in enumerate(zip(names, sets))])
        check_rows(cn, k, names, vals, what, sets)
    elif k == "plain":
        vals = [[text("utf8mb4", op["t"]), t], [None, rt]]
        names = [rt, "b" + rt]
        out["result"] = (vals, names)
        check_rows(cn, "bcells" if op["i"] % 2 else "cells", names, vals, what, None)
    elif k == "static":
        t, name = t.replace("\n", "").replace("\r", ""), word(cn.client, op["t"])
        r = cn.query(f"SELECT {quote(t)} AS `{name}`, {quote(t)} AS y")
        if encodable(name, cn.results):
            check(r.kind == "rows" and cn.rows(r) == [[t, t]], lambda: f"{what}: SELECT {t!r} AS {name!r} is {r!r} {cn.rows(r) if r.kind == 'rows' else ''}", key="static")
            check([cn.dec(x.name) for x in r.cols] == [name, "y"], lambda: f"{what}: column {name!r} is named {r.cols[0].name!r}", key="column-name")
    elif k == "error":
        i = op["i"] % 4
        msg = rt
        if rt and op["t"] and op["t"][0] % 4 == 1:
            # (longer than a network packet's header byte, a usual limit for messages, a packet's pieces in the buffer)
            msg = rt * (1 + (255, 520, 1100, 5000, 70000)[op["t"][0] // 4 % 5] // len(rt))
        if i == 0:
            out["exc"] = MysqlError(msg, ErrorCode.PARSE_ERROR)
        elif i == 1:
            out["exc"] = Exception(msg)
        elif i == 2:
            def gen():
                yield (1,)
                raise MysqlError(msg)
            out["result"] = (gen(), ["a"])
        if i == 3:
            name = word(cn.client, op["t"])
            r = cn.query(f"SELECT @@`{name}`, 1")
            if not encodable(name, cn.results) or r.kind == "rows":
                return
            msg = name
        else:
            r = cn.query("SELECT a FROM t")
        check(r.kind == "err", lambda: f"{what}: {r!r}", key="error")
        got = cn.dec(r.err.msg)
        check(got == msg if i < 3 else msg in got, lambda: f"{what}: the error message {msg!r} arrived as {got[:300]!r}, {len(got)} characters instead of {len(msg)}", key="error-text")
        check(re.fullmatch(rb"[0-9A-Z]{5}", r.err.state), lambda: f"{what}: SQL state {r.err.state!r}", key="sqlstate")


def readback(cn, expr, value, what):
    r = cn.query(f"SELECT {expr} AS x")
    check(r.kind == "rows" and cn.rows(r) == [[value]], lambda: f"{what}: {expr} is {r!r} {cn.rows(r) if r.kind == 'rows' else ''} instead of {value!r}", key="readback")
    check(cn.dec(r.cols[0].name) == "x", lambda: f"{what}: column x is named {r.cols[0].name!r}", key="column-name")


def check_rows(cn, k, names, vals, what, sets):
    c = cn.c
    if k == "cells":
        r = cn.query("SELECT a FROM t")
        check(r.kind == "rows", lambda: f"{what}: {r!r}", key="cells")
        got = cn.rows(r)
    else:
        p = cn.cmd(wire.com_stmt_prepare(cn.enc("SELECT a FROM t")))
        r = cn.cmd(wire.com_stmt_execute(p.stmt_id, c.caps, cursor=k == "fetch"))
        check(r.kind == "rows", lambda: f"{what}: {r!r}", key="cells")
        if k == "fetch":
            f = cn.cmd(wire.com_stmt_fetch(p.stmt_id, 100))
            got = [[cn.cell(v, col) if isinstance(v, bytes) else v for v, col in zip(row, r.cols)] for row in f.binary_rows(r.cols)]
        else:
            got = cn.rows(r, True)
        cn.cmd(wire.com_stmt_close(p.stmt_id))
    gotn = [cn.dec(x.name) for x in r.cols]
    check(gotn == names, lambda: f"{what}: the columns {names!r} arrived as {gotn!r}", key="column-name")
    if sets:
        for x, s in zip(r.cols, sets):
            check(CODEC.get(charsets.CHARSET_OF.get(x.charset)) == CODEC[s], lambda: f"{what}: a column in {s} announces collation {x.charset}", key="column-charset")
    check(got == [list(v) for v in vals], lambda: f"{what}: the cells {vals!r} arrived as {got!r} (columns in {sets})", key="cells")


import boot  # noqa: E402,F401
from sqlglot import expressions as EXP  # noqa: E402

TRANSFERS = ["sql", "sql", "attrs", "param", "long", "prepared", "init_db", "use", "who", "fields", "cells", "bcells", "fetch", "plain", "static", "error", "error"]
ints = st.lists(st.integers(0, 300000), max_size=12)


@st.composite
def ops(draw):
    if draw(st.integers(0, 9)) < 4:
        k = draw(st.sampled_from(sorted(SWITCH) + ["names", "change"]))
        o = {"op": k, "i": draw(st.integers(0, 400)), "cs": draw(st.integers(0, 50)), "cs2": draw(st.integers(0, 50)), "pipe": draw(st.booleans())}
        if k == "change":
            o["t"] = draw(ints)
            o["old"] = draw(st.booleans())
        return o
    o = {"op": draw(st.sampled_from(TRANSFERS)), "i": draw(st.integers(0, 200)), "t": draw(ints)}
    if o["op"] in ("param", "prepared") and draw(st.booleans()):
        o["sw"] = draw(st.integers(0, 50))
    return o


HS_IDS = [i for cs in HS for i in ids_of(cs)]


@st.composite
def cases(draw):
    return {"hs": {"id": draw(st.one_of(st.just(45), st.sampled_from(HS_IDS))), "user": draw(ints), "db": draw(ints)}, "ops": draw(st.lists(ops(), min_size=1, max_size=12))}


PLAINHS = {"id": 45, "user": [1], "db": []}


def enum_ids(tier):
    """Every collation id, in the handshake and in COM_CHANGE_USER, followed by one transfer of every kind."""
    tr = [{"op": k, "i": i, "t": [1 + 3 * (j * 37 + i) for j in range(6)]} for i, k in enumerate(dict.fromkeys(TRANSFERS))]
    for n, i in enumerate(HS_IDS):
        yield {"hs": {"id": i, "user": [1 + 3 * (n * 11 + j) for j in range(4)], "db": [1 + 3 * (n * 13 + j) for j in range(3)]}, "ops": tr}
    ids = HS_IDS
    for n, i in enumerate(ids):
        yield {"hs": {"id": HS_IDS[(n * 7) % len(HS_IDS)], "user": [1], "db": []}, "ops": [{"op": "change", "i": n, "t": [1 + 3 * (n * 17 + j) for j in range(4)], "old": n % 2}] + [dict(x, i=x["i"] + n) for x in tr]}


def enum_sets(tier):
    """Every ordered pair of character sets x every way to switch, pipelined or not, then transfers of every kind."""
    tr = list(dict.fromkeys(TRANSFERS))
    n = 0
    forms = [(k, i) for k in SWITCH for i in range(len(SWITCH[k]))]
    for a in range(len(ALL)):
        for b in range(len(ALL)):
            n += 1
            k, i = forms[n % len(forms)]
            k2, i2 = forms[(n * 5 + 1) % len(forms)]
            yield {"hs": PLAINHS, "ops": [{"op": k, "i": i, "cs": a, "cs2": b, "pipe": n % 2 == 0}] + [{"op": tr[(n + j) % len(tr)], "i": n, "t": [3 * (n + x) + 1 for x in range(5)]} for j in range(3)]
                   + [{"op": k2, "i": i2, "cs": b, "cs2": a, "pipe": n % 3 == 0}] + [{"op": tr[(n + 3 + j) % len(tr)], "i": n + 1, "t": [3 * (n * 3 + x) + 2 for x in range(5)]} for j in range(4)]}


def run_sweep(case, ctx):
    """The whole repertoire of one character set through every path, in chunks."""
    cs, part = case["cs"], case["part"]
    r = [ch for ch in rep(cs) if ch not in "\0\n\r"]
    size = case["size"]
    chunk = r[part * size:(part + 1) * size]
    s = "".join(chunk)
    if not encodable(s, cs):
        chunk = [ch for ch in chunk if encodable("a" + ch + "b" + ch, cs)]
        s = "".join(chunk)
        if not encodable(s, cs):
            s = "a".join(chunk)
    if not encodable(s, cs):
        return
    ctx.nontrivial(not s.isascii())
    ctx.tag("sweep:" + cs)
    seen, out = [], {}

    def query(se, e, sql, attrs):
        seen.append((sql, dict(attrs), e))
        if "exc" in out:
            raise out["exc"]
        return out.get("result")
    with World(app=App(query=query)) as w:
        c = w.login()
        cn = Conn(w, c, seen, "utf8mb4", out)
        q = c.query(f"SET NAMES {cs}")
        check(q.kind == "ok", lambda: f"SET NAMES {cs}: {q!r}", key="switch")
        cn.client = cn.results = cs
        what = f"in {cs}:"
        diff = lambda got: f"{what} {[(x, y) for x, y in zip(s, got) if x != y][:3]!r} of {s[:40]!r}... {got[:40]!r}..."
        sql = "SELECT a FROM t WHERE b = " + quote(s)
        q = cn.query(sql, [wire.P(0xFD, wire.lenstr(cn.enc(s)), name=cn.enc("n" + s))])
        check(len(seen) == 1, lambda: f"{what} {sql[:200]!r} answered with {q!r}", key="sql")
        check(seen[0][0] == sql, lambda: diff(seen[0][0][26:]), key="sql")
        check(seen[0][1] == {"n" + s: s}, lambda: f"{what} attributes arrived as {seen[0][1]!r}", key="attrs")
        lit = seen[0][2].find(EXP.Literal).this
        check(lit == s, lambda: diff(lit), key="sql-literal")
        del seen[:]
        p = cn.cmd(wire.com_stmt_prepare(cn.enc("SELECT a FROM t WHERE b = ?")))
        q = cn.cmd(wire.com_stmt_execute(p.stmt_id, c.caps, [wire.P(0xFD, wire.lenstr(cn.enc(s)))]))
        check(len(seen) == 1, lambda: f"{what} execution answered with {q!r}", key="params")
        lit = seen[0][2].find(EXP.Literal).this
        check(lit == s, lambda: diff(lit), key="params")
        q = cn.cmd(wire.com_init_db(cn.enc(s)))
        check(cn.sess.database == s, lambda: diff(cn.sess.database), key="init-db")
        if cs in HAS:
            out["result"] = ResultSet(rows=[(s, s)], columns=[ResultColumn(s, ColumnType.VARCHAR, character_set=CharacterSet[cs]), ResultColumn("u", ColumnType.VARCHAR)])
            for k in ("cells", "bcells"):
                check_rows(cn, k, [s, "u"], [[s, s]], what, [cs, "utf8mb4"])
        out.clear()
        out["exc"] = MysqlError(s)
        q = cn.query("SELECT a FROM t")
        check(q.kind == "err" and cn.dec(q.err.msg) == s, lambda: f"{what} the error message arrived as {q!r}", key="error-text")


def enum_sweep(tier):
    size = 256
    for cs in ALL:
        n = (len(rep(cs)) + size - 1) // size
        step = 1 if tier == "thorough" or n < 40 else (3 if CODEC[cs] not in ("utf_8", "utf_16_be", "utf_16_le", "utf_32_be", "gb18030") else 9)
        for part in range(0, n, step):
            yield {"cs": cs, "part": part, "size": size}


CAMPAIGNS = [
    Campaign("ids", run, enum=enum_ids, cpu=60),
    Campaign("sets", run, enum=enum_sets, cpu=60),
    Campaign("sweep", run_sweep, enum=enum_sweep, cpu=60),
    Campaign("histories", run, strategy=cases, quick=2000, thorough=80000, cpu=60),
]
