"""C14 - system variables form a typed, scoped store that clients cannot corrupt."""
import datetime as dt
import re

from hypothesis import strategies as st

import charsets
import wire
from runner import Campaign
from world import App, AppSession, World, check

from mysql_mimic.errors import MysqlError
from mysql_mimic.variables import GlobalVariables, SessionVariables

PROPERTY = "C14"
LEVEL = "exploration"
RULE = ("cases = histories on two connections of SET statements (bare/SESSION/LOCAL/@@/@@SESSION./@@LOCAL., any letter case, multi-assignment, NAMES, CHARACTER SET, TRANSACTION, values of right and wrong type, "
        "references to other variables), reads, SHOW VARIABLES and statements with SET_VAR hints (single, multiple, nested, on failing statements, unknown and read-only names) over every variable; after every "
        "statement SHOW VARIABLES of every connection is compared with a typed reference store, @@reads with value and type, NOW()/CURDATE()/CURTIME() with the wall clock in the selected zone, text is exchanged in "
        "the selected character sets; non-trivial = at least one accepted assignment is followed by a read or a hinted statement")
ASSUMPTIONS = ["where MySQL and coercion by the Python type differ (fractional numbers for integers, integers > 1 or unknown words for booleans) an error or any value of the right type is accepted, and read back afterwards",
               "after a failing multi-assignment each of its earlier assignments may or may not have been applied"]

I, B, S = int, bool, str
U = "utf8mb4"
UC = "utf8mb4_general_ci"
# name: (type, default, writable)
VARS = {
    "auto_increment_increment": (I, 1, True), "autocommit": (B, True, True), "character_set_client": (S, U, True), "character_set_connection": (S, U, True), "character_set_database": (S, U, True),
    "character_set_results": (S, U, True), "character_set_server": (S, U, True), "collation_connection": (S, UC, True), "collation_database": (S, UC, True), "collation_server": (S, UC, True),
    "external_user": (S, "", False), "init_connect": (S, "", True), "interactive_timeout": (I, 28800, True), "license": (S, "MIT", False), "lower_case_table_names": (I, 0, True), "max_allowed_packet": (I, 67108864, True),
    "max_execution_time": (I, 0, True), "net_buffer_length": (I, 16384, True), "net_write_timeout": (I, 28800, True), "performance_schema": (B, False, False), "sql_auto_is_null": (B, False, True), "sql_mode": (S, "ANSI", True),
    "sql_select_limit": (I, None, True), "system_time_zone": (S, "UTC", False), "time_zone": (S, "UTC", True), "transaction_read_only": (B, False, True), "transaction_isolation": (S, "READ-COMMITTED", True),
    "version": (S, "8.0.29", False), "version_comment": (S, "mysql-mimic", False), "wait_timeout": (I, 28800, True), "event_scheduler": (S, "OFF", True), "default_storage_engine": (S, "mysql-mimic", True),
    "default_tmp_storage_engine": (S, "mysql-mimic", True),
}
CUSTOM = {"app_ratio": (float, 0.5, True), "app_flag": (B, False, True), "app_name": (S, None, True), "app_fixed": (I, 42, False), "app_count": (I, -7, True), "app_label": (S, "it's \\ \u96ea", True)}
CHARSET_VARS = {"character_set_client", "character_set_connection", "character_set_database", "character_set_results", "character_set_server"}
COLL_VARS = {"collation_connection", "collation_database", "collation_server"}
NAMES = sorted(VARS)
PLAIN = [n for n in NAMES if VARS[n][2] and n not in CHARSET_VARS | COLL_VARS | {"time_zone"}]
READONLY = [n for n in NAMES if not VARS[n][2]]
UNKNOWN = ["nosuch", "sql_mod", "version_", "autocommit2", "global"]
GOOD_CS = ["latin1", "utf8", "utf8mb4", "cp1251", "gbk", "koi8r", "utf16", "utf32", "ascii", "greek", "sjis", "utf16le"]
BAD_CS = ["nosuch", "utf9", "", "latin_1", "rot13", "punycode", "idna", "hex", "utf-7", "1", "binary", "dec8", "armscii8", "swe7", "keybcs2", "geostd8", "utf8mb3", "LATIN1", "Utf8", "cp437", "mbcs"]

# (SQL text, semantic value)
STRINGS = [("'abc'", "abc"), ("'100'", "100"), ("'it''s'", "it's"), ("'back\\\\slash'", "back\\slash"), ("''", ""), ("'a;b -- c'", "a;b -- c"), ("'\u96ea'", "\u96ea"), ("'%_?'", "%_?"), ("\"dq\"", "dq"), ("' 7 '", " 7 "), ("'ON'", "ON"),
           ("'off'", "off"), ("'False'", "False"), ("'true'", "true"), ("'0'", "0"), ("'1'", "1"), ("'DEFAULT'", "DEFAULT"), ("'NULL'", "NULL"), ("'UTC'", "UTC"), ("'" + "x" * 300 + "'", "x" * 300)]
INTS = [("0", 0), ("1", 1), ("5", 5), ("100", 100), ("86400", 86400), ("4294967296", 2 ** 32), ("9223372036854775807", 2 ** 63 - 1), ("99999999999999999999999", 99999999999999999999999)]
FLOATS = [("1.5", 1.5), ("2.0", 2.0), ("1e3", 1e3), ("0.25", .25)]
BARE = [("ON", "on"), ("OFF", "off"), ("on", "on"), ("off", "off"), ("TRUE", True), ("FALSE", False), ("true", True), ("false", False)]
RESET = [("DEFAULT", None), ("NULL", None), ("default", None), ("null", None)]
ZONES = ["UTC", "+00:00", "+05:30", "-08:00", "+12:45", "-00:30", "+14:00", "utc", "-11:00", "+01:00"]
BAD_ZONES = ["whoops", "SYSTEM", "+25:00", "+5", "+05:30junk", "Europe/Berlin", "", "05:30", "+24:00", "-23:59x", "+99:99", "+01:60", "GMT", "\u96ea", "+\u0661\u0662:\u0663\u0664"]


class Err:
    """the statement may be answered with an error (nothing changes)"""


ERR = Err()


def truth(v):
    return {"on": True, "true": True, "1": True, "off": False, "false": False, "0": False}.get(v.lower())


def outcomes(name, val, schema):
    """Acceptable outcomes of assigning the semantic value val ('on'/'off' words are ('word', x)): list of values and/or ERR; None = anything of the right type or an error."""
    type_, default, writable = schema[name]
    if not writable:
        return [ERR]
    if val is None:
        return [default]
    word = isinstance(val, tuple)
    if name in CHARSET_VARS:
        if isinstance(val, str) and val in GOOD_CS:
            return [val]
        if isinstance(val, str) and charsets.CODEC.get(val.lower()) and not word:
            return [val, val.lower(), ERR] + (["utf8"] if val.lower() == "utf8mb3" else [])
        if val == "binary":
            return [val, ERR]
        return [ERR] if name in ("character_set_client", "character_set_results") else [ERR, str(val)]
    if name == "time_zone":
        if isinstance(val, str) and val in ZONES:
            return [val]
        return [ERR, str(val)] + (["+05:30"] if val == "+05:30junk" else [])
    if name in COLL_VARS:
        return [val] if isinstance(val, str) and val in charsets.COLLATION_NAMES.values() else [ERR, str(val)]
    if type_ is bool:
        if word:
            return [val[1] == "on"]
        if isinstance(val, bool) or val in (0, 1):
            return [bool(val)]
        if isinstance(val, str) and truth(val) is not None:
            return [truth(val)]
        return [True, False, ERR]
    if type_ is int:
        if word:
            return [int(val[1] == "on"), ERR]
        if isinstance(val, bool):
            return [int(val)]
        if isinstance(val, int):
            return [val]
        if isinstance(val, float):
            return [int(val), round(val), ERR]
        try:
            return [int(val)] if val.strip() == val else [int(val), ERR]
        except ValueError:
            return [ERR]
    if type_ is float:
        try:
            return [float(val)] if not word else [float(val[1] == "on"), ERR]
        except ValueError:
            return [ERR]
    if word:
        return [val[1].upper(), str(val[1] == "on"), str(int(val[1] == "on")), ERR]
    if isinstance(val, bool):
        return [str(val), str(int(val)), str(val).upper(), "ON" if val else "OFF", ERR]
    if isinstance(val, float):
        return [str(val), "%g" % val, ERR]
    return [str(val)]


def shown(v):
    """acceptable texts of a value in SHOW VARIABLES"""
    if v is None:
        return {None, ""}
    if isinstance(v, bool):
        return {"ON", "True", "1", "TRUE"} if v else {"OFF", "False", "0", "FALSE"}
    return {str(v)}


class Conn:
    def __init__(self, w, c, schema, sess):
        self.w, self.c, self.schema, self.sess = w, c, schema, sess
        self.model = {k: v[1] for k, v in schema.items()}
        self.dirty = False

    # -- exchange in the negotiated character sets
    def codec(self, which):
        return charsets.CODEC.get(self.model["character_set_" + which]) or "utf-8"

    def fit(self, text):
        """text without characters that the client can't send"""
        return text.encode(self.codec("client"), "replace").decode(self.codec("client"))

    def query(self, sql, binary=False):
        data = sql.encode(self.codec("client"))
        if binary:
            p = self.c.prepare(data)
            if p.kind != "prepare":
                return p
            r = self.c.cmd(wire.com_stmt_execute(p.stmt_id, self.c.caps))
            self.c.cmd(wire.com_stmt_close(p.stmt_id))
            return r
        return self.c.cmd(wire.com_query(data, self.c.caps))

    def names(self, r):
        return [col.name.decode(self.codec("results")) for col in r.cols]

    def rows(self, r, binary=False):
        out = []
        for raw in (r.binary_rows() if binary else r.text_rows()):
            out.append([v.decode(charsets.codec_of_collation(col.charset) or "utf-8") if isinstance(v, bytes) else v for v, col in zip(raw, r.cols)])
        return out

    def show(self, what, may_sync=()):
        """Compare the whole store; may_sync: {name: acceptable values} still to be determined."""
        r = self.query("SHOW VARIABLES")
        check(r.kind == "rows", lambda: f"after {what}: SHOW VARIABLES answered with {r!r}", key="show")
        got = self.rows(r)
        check([x[0] for x in got] == sorted(self.schema), lambda: f"after {what}: SHOW VARIABLES lists {[x[0] for x in got]}", key="names")
        for k, v in got:
            if k in may_sync:
                ok = [m for m in may_sync[k] if v in shown(m)]
                check(ok, lambda: f"after {what}: SHOW VARIABLES says {k} = {v!r}, acceptable are {may_sync[k]!r}", key="value")
                self.model[k] = ok[0]
            else:
                check(v in shown(self.model[k]), lambda: f"after {what}: SHOW VARIABLES says {k} = {v!r} instead of {self.model[k]!r}", key="value")

    def read(self, name, sql, binary, what):
        r = self.query(sql, binary)
        v = self.model[name]
        check(r.kind == "rows" and len(r.rows) == 1 and len(r.cols) == 1, lambda: f"{what}: {sql!r} answered with {r!r}", key="read")
        got = self.rows(r, binary)[0][0]
        if v is None:
            check(got is None, lambda: f"{what}: {sql!r} is {got!r} instead of NULL", key="read")
        elif isinstance(v, str):
            check(got == v, lambda: f"{what}: {sql!r} is {got!r} instead of {v!r}", key="read")
        else:
            check(r.cols[0].type in wire_numbers, lambda: f"{what}: {sql!r} of a numeric variable has the type {r.cols[0].type}", key="type")
            check(float(got) == float(v) and (not isinstance(v, int) or int(got) == v), lambda: f"{what}: {sql!r} is {got!r} instead of {v!r}", key="read")


wire_numbers = {1, 2, 3, 4, 5, 8, 9, 16, 246, 0}


def recase(name, how):
    return [name, name.upper(), name.capitalize(), name.title()][how % 4]


SPELL = ["{n}", "SESSION {n}", "LOCAL {n}", "@@{n}", "@@SESSION.{n}", "@@session.{n}", "@@LOCAL.{n}", "session {n}", "@@Session.{n}"]
READ = ["SELECT @@{n}", "SELECT @@SESSION.{n}", "SELECT @@session.{n} AS x", "SELECT @@{n} AS `a b`", "SELECT @@local.{n} LIMIT 1", "select @@{n}"]


def now_ok(conn, r, lo, hi, exprs, zone, what):
    """r: one row of the values of exprs; lo, hi: UTC times around the statement."""
    check(r.kind == "rows" and len(r.rows) == 1, lambda: f"{what}: answered with {r!r}", key="now")
    got = conn.rows(r)[0]
    z = offset(zone)
    fmt = {"NOW": "%Y-%m-%d %H:%M:%S", "DATE": "%Y-%m-%d", "TIME": "%H:%M:%S"}
    for e, v in zip(exprs, got):
        f = fmt[e]
        ok, t = set(), lo.replace(microsecond=0)
        while t <= hi:
            ok.add((t + z).strftime(f))
            t += dt.timedelta(seconds=1)
        check(v in ok, lambda: f"{what}: {e} is {v!r} with time_zone = {zone!r}, it is {sorted(ok)}", key="now")


def offset(zone):
    m = re.fullmatch(r"([+-])(\d\d):(\d\d)", zone)
    if not m:
        return dt.timedelta(0)
    d = dt.timedelta(hours=int(m[2]), minutes=int(m[3]))
    return -d if m[1] == "-" else d


NOWS = {"NOW": ["NOW()", "CURRENT_TIMESTAMP()", "CURRENT_TIMESTAMP", "LOCALTIME()", "LOCALTIMESTAMP()", "now()"], "DATE": ["CURDATE()", "CURRENT_DATE()", "CURRENT_DATE"], "TIME": ["CURTIME()", "CURRENT_TIME()", "CURRENT_TIME"]}


def utcnow():
    return dt.datetime.now(dt.timezone.utc).replace(tzinfo=None)


def run(case, ctx):
    schema = dict(VARS)
    factory = None
    seen = []

    hold = []

    async def query(s, e, sql, attrs):
        seen.append(({k: s.variables.get(k) for k in schema}, e.copy(), s.timestamp))
        if hold:
            await hold[0].wait()
        if "fail_t" in sql:
            raise (MysqlError("failing") if "1" in sql else ValueError("failing"))
        return [(1,)], ["a"]
    app = App(query=query)
    with World(app=app) as w:
        if case.get("custom"):
            schema.update(CUSTOM)

            def factory():
                s = AppSession(w)
                s.variables = SessionVariables(GlobalVariables({**__import__("mysql_mimic.variables", fromlist=["x"]).SYSTEM_VARIABLES, **CUSTOM}))
                if case["custom"] == 2:
                    s.variables.set("version", "9.9.9-app", force=True)
                return s
            w.server.session_factory = factory
            if case["custom"] == 2:
                schema["version"] = (S, "9.9.9-app", False)
        conns = []
        for i in range(2):
            c = w.login(user=b"ann" if i else b"bob")
            cn = Conn(w, c, schema, w.sessions[-1])
            cn.model["external_user"] = "ann" if i else "bob"
            check(c.hs.server_version.decode() == schema["version"][1], lambda: f"the handshake announces version {c.hs.server_version!r}", key="version")
            conns.append(cn)
        names = sorted(schema)
        assigned = False
        for n, op in enumerate(case["ops"]):
            cn = conns[op.get("c", 0) % 2]
            k = op["op"]
            what = None
            sync = {}
            if k == "set":
                parts, sync_all, partly, may_err, must_err = [], {}, {}, False, False
                model = dict(cn.model)
                for a in op["items"]:
                    name = names[a["v"] % len(names)] if "name" not in a else a["name"]
                    text, val = a["text"], a["val"]
                    if a.get("ref") is not None:
                        src = names[a["ref"] % len(names)]
                        text, val = "@@" + recase(src, a.get("case", 0)), cn.model[src]
                        if isinstance(val, (int, float)) and val < 0:
                            may_err = True
                    elif a.get("word"):
                        val = ("word", val)
                    elif isinstance(val, str):
                        text, val = cn.fit(text), cn.fit(val)
                    spell = SPELL[(a["spell"] if not parts or not a["spell"] in (1, 2, 7) else 0) % len(SPELL)]
                    if parts and op["items"][0]["spell"] in (1, 2, 7):
                        spell = "{n}"
                    parts.append(spell.replace("{n}", recase(name, a.get("case", 0))) + ["=", " = ", " =\n"][a.get("case", 0) % 3] + text)
                    if name not in schema:
                        must_err = True
                        continue
                    oc = outcomes(name, val, schema)
                    if oc == [ERR]:
                        must_err = True
                    elif ERR in oc:
                        may_err = True
                    sync_all[name] = [x for x in oc if x is not ERR] or [cn.model[name]]
                    partly.setdefault(name, []).extend(sync_all[name])
                sql = "SET " + ", ".join(parts)
                what = sql
                # a changed client character set applies from the next command on
                r = cn.query(sql)
                if r.kind == "err":
                    check(must_err or may_err, lambda: f"{sql!r} was refused: {r!r}", key="refused")
                    # any of the assignments before the failing one may have been applied
                    sync = {k_: v + [model[k_]] for k_, v in partly.items() if len(op["items"]) > 1}
                    if len(op["items"]) > 1 and "character_set_client" in sync or "character_set_results" in sync:
                        probe(cn, sync, what)
                else:
                    check(r.kind == "ok", lambda: f"{sql!r} answered with {r!r}", key="set")
                    check(not must_err, lambda: f"{sql!r} was accepted", key="accepted")
                    assigned = True
                    for k_, v in sync_all.items():
                        if len(v) == 1:
                            cn.model[k_] = v[0]
                        else:
                            sync[k_] = v
                    if "character_set_client" in sync or "character_set_results" in sync:
                        probe(cn, sync, what)
            elif k == "names":
                cs, coll = op["cs"], op["coll"]
                sql = "SET NAMES " + cs + (f" COLLATE {coll}" if coll else "")
                what = sql
                name = cs.strip("'\"")
                r = cn.query(sql)
                if cs == "DEFAULT":
                    vals = {"character_set_client": U, "character_set_connection": U, "character_set_results": U, "collation_connection": UC}
                else:
                    vals = {v: name for v in ("character_set_client", "character_set_connection", "character_set_results")}
                    vals["collation_connection"] = (coll or "").strip("'\"") or "?"
                if cs == "DEFAULT" or (name in GOOD_CS and (not coll or coll.strip("'\"") in charsets.COLLATION_NAMES.values())):
                    check(r.kind == "ok", lambda: f"{sql!r} was refused: {r!r}", key="refused")
                    if vals["collation_connection"] == "?":
                        # any collation of this character set
                        vals.pop("collation_connection")
                        sync = {"collation_connection": [x for i, x in charsets.COLLATION_NAMES.items() if charsets.codec_of_collation(i) and charsets.CHARSET_OF[i].replace("utf8mb3", "utf8") == name.replace("utf8mb3", "utf8")] + [name + "_general_ci"]}
                    cn.model.update(vals)
                    assigned = True
                elif r.kind != "err":
                    sync = {x: [v, v.lower(), cn.model[x]] + (["utf8"] if v == "utf8mb3" else []) for x, v in vals.items()}
                    if charsets.CODEC.get(name.lower().replace("utf8mb3", "utf8")):
                        sync["collation_connection"] += list(charsets.COLLATION_NAMES.values()) + ["utf8_general_ci"]
                    else:
                        check(False, lambda: f"{sql!r} was accepted", key="accepted")
                    probe(cn, sync, what)
            elif k == "charset":
                cs = op["cs"]
                sql = ("SET CHARACTER SET " if op["i"] % 2 else "SET CHARSET ") + cs
                what = sql
                name = cs.strip("'\"")
                r = cn.query(sql)
                vals = {"character_set_client": U, "character_set_results": U} if cs == "DEFAULT" else {"character_set_client": name, "character_set_results": name}
                if cs == "DEFAULT" or name in GOOD_CS:
                    check(r.kind == "ok", lambda: f"{sql!r} was refused: {r!r}", key="refused")
                    sync = {"character_set_connection": [U] if cs == "DEFAULT" else [cn.model["character_set_database"]], "collation_connection": [cn.model["collation_connection"], cn.model["collation_database"]]}
                    if cs == "DEFAULT":
                        sync["character_set_connection"].append(cn.model["character_set_database"])
                        sync["collation_connection"].append(UC)
                    cn.model.update(vals)
                    assigned = True
                elif r.kind != "err":
                    check(charsets.CODEC.get(name.lower().replace("utf8mb3", "utf8")), lambda: f"{sql!r} was accepted", key="accepted")
                    sync = {x: [v, v.lower(), "utf8"] for x, v in vals.items()}
                    sync["character_set_connection"] = [cn.model["character_set_database"]]
                    sync["collation_connection"] = [cn.model["collation_connection"], cn.model["collation_database"]]
                    probe(cn, sync, what)
            elif k == "transaction":
                text, vals = TRANSACTIONS[op["i"] % len(TRANSACTIONS)]
                sql = "SET " + ["", "SESSION "][op["s"] % 2] + "TRANSACTION " + text
                what = sql
                r = cn.query(sql)
                check(r.kind == "ok", lambda: f"{sql!r} answered with {r!r}", key="refused")
                cn.model.update(vals)
                assigned = True
            elif k == "read":
                name = names[op["v"] % len(names)]
                sql = READ[op["i"] % len(READ)].replace("{n}", recase(name, op["case"]))
                v = cn.model[name]
                binary = op["bin"] and not (isinstance(v, int) and abs(v) >= 2 ** 63)
                cn.read(name, sql, binary, "read")
                ctx.nontrivial(assigned)
                what = sql
            elif k == "read_unknown":
                sql = READ[op["i"] % len(READ)].replace("{n}", UNKNOWN[op["v"] % len(UNKNOWN)])
                r = cn.query(sql)
                check(r.kind == "err", lambda: f"{sql!r} answered with {r!r}", key="unknown")
                what = sql
            elif k == "readonly":
                name = [x for x in names if not schema[x][2]][op["v"] % len([x for x in names if not schema[x][2]])]
                form = READONLY_FORMS[op["i"] % len(READONLY_FORMS)].replace("{n}", recase(name, op["case"]))
                r = cn.query(form)
                if "SET_VAR" not in form:
                    check(r.kind == "err", lambda: f"{form!r} answered with {r!r}", key="readonly")
                what = form
            elif k == "now":
                kinds = op["kinds"]
                exprs = [NOWS[x][op["i"] % len(NOWS[x])] for x in kinds]
                sql = "SELECT " + ", ".join(f"{e} AS c{j}" for j, e in enumerate(exprs))
                zone = cn.model["time_zone"]
                tz = op["tz"]
                if op["how"] == "hint":
                    sql = sql.replace("SELECT ", f"SELECT /*+ SET_VAR(time_zone = '{tz}') */ ", 1)
                    zone = tz
                elif op["how"] == "multi":
                    sql = f"SET time_zone = '{tz}'; " + sql
                    zone = tz
                    cn.model["time_zone"] = tz
                lo = utcnow()
                r = cn.query(sql)
                now_ok(cn, r, lo, utcnow(), kinds, zone, f"{sql!r}")
                ctx.nontrivial(op["how"] == "hint" or assigned)
                what = sql
            elif k == "hint":
                ctx.nontrivial()
                what = run_hint(cn, op, schema, names, seen, hold, conns[1 - op.get("c", 0) % 2])
            elif k == "app":
                # variables in application statements
                name = names[op["v"] % len(names)]
                del seen[:]
                sql = f"SELECT a FROM t WHERE b = @@{recase(name, op['case'])}"
                r = cn.query(sql)
                check(r.kind == "rows" and len(seen) == 1, lambda: f"{sql!r} answered with {r!r}", key="app")
                lit = seen[0][1].args["where"].this.expression
                v = cn.model[name]
                back = {"Null": lambda: None, "Boolean": lambda: lit.this, "Literal": lambda: lit.this if lit.is_string else float(lit.this), "Neg": lambda: -float(lit.this.this)}.get(type(lit).__name__, lambda: lit)()
                check(back == v if not isinstance(v, (int, float)) or isinstance(v, bool) else back == float(v), lambda: f"{sql!r} reached the application as {seen[0][1].sql(dialect='mysql')!r} with {name} = {v!r}", key="app-literal")
                for k_, v in seen[0][0].items():
                    check(v == cn.model[k_] and type(v) is type(cn.model[k_]), lambda: f"{sql!r}: the application reads {k_} = {v!r} instead of {cn.model[k_]!r}", key="app-read")
                what = sql
            what = f"step {n}: {what!r}"
            for other in conns:
                if other is cn:
                    other.show(what, sync)
                else:
                    other.show(what + " on another connection")
        for cn in conns:
            r = cn.query("SELECT @@external_user AS e, VERSION() AS v, @@version AS w")
            check(r.kind == "rows" and cn.rows(r) == [[cn.model["external_user"], schema["version"][1], schema["version"][1]]], lambda: f"external_user, version: {r!r} {cn.rows(r) if r.kind == 'rows' else None}", key="version")


TRANSACTIONS = [
    ("READ ONLY", {"transaction_read_only": True}), ("READ WRITE", {"transaction_read_only": False}), ("ISOLATION LEVEL SERIALIZABLE", {"transaction_isolation": "SERIALIZABLE"}),
    ("ISOLATION LEVEL REPEATABLE READ", {"transaction_isolation": "REPEATABLE-READ"}), ("ISOLATION LEVEL READ COMMITTED", {"transaction_isolation": "READ-COMMITTED"}),
    ("ISOLATION LEVEL READ UNCOMMITTED", {"transaction_isolation": "READ-UNCOMMITTED"}), ("ISOLATION LEVEL SERIALIZABLE, READ ONLY", {"transaction_isolation": "SERIALIZABLE", "transaction_read_only": True}),
    ("READ WRITE, ISOLATION LEVEL REPEATABLE READ", {"transaction_isolation": "REPEATABLE-READ", "transaction_read_only": False}),
]
READONLY_FORMS = ["SET {n} = 'x'", "SET SESSION {n} = 'x'", "SET @@{n} = 1", "SET @@SESSION.{n} = 'x'", "SET {n} = DEFAULT", "SET {n} = NULL", "SET LOCAL {n} = 'y'", "SET wait_timeout = wait_timeout, {n} = 'x'", "SET {n} = @@sql_mode",
                  "SELECT /*+ SET_VAR({n} = 'x') */ @@{n}", "SELECT /*+ SET_VAR({n} = 'x') */ a FROM t", "SELECT /*+ SET_VAR(sql_mode = 'q') SET_VAR({n} = 1) */ a FROM t", "SELECT a FROM t WHERE b IN (SELECT /*+ SET_VAR({n} = 'x') */ c FROM u)",
                  "SET GLOBAL {n} = 'x'", "SET PERSIST {n} = 'x'", "SET @@GLOBAL.{n} = 'x'", "SET @@PERSIST.{n} = 'x'"]


def probe(cn, sync, what):
    """Several values of character_set_client/results are possible: find the one the server uses."""
    for var in ("character_set_client", "character_set_results"):
        cand = sync.pop(var, None)
        if cand is None:
            continue
        cand = list(dict.fromkeys([cn.model[var]] + [x for x in cand]))
        real = cn.sess.variables.get(var)
        check(real in cand, lambda: f"after {what}: {var} is {real!r}, acceptable are {cand}", key="value")
        cn.model[var] = real
        check(charsets.CODEC.get(real), lambda: f"after {what}: {var} = {real!r} was accepted", key="accepted")


HINT_STATEMENTS = [
    ("SELECT /*+ {h} */ a FROM t", "app"), ("SELECT /*+ {h} */ {r}", "static"), ("SELECT a FROM t WHERE b IN (SELECT /*+ {h} */ c FROM u)", "app"), ("SELECT /*+ {h} */ a FROM fail_t1", "fail"), ("SELECT /*+ {h} */ a FROM fail_t2", "fail"),
    ("SELECT /*+ {h} */ nosuchcolumn", "fail"), ("SELECT a FROM t UNION SELECT /*+ {h} */ b FROM u", "app"), ("SELECT q.a FROM (SELECT /*+ {h} */ a FROM t) AS q", "app"),
    ("WITH w AS (SELECT /*+ {h} */ a FROM t) SELECT a FROM w", "app"), ("SELECT /*+ {h} */ schema_name FROM information_schema.schemata", "lib"), ("SELECT /*+ {h} */ schema_name FROM information_schema.nosuch", "any"),
    ("SELECT /*+ {h} */ a FROM t; SELECT b FROM u", "app2"), ("SELECT /*+ NO_ICP(t) {h} */ a FROM t", "app"), ("SELECT /*+ {h} MAX_EXECUTION_TIME(1000) */ a FROM t", "app"), ("INSERT INTO t SELECT /*+ {h} */ a FROM u", "app"),
    ("SELECT /*+ {h} */ @@nosuch", "fail"), ("SELECT /*+ {h} */ a FROM t WHERE b = @@nosuch", "fail"),
]


def run_hint(cn, op, schema, names, seen, hold, other):
    text, kind = HINT_STATEMENTS[op["i"] % len(HINT_STATEMENTS)]
    hints, expect, may_err = [], {}, False
    for j, a in enumerate(op["items"]):
        name = a["name"] if "name" in a else names[a["v"] % len(names)]
        val = ("word", a["val"]) if a.get("word") else cn.fit(a["val"]) if isinstance(a["val"], str) else a["val"]
        hints.append(["SET_VAR(%s = %s)", "set_var(%s=%s)", "SET_VAR( %s=%s )"][a["case"] % 3] % (recase(name, a["case"]), cn.fit(a["text"])))
        if name not in schema:
            may_err = True
            continue
        oc = outcomes(name, val, schema)
        if ERR in oc:
            may_err = True
        if isinstance(val, tuple) or val is None or not schema[name][2]:
            may_err = True  # spelling not accepted in hints by MySQL either
        if name in expect:
            expect[name] += [x for x in oc if x is not ERR]
        else:
            expect[name] = [x for x in oc if x is not ERR] or [cn.model[name]]
    rname = next(iter(expect), "sql_mode")
    h = " ".join(hints)
    joined = len(hints) > 1 and op["i"] % 4 == 3
    if joined:
        # several assignments in one SET_VAR, which MySQL itself doesn't know
        h = "SET_VAR(" + ", ".join(x.split("(", 1)[1].rsplit(")", 1)[0] for x in hints) + ")"
    sql = text.replace("{h}", h).replace("{r}", "@@" + rname)
    del seen[:]
    how = op.get("how")
    if how == "kill" and kind == "app":
        hold.append(cn.w.gate("hinted"))
        cn.c.send(wire.com_query(sql.encode(cn.codec("client")), cn.c.caps))
        cn.w.settle()
        other.show(f"{sql!r} running on another connection")
        if hold.pop().waiting:
            r = other.query(f"KILL QUERY {cn.c.hs.connection_id}")
            check(r.kind == "ok", lambda: f"KILL QUERY answered with {r!r}", key="kill")
            r = cn.c.finish()
            check(r.kind == "err", lambda: f"killed {sql!r} answered with {r!r}", key="hint-killed")
            return sql + " (killed)"
        r = cn.c.finish()
    else:
        r = cn.query(sql, how == "prepared" and kind in ("app", "fail", "any"))
    if kind == "fail":
        check(r.kind == "err", lambda: f"{sql!r} answered with {r!r}", key="hint-fail")
    elif r.kind == "err":
        check(may_err or joined or kind == "any", lambda: f"{sql!r} answered with {r!r}", key="hint-refused")
    elif kind in ("app", "app2"):
        check(len(seen) == (2 if kind == "app2" else 1), lambda: f"{sql!r} reached the application {len(seen)} times", key="hint-app")
        for name, v in seen[0][0].items():
            ok = expect.get(name, [cn.model[name]]) + ([cn.model[name]] if may_err else [])
            check(v in ok, lambda: f"{sql!r}: the application reads {name} = {v!r} instead of {ok!r} during the statement", key="hint-value")
        if kind == "app2":
            for name, v in seen[1][0].items():
                check(v == cn.model[name], lambda: f"{sql!r}: the application reads {name} = {v!r} instead of {cn.model[name]!r} during the second statement", key="hint-leak")
    elif kind == "static":
        check(len(r.rows) == 1, lambda: f"{sql!r} answered with {r!r}")
        got = cn.rows(r)[0][0]
        ok = [x for v in expect.get(rname, [cn.model[rname]]) + ([cn.model[rname]] if may_err else []) for x in shown(v)]
        check(got in ok, lambda: f"{sql!r} is {got!r} instead of {ok!r}", key="hint-read")
    return sql


# ----------------------------------------------------------------- generation
def words(ws):
    return [{"text": t, "val": v, "word": not isinstance(v, bool)} for t, v in ws]


def values_for(name, schema):
    base = [{"text": t, "val": v} for t, v in STRINGS + INTS + FLOATS + RESET + RESET] + words(BARE)
    if name in CHARSET_VARS:
        base = [{"text": f"'{x}'", "val": x} for x in GOOD_CS * 2 + BAD_CS] + [{"text": t, "val": v} for t, v in RESET + INTS[:3]]
    elif name in COLL_VARS:
        base = [{"text": f"'{x}'", "val": x} for x in ["latin1_swedish_ci", "utf8mb4_bin", "gbk_bin", "nosuch", "utf8_general_ci"]] + [{"text": t, "val": v} for t, v in RESET]
    elif name == "time_zone":
        base = [{"text": f"'{x}'", "val": x} for x in ZONES * 3 + BAD_ZONES] + [{"text": t, "val": v} for t, v in RESET + INTS[:3]]
    return base


ALLSCHEMA = {**VARS, **CUSTOM}
VALUES = {n: values_for(n, ALLSCHEMA) for n in ALLSCHEMA}


@st.composite
def item(draw, hint=False, custom=False):
    pool = sorted(ALLSCHEMA if custom else VARS)
    which = draw(st.integers(0, 11))
    if which == 0:
        name = draw(st.sampled_from(UNKNOWN))
    elif which < 3 and not hint:
        name = draw(st.sampled_from(sorted(CHARSET_VARS) + ["time_zone"]))
    else:
        name = draw(st.sampled_from([n for n in pool if not (hint and n in CHARSET_VARS)]))
    it = {"name": name, "case": draw(st.integers(0, 3)), "spell": draw(st.integers(0, 8))}
    it.update(draw(st.sampled_from(VALUES.get(name, VALUES["sql_mode"]))))
    if not hint and draw(st.integers(0, 7)) == 0:
        it.pop("word", None)
        it["ref"] = draw(st.integers(0, 38))
    return it


@st.composite
def op(draw, custom=False):
    k = draw(st.sampled_from(["set"] * 5 + ["names", "charset", "transaction", "read", "read", "read_unknown", "readonly", "now", "hint", "hint", "hint", "app"]))
    o = {"op": k, "c": draw(st.integers(0, 1)), "i": draw(st.integers(0, 59)), "case": draw(st.integers(0, 3)), "v": draw(st.integers(0, 59))}
    if k == "set":
        o["items"] = draw(st.lists(item(custom=custom), min_size=1, max_size=3))
    elif k == "hint":
        o["how"] = draw(st.sampled_from(["text", "text", "prepared", "kill"]))
        o["items"] = draw(st.lists(item(hint=True, custom=custom), min_size=1, max_size=3))
    elif k in ("names", "charset"):
        cs = draw(st.sampled_from(GOOD_CS * 3 + [x for x in BAD_CS if x]))
        o["cs"] = draw(st.sampled_from(["DEFAULT", f"'{cs}'", f"'{cs}'", cs if cs.isidentifier() else f"'{cs}'"]))
        o["coll"] = draw(st.sampled_from([None, None, "'utf8mb4_bin'", "latin1_bin", "'nosuch_ci'"])) if o["cs"] != "DEFAULT" else None
    elif k == "transaction":
        o["s"] = draw(st.integers(0, 1))
    elif k == "read":
        o["bin"] = draw(st.booleans())
    elif k == "now":
        o["kinds"] = draw(st.lists(st.sampled_from(["NOW", "DATE", "TIME"]), min_size=1, max_size=3))
        o["how"] = draw(st.sampled_from(["plain", "plain", "hint", "multi"]))
        o["tz"] = draw(st.sampled_from(ZONES))
    return o


@st.composite
def cases(draw):
    custom = draw(st.sampled_from([0, 0, 1, 2]))
    return {"custom": custom, "ops": draw(st.lists(op(custom=bool(custom)), min_size=1, max_size=10))}


def enum_values(tier):
    """Every variable x every value, written in rotating spellings, then read in both protocols, hinted, reset."""
    n = 0
    for name in sorted(VARS):
        vals = VALUES[name]
        uniq = list({v["text"]: v for v in vals}.values())
        for v in uniq:
            n += 1
            idx = NAMES.index(name)
            rd = [{"op": "read", "v": idx, "i": n, "case": n, "bin": b, "c": 0} for b in (False, True)]
            yield {"custom": 0, "ops": [{"op": "set", "items": [{"name": name, "case": n, "spell": n % 9, **v}]}] + rd + [{"op": "hint", "i": n, "items": [{"name": name, "case": n, "spell": 0, **uniq[(n * 7) % len(uniq)]}] if name not in CHARSET_VARS
                  else [{"name": "sql_mode", "case": 0, "spell": 0, "text": "'h'", "val": "h"}]}, rd[0], {"op": "app", "v": idx, "case": n}, {"op": "set", "items": [{"name": name, "case": n, "spell": n % 5, "text": "DEFAULT", "val": None}]}
                   if VARS[name][2] else {"op": "readonly", "v": n, "i": n, "case": n}, rd[1]]}
    for ro in range(len(READONLY)):
        for i in range(len(READONLY_FORMS)):
            for c in range(4):
                yield {"custom": 0, "ops": [{"op": "readonly", "v": ro, "i": i, "case": c}, {"op": "read", "v": NAMES.index(READONLY[ro]), "i": 0, "case": 0, "bin": False}]}


def enum_hints(tier):
    """Every hinted statement shape x every variable, and pairs of hints with unknown/read-only names first or last."""
    n = 0
    for i in range(len(HINT_STATEMENTS)):
        for name in PLAIN + ["time_zone"]:
            n += 1
            good = [v for v in VALUES[name] if v["val"] is not None and not v.get("word") and ERR not in outcomes(name, v["val"], VARS)]
            one = {"name": name, "case": n, "spell": 0, **good[n % len(good)]}
            before = {"op": "set", "items": [{"name": name, "case": 0, "spell": 0, **good[(n // 3) % len(good)]}]}
            extra = [{"name": ["nosuch", "version", "license", "sql_mode"][n % 4], "case": 0, "spell": 0, "text": "'x'", "val": "x"}]
            for items in ([one], [one] + extra, extra + [one]):
                yield {"custom": 0, "ops": ([before] if n % 2 else []) + [{"op": "hint", "i": i, "items": items, "how": ["text", "prepared", "kill"][(n // 2) % 3]}, {"op": "read", "v": NAMES.index(name), "i": 0, "case": 0, "bin": False}]}


def enum_zones(tier):
    for zi, z in enumerate(ZONES):
        for how in ("plain", "hint", "multi"):
            for i in range(6):
                yield {"custom": 0, "ops": [{"op": "set", "items": [{"name": "time_zone", "case": i, "spell": i, "text": f"'{z}'", "val": z}]}, {"op": "now", "kinds": ["NOW", "DATE", "TIME"], "i": i, "how": how, "tz": ZONES[(zi + i + 1) % len(ZONES)]},
                                            {"op": "now", "kinds": ["NOW", "DATE", "TIME"], "i": i + 1, "how": "plain", "tz": z}]}


def enum_charsets(tier):
    for cs in sorted(set(charsets.COLLATIONS)) + BAD_CS:
        if not cs:
            continue
        for k in ("names", "charset", "set", "both"):
            ops = {"names": [{"op": "names", "cs": f"'{cs}'", "coll": None}], "charset": [{"op": "charset", "cs": f"'{cs}'", "i": 0}],
                   "set": [{"op": "set", "items": [{"name": "character_set_results", "case": 0, "spell": 0, "text": f"'{cs}'", "val": cs}]}],
                   "both": [{"op": "set", "items": [{"name": "character_set_client", "case": 0, "spell": 3, "text": f"'{cs}'", "val": cs}]}, {"op": "names", "cs": "'latin1'", "coll": None}]}[k]
            yield {"custom": 0, "ops": ops + [{"op": "read", "v": NAMES.index("sql_mode"), "i": 3, "case": 0, "bin": False}, {"op": "read_unknown", "v": 0, "i": 0}, {"op": "read", "v": NAMES.index("character_set_client"), "i": 0, "case": 0, "bin": True},
                                             {"op": "names", "cs": "DEFAULT", "coll": None}]}


CAMPAIGNS = [
    Campaign("values", run, enum=enum_values, cpu=30),
    Campaign("hints", run, enum=enum_hints, cpu=30),
    Campaign("zones", run, enum=enum_zones, cpu=30),
    Campaign("charsets", run, enum=enum_charsets, cpu=30),
    Campaign("histories", run, strategy=cases, quick=1500, thorough=60000, cpu=60),
]
