"""C13 - the application sees exactly the statements it must handle, once, in order."""
import asyncio
import re

from hypothesis import strategies as st

import wire
from runner import Campaign
from world import App, World, check

from sqlglot.dialects import MySQL
from mysql_mimic.errors import MysqlError



class Dialect(MySQL):
    class Tokenizer(MySQL.Tokenizer):
        IDENTIFIER_ESCAPES = ["`"]


PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("cases = histories of statement lists and database selections on two interleaved connections; statements come from ~150 templates (session control, FROM-less SELECTs, catalog queries, application "
        "SELECT/JOIN/subquery/CTE/UNION/DML/DDL/EXPLAIN/commands) whose table references are drawn from user and catalog databases in every spelling, with randomised letter case, comments, separators and quoted "
        "semicolons, sent by COM_QUERY, prepared execution (repeated) or cursors; every statement carries a unique marker; the intended routing follows from the template and the databases its references resolve "
        "to; compared: sequence of application calls (marker, parsed statement, original text, attributes, default database), the response (known result of the last statement); non-trivial = an application "
        "statement and a library statement occur in the history, or a query whose tables are unqualified or belong to both kinds of databases")
ASSUMPTIONS = ["statements sqlglot cannot parse are not generated", "an ERR of a library statement (unsupported form) is generated in last position only and accepted there; it must not reach the application",
               "UNIONs of FROM-less SELECTs, EXPLAIN <table>, SELECT ... FROM DUAL are not generated (the statement does not say whom they belong to)"]

CATALOGS = {"information_schema", "mysql"}
SCHEMA = {"d1": {"t1": {"a": "int", "b": "int"}, "tables": {"a": "int", "b": "int"}, "user": {"a": "int", "b": "int"}}, "d2": {"t2": {"a": "int", "b": "text"}}, "information_schema2": {"t1": {"a": "int"}}}
USER_REFS = [["", "t1"], ["", "`t``x`"], ["d1", "t1"], ["d1", "tables"], ["`d1`", "`user`"], ["d2", "t2"], ["information_schema2", "t1"], ["`mysql `", "user"], ["xmysql", "user"], ["def.d1", "t1"]]
CAT_REFS = [["information_schema", "tables"], ["INFORMATION_SCHEMA", "COLUMNS"], ["`information_schema`", "`schemata`"], ["mysql", "user"], ["mysql", "procs_priv"], ["Information_Schema", "Tables"]]
AMBI_REFS = [["", "tables"], ["", "user"], ["", "schemata"], ["", "`columns`"]]

# {m} = marker; {0},{1} table references
QUERIES = [
    "SELECT x.a, '{m}' AS mk FROM {0} AS x",
    "SELECT '{m}' AS mk FROM {0}",
    "SELECT x.a, '{m}' AS mk FROM {0} AS x JOIN {1} AS y ON x.a = y.a",
    "SELECT x.a, '{m}' AS mk FROM {0} AS x LEFT JOIN {1} y ON x.a = y.b WHERE y.a IS NULL",
    "SELECT x.a, '{m}' AS mk FROM {0} AS x, {1} AS y",
    "SELECT '{m}' AS mk FROM {0}, {1}",
    "SELECT '{m}' AS mk, 1 FROM {0} CROSS JOIN {1}",
    "SELECT x.a, '{m}' AS mk FROM {0} AS x WHERE x.a IN (SELECT b FROM {1})",
    "SELECT x.a, '{m}' AS mk FROM {0} x WHERE EXISTS (SELECT 1 FROM {1} y WHERE y.a = x.a)",
    "SELECT a, '{m}' AS mk FROM {0} UNION SELECT b, 'z' FROM {1}",
    "SELECT a, '{m}' AS mk FROM {0} UNION ALL SELECT 1, 'z' UNION ALL SELECT b, 'z' FROM {1}",
    "SELECT 1, '{m}' AS mk UNION SELECT b, 'z' FROM {0}",
    "(SELECT a, '{m}' AS mk FROM {0}) UNION (SELECT b, 'z' FROM {1}) ORDER BY 1 LIMIT 3",
    "SELECT (SELECT MAX(b) FROM {1}) AS q, '{m}' AS mk FROM {0}",
    "SELECT (SELECT MAX(b) FROM {0}) AS q, '{m}' AS mk",
    "SELECT '{m}' AS mk, EXISTS(SELECT 1 FROM {0})",
    "SELECT '{m}' AS mk, 1 IN (SELECT a FROM {0} UNION SELECT b FROM {1})",
    "SELECT CONCAT('{m}', (SELECT a FROM {0} LIMIT 1)) AS mk LIMIT 1",
    "WITH w AS (SELECT a FROM {0}) SELECT w.a, '{m}' AS mk FROM w JOIN {1} y ON y.a = w.a",
    "WITH w AS (SELECT a FROM {0}) SELECT w.a, '{m}' AS mk FROM w",
    "WITH tables AS (SELECT a FROM {0}) SELECT a, '{m}' AS mk FROM tables",
    "WITH w AS (SELECT a FROM {0}), v AS (SELECT a FROM w) SELECT '{m}' AS mk FROM v",
    "WITH w AS (SELECT a FROM {0}) SELECT '{m}' AS mk",
    "SELECT '{m}' AS mk, q.a FROM (SELECT a FROM {0}) AS q LEFT JOIN {1} y ON q.a = y.a",
    "SELECT '{m}' AS mk, q.a FROM (SELECT z.a FROM (SELECT a FROM {0}) AS z) AS q",
    "SELECT x.a, '{m}' AS mk FROM {0} AS x ORDER BY (SELECT b FROM {1} AS y LIMIT 1)",
    "SELECT x.a, '{m}' AS mk, COUNT(*) FROM {0} AS x GROUP BY x.a HAVING COUNT(*) > (SELECT MIN(a) FROM {1} y)",
    "SELECT DISTINCT a, '{m}' AS mk FROM {0} WHERE b = 'a;b' LIMIT 5",
    "SELECT a, '{m}' AS mk FROM {0} WHERE b = 'it''s; -- no' OR b = \"x;\\\"y\" OR b = 'q\\';'",
    "SELECT a AS `a;b`, '{m}' AS mk FROM {0}",
    "(SELECT a, '{m}' AS mk FROM {0})",
    "((SELECT a, '{m}' AS mk FROM {0}))",
    "SELECT a, '{m}' AS mk FROM {0} FOR UPDATE",
    "SELECT CASE WHEN a IN (SELECT a FROM {1}) THEN 1 ELSE '{m}' END AS mk FROM {0}",
    "SELECT '{m}' AS mk FROM ({0} x JOIN {1} y ON x.a = y.a)",
    "SELECT x.a, '{m}' AS mk FROM {0} AS x WHERE x.a = (SELECT MAX(q.a) FROM (SELECT a FROM {1}) q)",
    # many tables
    "SELECT x.a, '{m}' AS mk FROM {0} x JOIN {0} y ON x.a = y.a JOIN {1} z ON z.a = y.a",
    "SELECT x.a, '{m}' AS mk FROM {0} x, {0} y, {0} z, {1} v, {0} u",
    "SELECT x.a, '{m}' AS mk FROM {0} AS x JOIN {0} AS y ON x.a = y.a AND EXISTS (SELECT 1 FROM {1} AS z WHERE z.a = y.a)",
    "SELECT a, '{m}' AS mk FROM {0} WHERE a IN (SELECT b FROM {0} WHERE a IN (SELECT b FROM {0} WHERE a IN (SELECT b FROM {1})))",
    "SELECT a, '{m}' AS mk FROM {0} UNION ALL SELECT a, 'z' FROM {0} UNION ALL SELECT a, 'z' FROM {0} UNION ALL SELECT a, 'z' FROM {1}",
    "WITH w AS (SELECT a FROM {0}), v AS (SELECT a FROM {0}), u AS (SELECT w.a FROM w JOIN v ON w.a = v.a) SELECT u.a, '{m}' AS mk FROM u JOIN {1} y ON y.a = u.a",
    "SELECT q.a, '{m}' AS mk FROM (SELECT a FROM {0}) AS q JOIN (SELECT a FROM {0}) AS r ON q.a = r.a JOIN (SELECT a FROM {1} UNION SELECT a FROM {0}) AS s ON s.a = q.a",
    "SELECT '{m}' AS mk, (SELECT MAX(a) FROM {0}), (SELECT MAX(a) FROM {0}), (SELECT MAX(a) FROM {1})",
]
# must reach the application whatever database is current and whatever they touch
APP = [
    "INSERT INTO {0} VALUES ('{m}', 'a;b')", "INSERT INTO {0} (a, b) VALUES (1, '{m}'), (2, 'x')", "INSERT INTO {0} SELECT a, '{m}' FROM {1}", "UPDATE {0} SET a = '{m}' WHERE b = 1",
    "UPDATE {0} SET a = '{m}' WHERE b IN (SELECT b FROM {1})", "DELETE FROM {0} WHERE a = '{m}'", "REPLACE INTO {0} VALUES ('{m}', 'a;b')", "TRUNCATE TABLE {m}", "CREATE TABLE {m} (a INT, b TEXT)",
    "CREATE TABLE {m} AS SELECT a FROM {0}", "DROP TABLE {m}", "DROP TABLE IF EXISTS d1.{m}", "ALTER TABLE {m} ADD COLUMN c INT", "CREATE VIEW {m} AS SELECT a FROM {0}", "CREATE DATABASE {m}", "DROP DATABASE {m}",
    "CREATE INDEX {m} ON t1 (a)", "CALL p('{m}', ';')", "CALL {m}()", "GRANT SELECT ON {m} TO u", "LOCK TABLES {m} READ", "ANALYZE TABLE {m}", "OPTIMIZE TABLE {m}", "CREATE USER {m}",
    "EXPLAIN SELECT a, '{m}' FROM {u0}", "EXPLAIN UPDATE {u0} SET a = '{m}'", "EXPLAIN FORMAT=JSON SELECT a, '{m}' FROM {u0}", "EXPLAIN ANALYZE SELECT a, '{m}' FROM {u0}", "EXPLAIN DELETE FROM {u0} WHERE a = '{m}'",
    "DESCRIBE SELECT a, '{m}' FROM {u0}", "DESC SELECT a, '{m}' FROM {u0} WHERE b IN (SELECT b FROM {u1})", "DESCRIBE SELECT a, '{m}' FROM {u0} UNION SELECT b, 1 FROM {u1}",
]
# FROM-less SELECTs: (text, columns or None, row or None, may fail)
STATIC = [
    ("SELECT '{m}' AS mk", ["mk"], ["{m}"]), ("SELECT 1", ["1"], ["1"]), ("SELECT 1 + 1 AS two, '{m}' AS mk", ["two", "mk"], ["2", "{m}"]), ("SELECT '{m}' AS mk LIMIT 1", ["mk"], ["{m}"]),
    ("SELECT '{m}' AS mk, NULL AS n", ["mk", "n"], ["{m}", None]), ("SELECT CONCAT('{m}', ';') AS mk", ["mk"], ["{m};"]), ("SELECT 'a;b' AS mk, \"{m}\" AS `x;y`", ["mk", "x;y"], ["a;b", "{m}"]),
    ("SELECT @@version_comment AS c, '{m}' AS mk", ["c", "mk"], ["mysql-mimic", "{m}"]), ("SELECT @@SESSION.autocommit + 0 AS c", ["c"], None), ("SELECT NOW() AS n", ["n"], None), ("SELECT USER() AS u", ["u"], None),
    ("SELECT DATABASE() AS d", ["d"], "db"), ("SELECT SCHEMA() AS d, '{m}' AS mk", ["d", "mk"], "db"), ("SELECT CURRENT_USER AS u", ["u"], None), ("SELECT CONNECTION_ID() AS i", ["i"], None),
    ("SELECT VERSION() AS v", ["v"], None), ("SELECT CASE WHEN 1 = 1 THEN '{m}' ELSE 'n' END AS mk", ["mk"], ["{m}"]), ("SELECT DISTINCT '{m}' AS mk", ["mk"], ["{m}"]), ("SELECT '{m}' AS mk WHERE 1 = 1", ["mk"], ["{m}"]),
    ("SELECT '{m}' AS mk ORDER BY 1", ["mk"], ["{m}"]), ("SELECT '{m}' AS mk ORDER BY mk DESC LIMIT 1", ["mk"], ["{m}"]), ("(SELECT '{m}' AS mk)", ["mk"], ["{m}"]), ("SELECT IF(1 > 0, '{m}', 'n') AS mk", ["mk"], ["{m}"]),
    ("SELECT /*+ SET_VAR(sql_mode = 'X') */ '{m}' AS mk", ["mk"], ["{m}"]), ("SELECT '{m}' AS mk FOR UPDATE", ["mk"], ["{m}"]), ("SELECT '{m}' AS mk HAVING 1 = 1", ["mk"], ["{m}"]),
]
STATIC_ODD = ["SELECT COUNT(*), '{m}' AS mk", "SELECT '{m}' AS mk GROUP BY 1", "SELECT (SELECT '{m}') AS mk", "SELECT '{m}' AS mk, EXISTS(SELECT 1)", "SELECT ROW_NUMBER() OVER () AS r, '{m}' AS mk", "SELECT unknown_function('{m}')",
              "SELECT MAX('{m}') AS mk", "SELECT nosuchcolumn, '{m}' AS mk", "SELECT '{m}' AS mk LIMIT 1 OFFSET 1", "SELECT '{m}' AS mk WHERE 1 = 1 GROUP BY mk HAVING COUNT(*) > 0 ORDER BY mk"]
# (text, columns, rows)
KNOWN = [
    ("SELECT schema_name AS s, '{m}' AS mk FROM information_schema.schemata WHERE schema_name = 'd1'", ["s", "mk"], [["d1", "{m}"]]),
    ("SELECT x.table_name AS t, '{m}' AS mk FROM INFORMATION_SCHEMA.TABLES AS x WHERE x.table_schema = 'd2'", ["t", "mk"], [["t2", "{m}"]]),
    ("SELECT c.column_name AS c, '{m}' AS mk FROM information_schema.columns c JOIN information_schema.tables t ON c.table_name = t.table_name AND c.table_schema = t.table_schema WHERE t.table_schema = 'information_schema2'", ["c", "mk"],
     [["a", "{m}"]]),
    ("SELECT '{m}' AS mk FROM mysql.user", ["mk"], []),
    ("SELECT q.s AS s, '{m}' AS mk FROM (SELECT schema_name AS s FROM information_schema.schemata) AS q WHERE q.s = 'd2'", ["s", "mk"], [["d2", "{m}"]]),
    ("WITH w AS (SELECT schema_name AS s FROM `information_schema`.`schemata`) SELECT w.s AS s, '{m}' AS mk FROM w WHERE w.s = 'd1'", ["s", "mk"], [["d1", "{m}"]]),
]
KNOWN_IS = [  # with information_schema as the default database
    ("SELECT schema_name AS s, '{m}' AS mk FROM schemata WHERE schema_name = 'd1'", ["s", "mk"], [["d1", "{m}"]]),
    ("SELECT table_name AS t, '{m}' AS mk FROM TABLES WHERE table_schema = 'd2'", ["t", "mk"], [["t2", "{m}"]]),
    ("SELECT c.column_name AS c, '{m}' AS mk FROM columns c JOIN tables t ON c.table_name = t.table_name AND c.table_schema = t.table_schema JOIN schemata s ON s.schema_name = t.table_schema "
     "WHERE t.table_schema = 'information_schema2'", ["c", "mk"], [["a", "{m}"]]),
    ("SELECT c.column_name AS c, '{m}' AS mk FROM columns c JOIN information_schema.tables t ON c.table_name = t.table_name AND c.table_schema = t.table_schema WHERE t.table_schema = 'information_schema2'", ["c", "mk"], [["a", "{m}"]]),
    ("SELECT schema_name AS s, '{m}' AS mk FROM schemata WHERE schema_name IN (SELECT table_schema FROM tables WHERE table_name IN (SELECT table_name FROM columns WHERE column_name = 'a' AND table_name = 't2'))", ["s", "mk"], None),
]
SHOWS = [
    ("SHOW DATABASES", ["Database"]), ("SHOW SCHEMAS", ["Database"]), ("SHOW DATABASES LIKE 'd%'", ["Database"]), ("SHOW TABLES FROM d1", None), ("SHOW FULL TABLES FROM d1", None), ("SHOW COLUMNS FROM t1 FROM d1", None),
    ("SHOW FULL COLUMNS FROM t1 FROM d1", None), ("SHOW VARIABLES", ["Variable_name", "Value"]), ("SHOW SESSION VARIABLES LIKE 'sql_mode'", ["Variable_name", "Value"]), ("SHOW GLOBAL VARIABLES LIKE 'x;y'", ["Variable_name", "Value"]),
    ("SHOW WARNINGS", ["Level", "Code", "Message"]), ("SHOW ERRORS", ["Level", "Code", "Message"]), ("SHOW STATUS", ["Variable_name", "Value"]), ("SHOW INDEX FROM t1 FROM d1", None), ("SHOW TABLES FROM information_schema", None),
]
SHOW_ODD = ["SHOW CREATE TABLE t1", "SHOW GRANTS", "SHOW FIELDS FROM t1", "SHOW KEYS FROM t1", "SHOW INDEXES FROM t1", "SHOW FOO 'a;b'", "SHOW PROCESSLIST", "SHOW ENGINES", "SHOW COLLATION", "SHOW COUNT(*) WARNINGS", "SHOW TABLE STATUS",
            "SHOW PLUGINS", "SHOW TRIGGERS", "SHOW EXTENDED FULL COLUMNS FROM t1", "SHOW CHARACTER SET", "SHOW MASTER STATUS", "show fields from `t1`", "SHOW VARIABLES WHERE variable_name = 'x'", "SHOW TABLES"]
OKS = [
    "SET sql_mode = '{m}'", "SET @@session.sql_mode = '{m}'", "SET SESSION wait_timeout = 100, sql_mode = 'a;b'", "SET autocommit = 1", "SET @@autocommit = OFF", "SET NAMES utf8mb4", "SET NAMES 'utf8mb4' COLLATE 'utf8mb4_bin'",
    "SET CHARACTER SET utf8mb4", "SET SESSION TRANSACTION READ ONLY", "SET TRANSACTION ISOLATION LEVEL READ COMMITTED", "SET time_zone = '+00:00'", "SET LOCAL net_write_timeout = DEFAULT",
    "BEGIN", "BEGIN WORK", "START TRANSACTION", "START TRANSACTION READ ONLY", "COMMIT", "COMMIT WORK", "COMMIT AND CHAIN", "ROLLBACK", "ROLLBACK WORK", "ROLLBACK TO SAVEPOINT x",
]
SET_ODD = ["SET ROLE x", "SET @u = 1", "SET @u := '{m}'", "SET GLOBAL sql_mode = '{m}'", "SET PASSWORD = '{m}'", "SET sql_mode := '{m}'", "SET nosuch = 1", "SET DEFAULT ROLE a TO b", "SET RESOURCE GROUP x", "SET version = '{m}'",
           "SET PERSIST sql_mode = 'x'", "SET sql_mode = (SELECT a FROM t1)", "set role 'a;b'", "SET GLOBAL TRANSACTION READ ONLY"]
DESCS = ["DESCRIBE t1", "DESC t1", "DESCRIBE d1.t1", "DESC `t1`", "DESC d1.`tables`"]
DESC_ODD = ["DESCRIBE nosuch", "DESC `we``ird; name`", "DESCRIBE `t1 from d2`", "DESC `'`"]
DBS = ["d1", "d2", "information_schema", "INFORMATION_SCHEMA", "mysql", "nosuch", "Information_Schema", "we`ird;x", "\u00e9\u4e2d", "information_schema2", "d1"]
SEPS = [";", " ; ", ";\n", ";;", "; /* a;b 'x */ ", ";\n-- c;'\n", "; # c;'\n", ";/**/", " -- t;'\n;"]
HEADS = ["", "", "", " ", "\n\t", "/* x;y */ ", "-- c\n", ";", "# '\n"]
TAILS = ["", "", ";", ";;", " ; ", "; -- end", "; /* x */", " -- end;'", " /* ; */", ";\n# c", "; -- a\n; -- b", ";/* a */;"]


def quote(db):
    return "`" + db.replace("`", "``") + "`"


def recase(sql, how):
    """Change the letter case of key words outside quotes (the templates write only those in upper case)."""
    if how == 0:
        return sql
    out = []
    for tok in re.split(r"('(?:[^'\\]|\\.|'')*'|\"(?:[^\"\\]|\\.)*\"|`(?:[^`]|``)*`)", sql):
        if tok[:1] in "'\"`" and tok:
            out.append(tok)
        else:
            out.append(re.sub(r"\b[A-Z]{2,}\b", (lambda m: m.group().lower()) if how == 1 else (lambda m: m.group().capitalize()), tok))
    return "".join(out)


class Built:
    def __init__(self, sql, route, expect=None, marker=None, show=None, db=None, plain=True):
        self.sql, self.route, self.expect, self.marker, self.db, self.plain = sql, route, expect, marker, db, plain


def resolve(ref, cur):
    db = ref[0].split(".")[-1]
    if db.startswith("`"):
        db = db[1:-1]
    return (db or cur or "").lower() in CATALOGS


def refsql(ref):
    return ref[1] if not ref[0] else f"{ref[0]}.{ref[1]}"


def build(spec, cur, n, w):
    """spec -> Built, given the database current when the statement runs."""
    kind, i = spec["k"], spec["i"]
    m = f"mark{n}x"
    refs = spec.get("refs", [])
    fm = lambda t: t.replace("{m}", m).replace("{0}", refsql(refs[0]) if refs else "").replace("{1}", refsql(refs[1]) if refs else "")
    case = spec.get("case", 0)
    if kind == "query":
        t = QUERIES[i % len(QUERIES)]
        used = [r for r, p in zip(refs, ("{0}", "{1}")) if p in t]
        lib = all(resolve(r, cur) for r in used)
        w.mixed |= len({resolve(r, cur) for r in used}) > 1 or any(not r[0] for r in used)
        if lib:
            return Built(recase(fm(t), case), "lib", ("any",), m)
        return Built(recase(fm(t), case), "app", None, m)
    if kind == "app":
        t = APP[i % len(APP)]
        u = spec["urefs"]
        return Built(recase(fm(t).replace("{u0}", refsql(u[0])).replace("{u1}", refsql(u[1])), case), "app", None, m)
    if kind == "hint":
        return Built(f"SELECT /*+ SET_VAR(sql_mode = '{m}') */ a, '{m}' AS mk FROM d1.t1", "app", None, m, plain=False)
    if kind == "static":
        t, cols, row = STATIC[i % len(STATIC)]
        if row == "db":
            row = [cur or None] + ([m] if len(cols) > 1 else [])
        elif row:
            row = [x and x.replace("{m}", m) for x in row]
        return Built(recase(fm(t), case), "lib", ("rows", cols, [row] if row else None), m)
    if kind == "static_odd":
        return Built(recase(fm(STATIC_ODD[i % len(STATIC_ODD)]), case), "lib", ("any",), m)
    if kind == "known":
        table = KNOWN + KNOWN_IS if (cur or "").lower() == "information_schema" else KNOWN
        t, cols, rows = table[i % len(table)]
        return Built(fm(t), "lib", ("any",) if rows is None else ("rows", cols, [[x.replace("{m}", m) for x in r] for r in rows]), m)
    if kind == "show":
        t, cols = SHOWS[i % len(SHOWS)]
        return Built(recase(t, case), "lib", ("rows", cols, None), None)
    if kind == "ok":
        return Built(recase(fm(OKS[i % len(OKS)]), case), "lib", ("ok",), None)
    if kind == "odd":
        t = (SHOW_ODD + SET_ODD)[i % len(SHOW_ODD + SET_ODD)]
        return Built(fm(t), "lib", ("any",), None)
    if kind == "desc":
        return Built(recase((DESCS + DESC_ODD)[i % len(DESCS + DESC_ODD)], case), "lib", ("any",), None)
    if kind == "kill":
        v = w.login()
        w.victims.append(v)
        return Built(recase(["KILL %d", "KILL CONNECTION %d", "KILL QUERY %d"][i % 3], case) % v.hs.connection_id, "lib", ("ok",), None)
    if kind == "use":
        db = DBS[i % len(DBS)]
        return Built("%s %s" % (["USE", "use", "Use"][case], quote(db) if i % 2 or not db.isidentifier() or not db.isascii() else db), "lib", ("ok",), None, db=db)
    raise AssertionError(kind)


def attr(name, value):
    return wire.P(wire.T_VAR_STRING, wire.lenstr(value.encode()), name=name.encode())


def same_db(a, b):
    return (a or "") == (b or "")


def run(case, ctx):
    calls = []
    count = [0]

    async def query(s, e, sql, attrs):
        text = e.sql(dialect=Dialect, comments=False)
        mk = re.search(r"mark\d+x", text)
        count[0] += 1
        calls.append({"conn": s.idx, "text": text, "mk": mk and mk.group(), "sql": sql, "attrs": dict(attrs), "db": s.database, "n": count[0]})
        n = count[0]
        if case.get("slow"):
            await asyncio.sleep(0)
        if mk and mk.group() in fail:
            raise MysqlError("app failure") if n % 2 else RuntimeError("app failure")
        if re.match(r"SELECT|\(|WITH", text):
            return [(mk and mk.group(), n)], ["mk", "n"]
        return None if n % 2 else ([(mk and mk.group(), n)], ["mk", "n"])

    fail = set()
    with World(app=App(query=query, schema=lambda s: SCHEMA)) as w:
        w.victims, w.mixed = [], False
        conns, dbs = [], []
        for db in case["dbs"]:
            c = w.client()
            r = c.login(db=None if db is None else DBS[db].encode())
            check(r.kind == "ok", "login failed")
            conns.append(c)
            dbs.append(None if db is None else DBS[db])
        sessions = list(w.sessions)
        seen = {"app": 0, "lib": 0}
        marker = 0
        for op in case["ops"]:
            ci = op.get("c", 0) % len(conns)
            c, cur = conns[ci], dbs[ci]
            k = op["op"]
            del calls[:]
            if k == "init_db":
                db = DBS[op["i"] % len(DBS)]
                r = c.cmd(wire.com_init_db(db.encode()))
                check(r.kind == "ok", lambda: f"COM_INIT_DB answered with {r!r}")
                dbs[ci] = db
                check(not calls, lambda: f"COM_INIT_DB reached the application's query callback: {calls}")
            elif k == "change_user":
                db = None if op["i"] % 3 == 0 else DBS[op["i"] % len(DBS)]
                r = c.cmd(wire.change_user(c.caps, b"u2" if op["i"] % 2 else b"u", b"", (db or "").encode(), 45, b"mysql_native_password"))
                check(r.kind == "ok", lambda: f"COM_CHANGE_USER answered with {r!r}")
                dbs[ci] = db
                check(not calls, lambda: f"COM_CHANGE_USER reached the application's query callback: {calls}")
            elif k in ("reset", "ping"):
                r = c.cmd(wire.RESET_CONNECTION if k == "reset" else wire.PING)
                check(r.kind == "ok", lambda: f"{k} answered with {r!r}")
                check(not calls, lambda: f"{k} reached the application's query callback: {calls}")
            else:
                # build the text; stop at the first statement that may fail in the library
                built = []
                for spec in op["stmts"]:
                    marker += 1
                    b = build(spec, cur, marker, w)
                    if spec.get("fail") and b.route == "app":
                        fail.add(b.marker)
                    built.append((b, cur))
                    if b.db is not None:
                        cur = b.db
                    if b.expect == ("any",) and b.route == "lib":
                        break
                text = HEADS[op["head"] % len(HEADS)]
                for j, (b, _) in enumerate(built):
                    text += (SEPS[(op["sep"] + j * 3) % len(SEPS)] if j else "") + b.sql
                text += TAILS[op["tail"] % len(TAILS)]
                attrs = {"k%d" % j: "v;%d" % j for j in range(op["attrs"])}
                plist = [attr(a, v) for a, v in attrs.items()]
                how = op["how"]
                rounds = 1
                if how != "query":
                    p = c.prepare(text)
                    check(p.kind == "prepare", lambda: f"preparing {text!r} was answered with {p!r}")
                    check(not calls, lambda: f"preparing {text!r} reached the application: {calls}", key="prepare")
                    rounds = 2 if how == "exec2" and same_db(cur, dbs[ci]) else 1
                for rnd in range(rounds):
                    del calls[:]
                    expect = []
                    failed = False
                    cur2 = dbs[ci]
                    for b, _ in built:
                        if b.route == "app":
                            expect.append((b, cur2))
                            if b.marker in fail:
                                failed = True
                                break
                        if b.db is not None:
                            cur2 = b.db
                    if how == "query":
                        r = c.cmd(wire.com_query(text.encode(), c.caps, plist))
                    else:
                        r = c.cmd(wire.com_stmt_execute(p.stmt_id, c.caps, [], plist, 1 if how == "cursor" else 0))
                    self_calls = list(calls)
                    what = f"{how} {text!r} (default database {dbs[ci]!r})"
                    exp_m, got_m = [b.marker for b, _ in expect], [x["mk"] for x in self_calls]
                    check(exp_m == got_m, lambda: f"{what}: the application was called for {[(x['mk'], x['text']) for x in self_calls]}, it must handle {[(b.marker, b.sql) for b, _ in expect]}", key="routing")
                    for (b, d), x in zip(expect, self_calls):
                        check(x["sql"] == text, lambda: f"{what}: the application got the text {x['sql']!r}", key="text")
                        check(x["attrs"] == attrs, lambda: f"{what}: the application got the attributes {x['attrs']!r} instead of {attrs!r}", key="attrs")
                        check(same_db(x["db"], d), lambda: f"{what}: the application observed the default database {x['db']!r} instead of {d!r} when handling {b.sql!r}", key="database")
                        check(x["conn"] == sessions[ci].idx, "a statement reached another connection's session", key="session")
                        if b.plain:
                            alone = Dialect().parse(b.sql)[0].sql(dialect=Dialect, comments=False)
                            check(x["text"] == alone or x["text"].startswith((alone + " --", alone + " /*", alone + " #")), lambda: f"{what}: {b.sql!r} reached the application as {x['text']!r}", key="expression")
                    # the response belongs to the last statement
                    last = built[-1][0]
                    cursor = how == "cursor" and r.kind == "rows" and r.cursor
                    if cursor:
                        f = c.cmd(wire.com_stmt_fetch(p.stmt_id, 1000000))
                        f_rows, cols = f.rows, r.cols
                        check(not calls[len(self_calls):], "fetching called the application")
                    else:
                        f_rows, cols = r.rows, r.cols
                    if failed:
                        check(r.kind == "err", lambda: f"{what}: a statement failed in the application, the response is {r!r}", key="err")
                    else:
                        rows = None
                        if r.kind == "rows":
                            rows = [wire.text_row(q, len(cols)) if how == "query" else wire.binary_row(q, cols) for q in f_rows]
                            rows = [[v if v is None else v.decode() if isinstance(v, bytes) else str(v) for v in row] for row in rows]
                        names = [col.name.decode() for col in cols]
                        if last.route == "app":
                            x = self_calls[-1]
                            if re.match(r"SELECT|\(|WITH", x["text"]) or x["n"] % 2 == 0:
                                check(r.kind == "rows" and names == ["mk", "n"] and rows == [[last.marker, str(x["n"])]], lambda: f"{what}: the result is {r!r} {rows!r}, not that of the last statement", key="result")
                            else:
                                check(r.kind == "ok", lambda: f"{what}: answered with {r!r}", key="result")
                        elif last.expect[0] == "ok":
                            check(r.kind == "ok", lambda: f"{what}: answered with {r!r} {rows!r}", key="result")
                        elif last.expect[0] == "rows":
                            check(r.kind == "rows", lambda: f"{what}: answered with {r!r}", key="result")
                            check(last.expect[1] is None or names == last.expect[1], lambda: f"{what}: answered with the columns {names}", key="result")
                            if last.sql.upper().startswith(("SELECT DATABASE", "SELECT SCHEMA")):
                                rows = [[rows[0][0] or None] + rows[0][1:]]  # no default database: NULL or ''
                            check(last.expect[2] is None or rows == last.expect[2], lambda: f"{what}: answered with the rows {rows}", key="result")
                        else:
                            check(r.kind in ("rows", "ok", "err"), lambda: f"{what}: answered with {r!r}", key="result")
                    done = built
                    if failed:
                        done = built[:1 + [b.marker for b, _ in built].index(expect[-1][0].marker)]
                    for b, _ in done:
                        if b.db is not None:
                            dbs[ci] = b.db
                    for b, _ in done:
                        seen[b.route] += 1
                        ctx.tag(b.route + ":" + how)
                if how != "query":
                    c.cmd(wire.com_stmt_close(p.stmt_id))
            # what the application and the client consider the default database
            for j, cc in enumerate(conns):
                check(same_db(sessions[j].database, dbs[j]), lambda: f"after {op}: the application observes the default database {sessions[j].database!r}, the client selected {dbs[j]!r}", key="database")
        for j, cc in enumerate(conns):
            r = cc.query("SELECT DATABASE()")
            check(r.kind == "rows" and [((v or b"").decode()) for v in r.text_rows()[0]] == [dbs[j] or ""], lambda: f"DATABASE() is {r.text_rows() if r.kind == 'rows' else r!r}, the client selected {dbs[j]!r}", key="database")
        for v in w.victims:
            w.settle()
        ctx.nontrivial(w.mixed or seen["app"] > 0 and seen["lib"] > 0)


# ----------------------------------------------------------------- generation
@st.composite
def stmt_specs(draw):
    k = draw(st.sampled_from(["query"] * 6 + ["app"] * 4 + ["static"] * 4 + ["known", "show", "ok", "ok", "ok", "use", "use", "desc", "static_odd", "odd", "kill", "hint"]))
    spec = {"k": k, "i": draw(st.integers(0, 89)), "case": draw(st.integers(0, 2))}
    if k in ("query", "app"):
        pool = draw(st.sampled_from([USER_REFS, CAT_REFS, USER_REFS + CAT_REFS, USER_REFS + CAT_REFS + AMBI_REFS, AMBI_REFS + CAT_REFS]))
        spec["refs"] = [draw(st.sampled_from(pool)), draw(st.sampled_from(pool))]
    if k == "app":
        spec["urefs"] = [draw(st.sampled_from(USER_REFS)), draw(st.sampled_from(USER_REFS))]
        spec["fail"] = draw(st.integers(0, 9)) == 0
    if k == "query":
        spec["fail"] = draw(st.integers(0, 14)) == 0
    return spec


@st.composite
def ops(draw):
    k = draw(st.sampled_from(["stmts"] * 5 + ["init_db", "change_user", "reset", "ping"]))
    op = {"op": k, "c": draw(st.integers(0, 1))}
    if k == "stmts":
        op.update(stmts=draw(st.lists(stmt_specs(), min_size=1, max_size=5)), how=draw(st.sampled_from(["query", "query", "query", "exec", "exec2", "cursor"])), head=draw(st.integers(0, 8)), sep=draw(st.integers(0, 8)),
                  tail=draw(st.integers(0, 11)), attrs=draw(st.sampled_from([0, 0, 1, 3])))
    elif k in ("init_db", "change_user"):
        op["i"] = draw(st.integers(0, 10))
    return op


@st.composite
def cases(draw):
    db = st.one_of(st.none(), st.integers(0, 10))
    return {"dbs": [draw(db), draw(db)], "ops": draw(st.lists(ops(), min_size=1, max_size=6)), "slow": draw(st.booleans())}


def enum_pairs(tier):
    """Every query template with every kind of pair of references, under every kind of current database."""
    u, v, cat, cat2, amb = USER_REFS[2], USER_REFS[0], CAT_REFS[0], CAT_REFS[3], AMBI_REFS[0]
    pairs = [(u, u), (u, cat), (cat, u), (cat, cat2), (v, v), (v, cat), (cat, v), (amb, amb), (amb, cat), (cat, amb), (amb, u), (u, amb), (USER_REFS[3], cat), (cat, USER_REFS[3]), (USER_REFS[6], CAT_REFS[1]), (CAT_REFS[2], CAT_REFS[5])]
    full = tier != "quick"
    for i in range(len(QUERIES)):
        for a, b in pairs:
            for db in (None, 0, 2, 3, 4):
                if not full and db in (3, 4) and (a not in (amb, v) or i % 3):
                    continue
                yield {"dbs": [db], "slow": False, "ops": [{"op": "stmts", "stmts": [{"k": "query", "i": i, "refs": [a, b], "case": i % 3}], "how": "query" if (i + len(a[1])) % 4 else "exec", "head": i % 9, "sep": 0, "tail": (i * 5) % 12, "attrs": i % 3}]}


def enum_singles(tier):
    """Every other template alone, last and first in a list, under every kind of current database and transport."""
    app = {"k": "query", "i": 1, "refs": [USER_REFS[2], USER_REFS[2]]}
    tables = {"static": STATIC, "static_odd": STATIC_ODD, "known": KNOWN + KNOWN_IS, "show": SHOWS, "ok": OKS, "odd": SHOW_ODD + SET_ODD, "desc": DESCS + DESC_ODD, "kill": [0] * 3, "use": DBS, "app": APP, "hint": [0]}
    n = 0
    for k, table in tables.items():
        for i in range(len(table)):
            for db in (None, 0, 2, 4):
                for shape in range(3):
                    n += 1
                    spec = {"k": k, "i": i, "case": n % 3, "refs": [(USER_REFS + CAT_REFS + AMBI_REFS)[n % 20], (USER_REFS + CAT_REFS + AMBI_REFS)[(n * 7) % 20]], "urefs": [USER_REFS[n % 10], USER_REFS[(n * 3) % 10]]}
                    stmts = [[spec], [app, spec], [spec, app, dict(spec)]][shape]
                    if tier == "quick" and db == 4 and shape:
                        continue
                    yield {"dbs": [db], "slow": n % 2 == 0, "ops": [{"op": "stmts", "stmts": stmts, "how": ["query", "exec", "query", "exec2", "cursor"][n % 5], "head": n % 9, "sep": n % 9, "tail": (n // 3) % 12, "attrs": n % 2}]}


CAMPAIGNS = [
    Campaign("pairs", run, enum=enum_pairs, cpu=30),
    Campaign("singles", run, enum=enum_singles, cpu=30),
    Campaign("programs", run, strategy=cases, quick=1500, thorough=60000, cpu=60),
]
