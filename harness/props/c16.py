"""C16 - catalog answers mirror the application's declared schema exactly."""
import json
import os
from collections import Counter

from hypothesis import strategies as st

import wire
from runner import Campaign
from world import App, World, check

from mysql_mimic.schema import Column, InfoSchema, info_schema_tables

PROPERTY = "C16"
LEVEL = "exploration"
RULE = ("cases = schemas of depth 2-4 (0..n databases, tables, columns; names shared between databases, equal to built-in tables, keywords, digits first, $, non-ASCII, needing quotes) x current database (none, declared, undeclared, "
        "built-in; set at connect, by COM_INIT_DB, by USE) x sequences of SHOW DATABASES/SCHEMAS/[FULL] TABLES/[FULL] COLUMNS with FROM/IN, db.table and LIKE, DESCRIBE/DESC, COM_FIELD_LIST with wildcard, queries on "
        "INFORMATION_SCHEMA.SCHEMATA/TABLES/COLUMNS with =, LIKE, NOT LIKE, AND, IN, COUNT and ORDER BY, SHOW VARIABLES LIKE, over both protocols, and changes of the schema between statements; every answer is compared as "
        "an exact multiset (columns: sequence) with a listing computed from the mapping and the frozen built-in catalog, patterns with an own matcher; non-trivial = some statement's expected answer includes a declared entry")
ASSUMPTIONS = ["names are compared case-sensitively or case-insensitively (both accepted; of two tables or databases that differ in their case only, SHOW and DESCRIBE mean the one named exactly)",
               "without a current database, SHOW COLUMNS/DESCRIBE/COM_FIELD_LIST of a table declared in exactly one database list that table or answer an error; declared in several databases: not constrained",
               "the tables of a schema without database level belong to the current database, or to none",
               "nonexistent databases and tables: empty result or error",
               "databases of the same name in several catalogs are only queried by catalog and name in INFORMATION_SCHEMA"]

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "builtin_catalog.json")) as _f:
    BUILTIN = json.load(_f)

PLAIN = ["users", "orders", "a", "b", "x", "t1", "t2", "user_name", "userXname", "ab", "abc", "aab", "a_b", "acb", "id", "Name", "col1", "col10", "n_1", "foo", "foobar", "barfoo", "Users"]
ODD = ["1a", "2020_q1", "$cost", "a$b", "$", "_", "__", "\u96ea", "caf\u00e9", "\u00fc_x", "\u0444\u0443", "9lives", "a1$", "_a", "\u00df", "e\u0301", "\ufb01x", "\u4e00\u4e8c"]
WORDS = ["table", "select", "order", "key", "from", "in", "like", "database", "columns", "default", "null", "where", "index", "show", "current_user", "schema", "values", "group", "now", "true", "history", "extended", "formatted", "role", "warehouse", "schemas", "limit", "for", "mutex", "status"]
BUILT = ["tables", "columns", "user", "schemata", "events", "statistics", "db", "func", "triggers", "character_sets", "Tables"]
QUOTED = ["a b", "it's", "a.b", "x-y", "q\"q", "b`t", "1", "1e5", "semi;x", "a%b", " lead", "#h", "--", "0x1f", "a@b", "(", "?", "10"]
TYPES = ["INT", "TEXT", "VARCHAR(255)", "int unsigned", "DECIMAL(10,2)", "enum('a','b')", "BIGINT", "", "\u96ea type", "JSON", "TEXT", "INT", "a%_b"]


def name():
    return st.one_of(st.sampled_from(PLAIN), st.sampled_from(PLAIN), st.sampled_from(ODD), st.sampled_from(WORDS), st.sampled_from(BUILT), st.sampled_from(QUOTED),
                     st.text("abAB_$019\u00e9\u96ea", min_size=1, max_size=6))


# ---------------------------------------------------------------------------------------------- oracle
def like_match(pattern, text, fold):
    """SQL LIKE by dynamic programming over (pattern, text)."""
    toks = []
    i = 0
    while i < len(pattern):
        ch = pattern[i]
        if ch == "\\" and i + 1 < len(pattern):
            toks.append(("c", pattern[i + 1]))
            i += 2
            continue
        toks.append(("%", "") if ch == "%" else ("_", "") if ch == "_" else ("c", ch))
        i += 1

    def same(a, b):
        return a == b or (fold and (a.lower() == b.lower() or a.casefold() == b.casefold()))

    cur = {0}
    for kind, ch in toks:
        if kind == "%":
            cur = set(range(min(cur), len(text) + 1)) if cur else set()
        elif kind == "_":
            cur = {p + 1 for p in cur if p < len(text)}
        else:
            cur = {p + 1 for p in cur if p < len(text) and same(text[p], ch)}
    return len(text) in cur


def same_name(a, b, fold):
    return a == b or (fold and a.lower() == b.lower())


class Catalog:
    """the listing of a declared mapping, next to the built-in one: rows (catalog, db, table, [(col, type)])"""

    def __init__(self, depth, schema, default_db):
        # schema: [[cat, [[db, [[table, [[col, type]...]]...]]...]]...], upper levels have a single dummy entry
        self.depth = depth
        self.tables = []
        self.dbs = []
        for cat, dbs in schema:
            for db, tables in dbs:
                cat_, db_ = (cat if depth == 4 else "def"), (db if depth >= 3 else default_db)
                if depth >= 3:
                    self.dbs.append((cat_, db_))
                for t, cols in tables:
                    self.tables.append((cat_, db_, t, [tuple(c) for c in cols]))
        self.builtin_dbs = [("def", db) for db in BUILTIN]
        self.builtin_tables = [("def", db, t, list(cols.items())) for db, ts in BUILTIN.items() for t, cols in ts.items()]


def mapping(depth, schema):
    full = {cat: {db: {t: {c: ty for c, ty in cols} for t, cols in tables} for db, tables in dbs} for cat, dbs in schema}
    if depth == 4:
        return full
    full = next(iter(full.values()), {})
    if depth == 3:
        return full
    return next(iter(full.values()), {})


def select(rows, key, exact=None, like=None, notlike=None, isin=None, fold=False):
    out = []
    for r in rows:
        v = key(r)
        if exact is not None and not same_name(v, exact, fold):
            continue
        if isin is not None and not any(same_name(v, x, fold) for x in isin):
            continue
        if like is not None and not like_match(like, v, fold):
            continue
        if notlike is not None and like_match(notlike, v, fold):
            continue
        out.append(r)
    return out


def exactly(what, got, wants):
    """got equals one of the acceptable listings (as multisets)"""
    g = Counter(got)
    for w in wants:
        if g == Counter(w):
            return
    w = Counter(wants[0])
    missing, extra = list((w - g).elements())[:4], list((g - w).elements())[:4]
    check(False, f"{what} answered {sorted(map(str, got))[:12]}: missing {missing}, unexpected {extra}", key=f"listing:{what.split()[0:2]}")


def in_order(what, got, wants):
    check(any(list(got) == list(w) for w in wants), f"{what} answered {got[:12]} instead of {wants[0][:12]}", key=f"columns:{what.split()[0:2]}")


# ---------------------------------------------------------------------------------------------- SQL
SAFE = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")


def ident(s, quote):
    plain = s in PLAIN or s in ("\u96ea", "caf\u00e9", "9lives", "2020_q1", "1a", "a$b", "information_schema", "mysql", "INFORMATION_SCHEMA")
    if plain and not quote:
        return s
    return "`" + s.replace("`", "``") + "`"


def lit(s, esc=True):
    return "'" + s.replace("'", "''") + "'"


def pattern_lit(p):
    """p is the pattern MySQL's LIKE sees; \\_ and \\% need no further escaping in a string literal, other backslashes do"""
    out = ""
    i = 0
    while i < len(p):
        if p[i] == "\\":
            nxt = p[i + 1] if i + 1 < len(p) else ""
            out += "\\" + nxt if nxt in "_%" and nxt else "\\\\" + (nxt if nxt != "\\" else "\\\\").replace("'", "''")
            i += 2
            continue
        out += "''" if p[i] == "'" else p[i]
        i += 1
    return "'" + out + "'"


def str_lit(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "''") + "'"


def kw(s, case):
    case %= 4
    return s if case == 0 else s.lower() if case == 1 else s.upper() if case == 2 else "".join(c.lower() if i % 2 else c.upper() for i, c in enumerate(s))


class Env:
    def __init__(self, w, case, ctx):
        self.w, self.case, self.ctx = w, case, ctx
        self.which = 0
        self.c = None
        self.db = None

    def schema(self):
        return self.case["schemas"][self.which % len(self.case["schemas"])]

    def catalog(self):
        s = self.schema()
        return Catalog(s["depth"], s["tree"], self.db if self.db and self.db.lower() not in BUILTIN else "")

    def run(self, sql, binary):
        if binary:
            st_ = self.c.prepare(sql)
            if st_.err:
                return st_, None
            r = self.c.cmd(wire.com_stmt_execute(st_.stmt_id, self.c.caps))
            return r, None if r.err else [[x.decode() if isinstance(x, (bytes, bytearray)) else x for x in row] for row in r.binary_rows()]
        r = self.c.query(sql)
        return r, None if r.err else [[None if x is None else x.decode() for x in row] for row in r.text_rows()]

    def rows(self, what, sql, binary, may_fail=False):
        r, rows = self.run(sql, binary)
        if rows is None:
            check(may_fail, f"{what} answered {r!r}: {sql}", key=f"err:{what.split()[0:2]}")
        return rows


def like_clause(op):
    return "" if op.get("like") is None else " " + kw("LIKE", op["k"]) + " " + pattern_lit(op["like"])


def do_op(e, op, ctx):
    cat = e.catalog()
    k = op["k"]
    kind = op["op"]
    binary = op.get("bin", False)
    multi = cat.depth == 4 and len({db for _, db in cat.dbs}) < len(cat.dbs)
    folds = (False, True)
    allt = cat.tables + cat.builtin_tables
    if kind == "databases":
        what = "SHOW " + ("DATABASES" if k % 2 else "SCHEMAS")
        sql = kw(what, k // 2) + like_clause(op)
        got = [r[0] for r in e.rows(what, sql, binary)]
        if multi:
            return
        base = [db for _, db in cat.dbs + cat.builtin_dbs]
        wants = [select(base, str, like=op.get("like"), fold=f) for f in folds]
        if cat.depth == 2 and e.db and e.db.lower() not in BUILTIN:
            wants += [select(base + [e.db], str, like=op.get("like"), fold=f) for f in folds]
        exactly(f"{what} [{sql}]", got, wants)
        ctx.nontrivial(bool(set(got) & {d for _, d in cat.dbs}))
    elif kind == "tables":
        what = "SHOW FULL TABLES" if op["full"] else "SHOW TABLES"
        sql = kw(what, k // 4)
        db = op.get("db")
        if db is not None:
            sql += f" {kw('FROM' if k % 2 else 'IN', k // 4)} {ident(db, k & 2)}"
        sql += like_clause(op)
        eff = db if db is not None else e.db
        exists = [f for f in folds if any(same_name(x, eff, f) for _, x in cat.dbs + cat.builtin_dbs)] if eff is not None else []
        no_db_level = cat.depth == 2 and (eff is None or (eff == e.db and eff.lower() not in BUILTIN))
        rows = e.rows(what, sql, binary, may_fail=not exists and (not no_db_level or eff is None))
        if rows is None or (multi and not (eff or "").lower() in BUILTIN):
            return
        got = [r[0] for r in rows]
        if no_db_level:
            base = [[t for t in cat.tables]]
        else:
            # names which differ in their case are one to some servers, but only as long as there is no such pair
            base = [[t for t in allt if same_name(t[1], eff, f)] for f in ((False,) if any(x == eff for _, x in cat.dbs + cat.builtin_dbs) else folds)]
        wants = [[t[2] for t in select(b, lambda t: t[2], like=op.get("like"), fold=f)] for b in base for f in folds]
        exactly(f"{what} [{sql}] current={e.db!r}", got, wants)
        if op["full"]:
            declared = {t[2] for t in cat.tables if no_db_level or t[1] == eff}
            for r in rows:
                check(r[1] in (("BASE TABLE",) if r[0] in declared else ("BASE TABLE", "SYSTEM TABLE", "SYSTEM VIEW")), f"{sql}: table type {r[1]!r} of {r[0]!r}", key="table-type")
        ctx.nontrivial(bool(set(got) & {t[2] for t in cat.tables}))
    elif kind in ("columns", "describe", "field_list"):
        t, db = op["table"], op.get("db") if kind != "field_list" else None
        eff = db if db is not None else e.db
        like = op.get("like") if kind != "describe" else None
        cands = []
        if eff is None:
            where = [x for x in cat.tables if x[2] == t]
            folded = [x for x in cat.tables if same_name(x[2], t, True)]
            if len(folded) > 1 or (not folded and any(same_name(x[2], t, True) for x in cat.builtin_tables)):
                unconstrained, may_fail = True, True
            else:
                unconstrained, may_fail = False, True
                # pinned by the repository's tests: the only table of that name is found
                if where and len(cat.tables) == 1:
                    may_fail = kind == "field_list"
                cands = [where, folded]
        else:
            unconstrained = False
            f2 = [x for x in allt if same_name(x[1], eff, True) and same_name(x[2], t, True)]
            f1 = [x for x in allt if x[1] == eff and x[2] == t]
            if cat.depth == 2 and eff != e.db:
                f1 = [x for x in cat.builtin_tables if x[1] == eff and x[2] == t]
                f2 = [x for x in cat.builtin_tables if same_name(x[1], eff, True) and same_name(x[2], t, True)]
            if len(f2) > 1:
                # only the exact one, unless names are folded by the server
                f2 = f1 or f2
                unconstrained = not f1
            cands = [f1] if f1 else [f1, f2]
            may_fail = not f1
            if multi and eff.lower() not in BUILTIN:
                unconstrained = True
        if kind == "field_list":
            what = "COM_FIELD_LIST"
            r = e.c.cmd(wire.com_field_list(t.encode(), (like or "").encode()))
            if r.err:
                check(may_fail or unconstrained, f"COM_FIELD_LIST {t!r} {like!r} current={e.db!r} answered {r!r}", key="err:field_list")
                return
            got = [(c.name.decode(), None) for c in r.cols]
            for c in r.cols:
                check(c.table.decode() == t, f"COM_FIELD_LIST {t!r}: column definition with table {c.table!r}", key="field-list-table")
                check(not c.default, f"COM_FIELD_LIST {t!r}: default {c.default!r} of a column without default", key="field-list-default")
            if like == "":
                like = None
            label = f"COM_FIELD_LIST {t!r} {like!r} current={e.db!r}"
        else:
            if kind == "describe":
                what = "DESCRIBE" if k % 2 else "DESC"
                sql = kw(what, k // 4) + " " + (ident(db, k & 2) + "." if db is not None else "") + ident(t, k & 2)
            else:
                what = "SHOW FULL COLUMNS" if op["full"] else "SHOW COLUMNS"
                a, b = ("FROM", "FROM") if k % 3 == 0 else ("IN", "IN") if k % 3 == 1 else ("FROM", "IN")
                sql = kw(what, k // 4) + f" {kw(a, k // 4)} "
                if db is None:
                    sql += ident(t, k & 2)
                elif op["dot"]:
                    sql += ident(db, k & 2) + "." + ident(t, k & 2)
                else:
                    sql += ident(t, k & 2) + f" {kw(b, k // 4)} " + ident(db, k & 2)
                sql += like_clause(op)
            label = f"{what} [{sql}] current={e.db!r}"
            rows = e.rows(label, sql, binary, may_fail=may_fail or unconstrained)
            if rows is None:
                return
            for r in rows:
                check(len(r) >= 6, f"{label}: {r!r}", key="width")
            got = [(r[0], r[1]) for r in rows]
        if unconstrained:
            return
        wants = []
        for cand in cands:
            cols = cand[0][3] if cand else []
            for f in folds:
                s = [c for c in cols if like is None or like_match(like, c[0], f)]
                wants.append([(c[0], None) for c in s] if kind == "field_list" else s)
        in_order(label, got, wants)
        ctx.nontrivial(bool(got) and bool(cands[0]) and cands[0][0] in cat.tables)
    elif kind == "schemata":
        what = "SELECT SCHEMATA"
        dbs = cat.dbs + cat.builtin_dbs
        wants = []
        for f in folds:
            for extra in ([[], [("def", e.db)]] if cat.depth == 2 and e.db and e.db.lower() not in BUILTIN else [[]]):
                rows = select(dbs + extra, lambda r: r[1], exact=op.get("exact"), like=op.get("like"), notlike=op.get("notlike"), fold=f)
                wants.append(select(rows, lambda r: r[0], exact=op.get("catalog"), fold=f))
        conds = cond(op, "schema_name", k) + (["catalog_name = " + str_lit(op["catalog"])] if op.get("catalog") is not None else [])
        got = is_query(e, op, what, ["catalog_name", "schema_name"], "schemata", conds, wants)
        ctx.nontrivial(any(tuple(r) in cat.dbs for r in got or []))
    elif kind == "is_tables":
        what = "SELECT TABLES"
        wants = []
        for f in folds:
            for blank in blanks(e, cat):
                rows = [(c, blank if cat.depth == 2 else d, t) for c, d, t, _ in cat.tables] + [(c, d, t) for c, d, t, _ in cat.builtin_tables]
                rows = select(rows, lambda r: r[2], exact=op.get("exact"), like=op.get("like"), notlike=op.get("notlike"), fold=f)
                rows = select(rows, lambda r: r[1], exact=op.get("db"), fold=f)
                wants.append(select(rows, lambda r: r[0], exact=op.get("catalog"), fold=f))
        conds = cond(op, "table_name", k) + [f"{c} = {str_lit(op[o])}" for c, o in (("table_schema", "db"), ("table_catalog", "catalog")) if op.get(o) is not None]
        got = is_query(e, op, what, ["table_catalog", "table_schema", "table_name"], "tables", conds, wants)
        ctx.nontrivial(any(r[2] in {t[2] for t in cat.tables} for r in got or []))
    elif kind == "is_columns":
        what = "SELECT COLUMNS"
        wants = []
        for f in folds:
            for blank in blanks(e, cat):
                rows = [(c, blank if cat.depth == 2 else d, t, n, ty) for c, d, t, cols in cat.tables for n, ty in cols] + [(c, d, t, n, ty) for c, d, t, cols in cat.builtin_tables for n, ty in cols]
                rows = select(rows, lambda r: r[3], exact=op.get("exact"), like=op.get("like"), notlike=op.get("notlike"), fold=f)
                rows = select(rows, lambda r: r[2], exact=op.get("table"), fold=f)
                rows = select(rows, lambda r: r[1], exact=op.get("db"), fold=f)
                wants.append(select(rows, lambda r: r[0], exact=op.get("catalog"), fold=f))
        conds = cond(op, "column_name", k) + [f"{c} = {str_lit(op[o])}" for c, o in (("table_name", "table"), ("table_schema", "db"), ("table_catalog", "catalog")) if op.get(o) is not None]
        got = is_query(e, op, what, ["table_catalog", "table_schema", "table_name", "column_name", "data_type"], "columns", conds, wants, order=cat)
        ctx.nontrivial(any(r[2] in {t[2] for t in cat.tables} for r in got or []))
    elif kind == "variables":
        base = kw(["SHOW VARIABLES", "SHOW SESSION VARIABLES", "SHOW GLOBAL VARIABLES"][k % 3], k // 4)
        full = [tuple(r) for r in e.rows("SHOW VARIABLES", base, binary)]
        check(len(full) >= 30 and len({n for n, _ in full}) == len(full), f"{base}: {full!r}"[:600], key="variables-base")
        got = [tuple(r) for r in e.rows("SHOW VARIABLES", base + like_clause(op), binary)]
        wants = [[r for r in full if op.get("like") is None or like_match(op["like"], r[0], f)] for f in folds]
        exactly(f"SHOW VARIABLES [{base}{like_clause(op)}]", got, wants)
        ctx.nontrivial(0 < len(got) < len(full))
    elif kind == "use":
        r = e.c.cmd(wire.com_init_db(op["db"].encode())) if op["how"] == "cmd" else e.c.query("USE " + ident(op["db"], k & 2))
        check(r.kind == "ok", f"USE {op['db']!r} answered {r!r}", key="use")
        e.db = op["db"]
    elif kind == "declare":
        e.which += 1
    else:
        raise AssertionError(kind)


def blanks(e, cat):
    return ["", e.db] if cat.depth == 2 and e.db and e.db.lower() not in BUILTIN else [""]


def cond(op, col, k):
    out = []
    if op.get("exact") is not None:
        out.append(f"{col} = {str_lit(op['exact'])}" if k % 3 else f"{col} IN ({str_lit(op['exact'])})")
    if op.get("like") is not None:
        out.append(f"{col} LIKE {pattern_lit(op['like'])}")
    if op.get("notlike") is not None:
        out.append(f"{col} NOT LIKE {pattern_lit(op['notlike'])}")
    return out


def is_query(e, op, what, cols, table, conds, wants, order=None):
    k = op["k"]
    src = ["information_schema." + table, "INFORMATION_SCHEMA." + table.upper(), "`information_schema`.`" + table + "`", "information_schema." + table + " AS t", "information_schema." + table.upper() + " t"][k % 5]
    names = [("t." if k % 5 in (3, 4) else "") + (c.upper() if k & 4 else c) for c in cols]
    if e.db and e.db.lower() == "information_schema" and k % 7 < 3:
        src = src.replace("information_schema.", "").replace("INFORMATION_SCHEMA.", "").replace("`information_schema`.", "")
    where = " WHERE " + " AND ".join(conds) if conds else ""
    form = op["form"] % 4
    if form == 0:
        sql = f"SELECT COUNT(*) FROM {src}{where}"
        got = e.rows(what, sql, op["bin"])
        check(len(got) == 1 and int(got[0][0]) in {len(w) for w in wants}, f"{sql} answered {got!r} instead of {len(wants[0])}", key=f"count:{table}")
        return None
    if form == 1 and order is not None:
        # in declaration order
        sql = f"SELECT {', '.join(names)}, {names[0][:-len(cols[0])]}ordinal_position FROM {src}{where} ORDER BY table_catalog, table_schema, table_name, ordinal_position"
        got = [tuple(r) for r in e.rows(what, sql, op["bin"])]
        exactly(f"{what} [{sql}]", [r[:-1] for r in got], wants)
        declared = {}
        for c, d, t, cs in order.tables + order.builtin_tables:
            declared[(t, tuple(n for n, _ in cs))] = 1
        group = {}
        for r in got:
            group.setdefault(r[:3], []).append((r[3], int(r[5])))
        full = {}
        for c, d, t, cs in order.tables + order.builtin_tables:
            full.setdefault(t, []).append([n for n, _ in cs])
        for key, ns in group.items():
            pos = [p for _, p in ns]
            check(all(a < b for a, b in zip(pos, pos[1:])), f"{sql}: ordinal positions of {key}: {ns}", key="ordinal")
            got_names = [n for n, _ in ns]
            check(any([n for n in cs if n in set(got_names)] == got_names for cs in full[key[2]]), f"{sql}: columns of {key} come as {got_names}, declared {full[key[2]]}", key="order")
            check(any(all(cs.index(n) - p == cs.index(got_names[0]) - pos[0] for n, p in ns) for cs in full[key[2]] if set(got_names) <= set(cs)), f"{sql}: ordinal positions of {key} are {ns}, declared {full[key[2]]}", key="ordinal")
        return [r[:-1] for r in got]
    if form == 2:
        sql = f"SELECT {', '.join(names)} FROM {src}{where} ORDER BY {', '.join(names)}"
    else:
        sql = f"SELECT {', '.join(reversed(names))} FROM {src}{where}"
    got = [tuple(r) for r in e.rows(what, sql, op["bin"])]
    if form != 2:
        got = [tuple(reversed(r)) for r in got]
    exactly(f"{what} [{sql}]", got, wants)
    return got


def run(case, ctx):
    holder = {}

    def schema(sess):
        s = holder["e"].schema()
        return mapping(s["depth"], s["tree"])

    with World(app=App(schema=schema)) as w:
        e = holder["e"] = Env(w, case, ctx)
        use = case["use"]
        if use is not None and case["how"] == "connect":
            e.c = w.login(db=use.encode())
            e.db = use
        else:
            e.c = w.login()
            if use is not None:
                do_op(e, {"op": "use", "db": use, "how": case["how"], "k": 2}, ctx)
        ctx.tag(f"depth{e.schema()['depth']}", "db" if use else "nodb")
        for op in case["ops"]:
            ctx.tag(op["op"])
            do_op(e, op, ctx)
        check(e.c.ping() and not e.c.eof, "the connection doesn't survive", key="alive")


# ---------------------------------------------------------------------------------------------- generators
@st.composite
def tree(draw, depth, pool):
    nm = st.sampled_from(pool)

    def columns():
        return [[c, draw(st.sampled_from(TYPES))] for c in draw(st.lists(nm, min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=5, unique=True))]

    def tables():
        return [[t, columns()] for t in draw(st.lists(nm, min_size=draw(st.sampled_from([0, 1, 1])), max_size=4, unique=True))]

    def dbs():
        return [[d, tables()] for d in draw(st.lists(nm.filter(lambda d: d.lower() not in BUILTIN), min_size=1, max_size=4, unique=True))]

    if depth == 2:
        out = [["-", [["-", tables()]]]]
    elif depth == 3:
        out = [["-", dbs()]]
    else:
        out = [[c, dbs()] for c in draw(st.lists(st.sampled_from(["def", "cat1", "hive", "Def"]), min_size=1, max_size=3, unique=True))]
    # the depth of the mapping must be evident from some entry
    if not any(cols for _, ds in out for _, ts in ds for _, cols in ts):
        out[-1][1][-1][1].append(["t_last", [["c_last", "INT"]]]) if not any(t == "t_last" for t, _ in out[-1][1][-1][1]) else None
    return {"depth": depth, "tree": out}


def mutate(draw, word):
    """a LIKE pattern around a word"""
    if not word:
        return "%"
    chars = list(word)
    n = draw(st.integers(0, 3))
    chars = ["\\" + c if c == "\\" else c for c in chars]
    for _ in range(n):
        if not chars:
            break
        i = draw(st.integers(0, len(chars) - 1))
        how = draw(st.integers(0, 9))
        if how <= 2:
            chars[i] = "_"
        elif how <= 5:
            j = draw(st.integers(i, len(chars)))
            chars[i:j] = ["%"]
        elif how == 6:
            chars.insert(i, draw(st.sampled_from(["%", "_", "a", "."])))
        elif how == 7:
            del chars[i]
        elif how == 8:
            chars[i] = chars[i].swapcase() if len(chars[i].swapcase()) == 1 else chars[i]
        elif chars[i] in "_%":
            chars[i] = "\\" + chars[i]
    p = "".join(chars)
    return p + draw(st.sampled_from(["", "", "", "%", "_", "x"])) if draw(st.booleans()) else draw(st.sampled_from(["", "%", "_"])) + p


VARIABLES = ["auto_increment_increment", "autocommit", "character_set_client", "version", "version_comment", "sql_mode", "wait_timeout", "time_zone", "system_time_zone", "net_write_timeout", "collation_server", "license", "character_set_results"]


@st.composite
def operation(draw, schemas, used):
    s = draw(st.sampled_from(schemas))
    dbs = [d for _, ds in s["tree"] for d, _ in ds] if s["depth"] > 2 else ([used] if used else ["nodb"])
    tabs = [(d, t, [c for c, _ in cols]) for _, ds in s["tree"] for d, ts in ds for t, cols in ts]
    builtin = [(d, t, list(c)) for d, ts in BUILTIN.items() for t, c in ts.items()]

    def pick_table():
        src = draw(st.sampled_from([0, 0, 0, 0, 1]))
        d, t, cols = draw(st.sampled_from(tabs if src == 0 and tabs else builtin))
        if draw(st.integers(0, 11)) == 0:
            t = draw(st.sampled_from(["nosuch", "a", "users", "tables"]))
        if s["depth"] == 2 and src == 0:
            d = used or "nodb"
        return d, t, cols

    def pick_db():
        return draw(st.sampled_from(dbs * 3 + ["information_schema", "mysql", "nosuch", "a"]))

    def pattern(words):
        how = draw(st.integers(0, 9))
        if how == 0:
            return draw(st.sampled_from(["", "%", "_", "%%", "__", "%_", "_%", "_%_", "%a%", "a%", "%a", "\\_", "\\%", "%\\_%", "%x%y%"]))
        if how == 1:
            return draw(st.text("ab_%x1", max_size=5))
        return mutate(draw, draw(st.sampled_from(words or ["a"])))

    def opt_like(words, one_of=3):
        return pattern(words) if draw(st.integers(0, one_of - 1)) else None

    k = draw(st.integers(0, 59))
    b = draw(st.integers(0, 5)) == 0
    kind = draw(st.sampled_from(["databases", "tables", "tables", "columns", "columns", "columns", "describe", "field_list", "schemata", "is_tables", "is_columns", "is_columns", "variables", "use", "declare"]))
    o = {"op": kind, "k": k, "bin": b}
    if kind == "databases":
        o["like"] = opt_like([x for x in dbs] + list(BUILTIN))
    elif kind == "tables":
        o["db"] = draw(st.sampled_from([None, pick_db(), pick_db()]))
        o["full"] = draw(st.booleans())
        o["like"] = opt_like([t for _, t, _ in tabs] + ["tables", "user"], 2)
    elif kind in ("columns", "describe"):
        d, t, cols = pick_table()
        o.update(table=t, db=draw(st.sampled_from([None, d, d, d, pick_db()])), full=draw(st.booleans()), dot=draw(st.booleans()))
        if kind == "columns":
            o["like"] = opt_like(cols, 2)
    elif kind == "field_list":
        d, t, cols = pick_table()
        o.update(table=t, like=opt_like(cols, 2))
    elif kind in ("schemata", "is_tables", "is_columns"):
        d, t, cols = pick_table()
        cats = [c for c, _ in s["tree"]] if s["depth"] == 4 else ["def"]
        words = {"schemata": dbs + list(BUILTIN), "is_tables": [x for _, x, _ in tabs], "is_columns": cols}[kind]
        own = {"schemata": d, "is_tables": t, "is_columns": cols[0] if cols else "a"}[kind]
        o.update(form=draw(st.integers(0, 3)), exact=draw(st.sampled_from([None, None, own])), like=opt_like(words, 2), notlike=pattern(words) if draw(st.integers(0, 5)) == 0 else None,
                 catalog=draw(st.sampled_from([None, None, draw(st.sampled_from(cats + ["def", "nosuch"]))])))
        if kind != "schemata":
            o["db"] = draw(st.sampled_from([None, d, d]))
        if kind == "is_columns":
            o["table"] = draw(st.sampled_from([None, t, t]))
    elif kind == "variables":
        o["like"] = opt_like(VARIABLES, 8)
    elif kind == "use":
        o.update(db=pick_db(), how=draw(st.sampled_from(["cmd", "use"])))
    return o


@st.composite
def cases(draw):
    pool = draw(st.lists(name(), min_size=3, max_size=9, unique=True))
    if draw(st.integers(0, 2)) == 0:
        # names that differ in their case only
        for n in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3)):
            pool += [x for x in (draw(st.sampled_from([n.upper(), n.lower(), n.swapcase(), n.capitalize()])),) if x not in pool]
    depth = draw(st.sampled_from([2, 3, 3, 3, 4]))
    schemas = [draw(tree(depth, pool))]
    if draw(st.integers(0, 3)) == 0:
        schemas.append(draw(tree(draw(st.sampled_from([2, 3, 4])), pool)))
    dbs = [d for s in schemas for _, ds in s["tree"] for d, _ in ds if s["depth"] > 2]
    use = draw(st.sampled_from([None, None] + (dbs * 2 or ["cur", "users"]) + ["cur", "information_schema"]))
    how = draw(st.sampled_from(["connect", "cmd", "use"]))
    ops = [draw(operation(schemas, use)) for _ in range(draw(st.integers(1, 7)))]
    return {"schemas": schemas, "use": use, "how": how, "ops": ops}


# ---------------------------------------------------------------------------------------------- COM_FIELD_LIST defaults
DEFAULTS = [None, "", "0", "abc", "\u96ea" * 5, "x" * 250, "x" * 251, "y" * 70000, "CURRENT_TIMESTAMP", "it's"]


def run_defaults(case, ctx):
    cols = [Column(name=f"c{i}", type="TEXT", table="t", schema="d", default=d, is_nullable=bool(i % 2), comment=["cm", None][i % 2]) for i, d in enumerate(case["defaults"])]

    with World(app=App(schema=lambda s: InfoSchema(info_schema_tables(cols)))) as w:
        c = w.login(db=b"d")
        r = c.cmd(wire.com_field_list(b"t"))
        check(not r.err, f"COM_FIELD_LIST answered {r!r}", key="defaults-err")
        check([x.name.decode() for x in r.cols] == [x.name for x in cols], f"COM_FIELD_LIST answered columns {[x.name for x in r.cols]}", key="defaults-names")
        for x, want in zip(r.cols, cols):
            check((x.default or b"").decode() == (want.default or ""), f"COM_FIELD_LIST: default {x.default!r} instead of {want.default!r}"[:200], key="default")
        r = c.query("SHOW FULL COLUMNS FROM t")
        check(not r.err, f"SHOW FULL COLUMNS answered {r!r}", key="defaults-err")
        want = [[x.name, x.default, "YES" if x.is_nullable else "NO", x.comment] for x in cols]
        names = [x.name.decode().lower() for x in r.cols]
        got = [[None if v is None else v.decode() for v in (row[names.index("field")], row[names.index("default")], row[names.index("null")], row[names.index("comment")])] for row in r.text_rows()]
        check(got == want, f"SHOW FULL COLUMNS answered {got!r} instead of {want!r}"[:500], key="defaults-show")
        ctx.nontrivial(any(d is not None for d in case["defaults"]))


@st.composite
def default_cases(draw):
    return {"defaults": draw(st.lists(st.sampled_from(DEFAULTS), min_size=1, max_size=6))}


# ---------------------------------------------------------------------------------------------- LIKE, exhaustively over a small alphabet
def enum_like(tier):
    """every pattern over {a, b, _, %} up to a length, asked over every word over {a, b} up to a length at once"""
    import itertools
    for n in range(0, 5 if tier == "quick" else 6):
        for p in itertools.product("ab_%", repeat=n):
            yield {"p": "".join(p)}


LIKE_WORDS = ["".join(x) for n in range(1, 5) for x in __import__("itertools").product("ab", repeat=n)] + ["a.b", "axb", "a_b", "a%b", "a\nb", "\u96ea", "A", "ab\n", "b\u00e9", "\U0001f600"]


def run_like(case, ctx):
    p = case["p"]
    schema = {"d": {"t": {x: "INT" for x in LIKE_WORDS}, **{x: {"c": "INT"} for x in LIKE_WORDS}}}
    with World(app=App(schema=lambda s: schema)) as w:
        c = w.login(db=b"d")
        for sql, words in ((f"SHOW COLUMNS FROM t LIKE {pattern_lit(p)}", LIKE_WORDS), (f"SHOW TABLES LIKE {pattern_lit(p)}", LIKE_WORDS + ["t"])):
            r = c.query(sql)
            check(not r.err, f"{sql} answered {r!r}", key="like-err")
            got = [row[0].decode() for row in r.text_rows()]
            exactly(f"LIKE [{sql}]", got, [[x for x in words if like_match(p, x, f)] for f in (False, True)])
        if p:
            r = c.cmd(wire.com_field_list(b"t", p.encode()))
            check(not r.err, f"COM_FIELD_LIST answered {r!r}", key="like-err")
            exactly(f"COM_FIELD_LIST LIKE {p!r}", [x.name.decode() for x in r.cols], [[x for x in LIKE_WORDS if like_match(p, x, f)] for f in (False, True)])
        ctx.nontrivial(0 < len(got) < len(LIKE_WORDS))


# ---------------------------------------------------------------------------------------------- the application's tables with the names of built-in ones
def enum_builtin_names(tier):
    """
    A table of the application which is named like one of the catalogue itself, at every depth of the mapping: what is
    asked for is found by its database, or - with none - among the declared tables only; the columns never mix.
    """
    for d, ts in BUILTIN.items():
        for i, t in enumerate(ts):
            own = [["own_a", "INT"], ["own_b", "TEXT"]] + [[c, "INT"] for c in list(ts[t])[:1]]
            for depth in (2, 3, 4):
                for use in (None, "app", d):
                    if tier == "quick" and (i % 4 != depth - 2 and t not in ("user", "tables", "columns", "schemata")):
                        continue
                    ops = [{"op": "columns", "table": t, "db": db, "full": bool(i % 2), "dot": bool(i % 2), "like": like, "k": i, "bin": False} for db in (None, d, "app") for like in (None, "o%")]
                    ops += [{"op": "describe", "table": t, "db": db, "full": False, "dot": False, "k": i, "bin": False} for db in (None, d, "app")]
                    ops += [{"op": "field_list", "table": t, "like": like, "k": i, "bin": False} for like in (None, "own%")]
                    ops += [{"op": "tables", "db": db, "full": True, "like": None, "k": i, "bin": False} for db in (None, d)]
                    tree = [["-" if depth < 4 else "def", [["-" if depth == 2 else "app", [[t, own]]]]]]
                    yield {"schemas": [{"depth": depth, "tree": tree}], "use": use, "how": ["connect", "cmd", "use"][i % 3], "ops": ops}


CAMPAIGNS = [
    Campaign("builtin-names", run, enum=enum_builtin_names, cpu=60, exhaustive=True),
    Campaign("catalog", run, strategy=cases, quick=1500, thorough=60000, cpu=60),
    Campaign("defaults", run_defaults, strategy=default_cases, quick=60, thorough=500, cpu=30),
    Campaign("like", run_like, enum=enum_like, cpu=30, exhaustive=True),
]
