"""C06 - prepared-statement parameters are bound as data, never as SQL."""
import struct

from hypothesis import strategies as st
from sqlglot import exp

import charsets
import sqllex
import wire
from runner import Campaign
from world import App, AppSession, World, check

from mysql_mimic.errors import MysqlError

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("cases = statement templates (token sequences with strings, identifiers and comments containing question marks, placeholders "
        "anywhere) x parameter values x wire types x long-data chunkings; the text the application receives is compared, token by token "
        "with an independent MySQL lexer, with the template; non-trivial = a string parameter contains a quote, backslash, question mark, "
        "comment or escape-like text, or the template has quoted question marks, or long data is used")
ASSUMPTIONS = ["default sql_mode (backslash escapes)", "templates are lexically complete and contain no executable comments"]


class RawSession(AppSession):
    async def handle_query(self, sql, attrs):
        self.world.got.append((sql, dict(attrs)))
        how = getattr(self.world, "outcome", None)
        if how == "error":
            raise MysqlError("no", code=1105)
        if how == "bug":
            raise ValueError("no")
        if how == "rows":
            return [(1,), (2,)], ["a"]
        if how == "badrows":
            return (1 // (1 - i) for i in range(3)), ["a"]
        return None


# ----------------------------------------------------------------- parameters
NASTY = ["'", "''", "\\", "\\'", "\\\\", "'; DROP TABLE x; -- ", "?", "'?'", "a?b", "%s", "\\1", "\\g<0>", "\\n", "\n", "\0", "`", '"', "/*", "*/", "--", "#",
         "NULL", "\\0", "{}", "{0}", "$1", "%(a)s", "", " ", "1", "-1", "' OR '1'='1", "\u00e9", "\u2019", "x'", "'x", "\\x", "\\%", "\x1a", "\r"]


def piece():
    return st.one_of(st.sampled_from(NASTY), st.text(max_size=6))


strings = st.one_of(piece(), st.lists(piece(), max_size=6).map("".join), st.sampled_from(["q" * 251, "\\" * 300, "'" * 300, "?" * 300, "x" * 70000]))
INTS = {"TINY": (wire.T_TINY, 1), "SHORT": (wire.T_SHORT, 2), "LONG": (wire.T_LONG, 4), "INT24": (wire.T_INT24, 4), "LONGLONG": (wire.T_LONGLONG, 8),
        "YEAR": (wire.T_YEAR, 2)}
STRT = {"VARCHAR": wire.T_VARCHAR, "VAR_STRING": wire.T_VAR_STRING, "STRING": wire.T_STRING, "BLOB": wire.T_BLOB, "TINY_BLOB": wire.T_TINY_BLOB,
        "MEDIUM_BLOB": wire.T_MEDIUM_BLOB, "LONG_BLOB": wire.T_LONG_BLOB}


def clean(s, codec):
    out = []
    for ch in s:
        try:
            if ch.encode(codec).decode(codec) == ch:
                out.append(ch)
        except UnicodeError:
            pass
    return "".join(out)


@st.composite
def param(draw):
    k = draw(st.integers(0, 9))
    if k < 4:
        return {"k": "s", "v": draw(strings), "t": draw(st.sampled_from(sorted(STRT)))}
    if k == 4:
        return {"k": "long", "v": draw(strings), "cuts": draw(st.lists(st.integers(0, 12), max_size=4)), "t": draw(st.sampled_from(["BLOB", "VAR_STRING"]))}
    if k < 7:
        t = draw(st.sampled_from(sorted(INTS)))
        n = INTS[t][1] * 8
        u = draw(st.booleans())
        lo, hi = (0, 2 ** n - 1) if u else (-(2 ** (n - 1)), 2 ** (n - 1) - 1)
        return {"k": "i", "t": t, "u": u, "v": draw(st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 0, 1])))}
    if k == 7:
        f = draw(st.booleans())
        v = draw(st.floats(allow_nan=False, allow_infinity=False, width=32 if f else 64))
        return {"k": "f", "t": "FLOAT" if f else "DOUBLE", "v": struct.pack(">d", v).hex()}
    if k == 8:
        return {"k": "n", "t": draw(st.sampled_from(["NULL", "bitmap", "bitmap-str"]))}
    return {"k": "s", "v": draw(st.sampled_from(NASTY)), "t": "VAR_STRING"}


def wire_param(p, codec):
    k = p["k"]
    if k == "s":
        return wire.P(STRT[p["t"]], wire.lenstr(p["v"].encode(codec)))
    if k == "long":
        return wire.P(STRT[p["t"]], None, long=True)
    if k == "i":
        t, n = INTS[p["t"]]
        return wire.P(t, (p["v"] % (1 << 8 * n)).to_bytes(n, "little"), unsigned=p["u"])
    if k == "f":
        v = struct.unpack(">d", bytes.fromhex(p["v"]))[0]
        return wire.P(wire.T_FLOAT if p["t"] == "FLOAT" else wire.T_DOUBLE, struct.pack("<f" if p["t"] == "FLOAT" else "<d", v))
    if p["t"] == "NULL":
        return wire.P(wire.T_NULL, b"")
    return wire.P(wire.T_VAR_STRING if p["t"] == "bitmap-str" else wire.T_LONGLONG, None)


def denotes(toks, p):
    """Do these tokens form one literal denoting exactly parameter p?"""
    k = p["k"]
    t = sqllex.plain(toks)
    if k in ("s", "long"):
        return len(t) == 1 and t[0] == ("str", p["v"])
    if k == "n":
        return len(t) == 1 and t[0][0] == "word" and t[0][1].upper() == "NULL"
    neg = False
    if t and t[0] == ("op", "-"):
        neg, t = True, t[1:]
    if len(t) != 1 or t[0][0] != "num":
        return False
    if k == "i":
        return t[0][1].isdigit() and int(t[0][1]) * (-1 if neg else 1) == p["v"]
    v = struct.unpack(">d", bytes.fromhex(p["v"]))[0]
    return float(t[0][1]) * (-1 if neg else 1) == v


def ntok(toks, i):
    """Number of tokens a literal starting at token i takes."""
    return 2 if toks[i][:2] == ("op", "-") else 1


def check_bound(template, params, sql):
    tt = sqllex.tokens(template)
    pos = [t for t in tt if t[0] == "param"]
    try:
        rt = sqllex.tokens(sql)
    except sqllex.LexError as e:
        check(False, f"binding {params!r} into {template!r} gives a broken statement {sql!r}: {e}", key="lex")
    i, k = 0, 0
    for t in tt:
        if t[0] != "param":
            check(i < len(rt) and rt[i][:2] == t[:2], lambda: f"{template!r} with {params!r} became {sql!r}: token {t[:2]} became {rt[i][:2] if i < len(rt) else None}", key="token")
            i += 1
            continue
        check(i < len(rt), lambda: f"{template!r} became {sql!r}: parameter {k} is missing", key="missing")
        n = ntok(rt, i)
        check(denotes(rt[i:i + n], params[k]), lambda: f"{template!r} became {sql!r}: placeholder {k} bound to {sqllex.plain(rt[i:i+n])}, supplied {params[k]}", key="value")
        i += n
        k += 1
    check(i == len(rt), lambda: f"{template!r} with {params!r} became {sql!r}: extra tokens {sqllex.plain(rt[i:])}", key="extra")
    # the text between the placeholders is unchanged (white space may separate a literal from its neighbours)
    segs, prev = [], 0
    for t in pos:
        segs.append(template[prev:t[2]])
        prev = t[3]
    segs.append(template[prev:])
    at = 0
    for j, seg in enumerate(segs):
        if j:
            # literal j-1 starts at or after `at`
            lit = [x for x in rt if x[2] >= at][0]
            check(sql[at:lit[2]].strip(" ") == "", lambda: f"{template!r} became {sql!r}: text added before placeholder {j-1}", key="text")
            n = ntok(rt, rt.index(lit))
            at = rt[rt.index(lit) + n - 1][3]
            while not sql.startswith(seg, at) and sql[at:at + 1] == " ":
                at += 1
        check(sql.startswith(seg, at), lambda: f"{template!r} became {sql!r}: the text {seg!r} was altered", key="text")
        at += len(seg)
    check(sql[at:].strip(" ") == "", lambda: f"{template!r} became {sql!r}: text added at the end", key="text")


def send_long(w, c, sid, i, p, codec, order):
    data = p["v"].encode(codec)
    cuts = sorted({x % (len(data) + 1) for x in p["cuts"]})
    prev = 0
    for x in cuts + [len(data)]:
        c.cmd(wire.com_stmt_send_long_data(sid, i, data[prev:x]))
        prev = x


def nontrivial(template, params):
    tt = sqllex.tokens(template)
    return (template.count("?") != sum(t[0] == "param" for t in tt) or
            any(p["k"] == "long" or (p["k"] == "s" and any(ch in p["v"] for ch in "'\\?-#/`\"")) for p in params))


# ----------------------------------------------------------------- arbitrary token sequences
TPIECES = ["SELECT ", "a", " FROM ", "t", "=", "(", ")", ",", ";", " ", "\n", "-", "- ", "+", "1", "1.5", "x1", "@v", ":=", "'?'", "'a''?'", "'a\\'?'", "'\\\\'", "''",
           '"?"', '"a""?"', '"it\'s ?"', "'say \"?\"'", '"\\"?"', "`?`", "`a``?`", "`'`", "'`'", "/* ? */", "/*'*/", "/**/", "-- ?\n", "-- it's\n", "# ?\n", "#'\n", "--\n",
           "\u00e9", "'\u00e9?'", "'%s?'", "'{}?'", "*", "/", " AND ", " IN ", "N'?'", "x'41'", "_utf8'?'", "$", "'multi\nline?'", "`a\\`", "`\\?`", "# ?\r?\n", "-- \r?\n", "--\r?\n", "\r", "'\r?'", "/*\\*/", "--", "-- \\\n", "'\\n?'", "/* it's ? \" ` */", "->", "<", ">=", "!="]


@st.composite
def templates(draw, maxp=6):
    parts = draw(st.lists(st.one_of(st.sampled_from(TPIECES), st.just("?"), st.just(" ? ")), min_size=1, max_size=14))
    t = "".join(parts)
    return t


CS = [45, 45, 45, 8, 13, 28, 1, 51, 248]


@st.composite
def raw_cases(draw):
    t = draw(templates())
    try:
        n = sum(x[0] == "param" for x in sqllex.tokens(t))
    except sqllex.LexError:
        t, n = "SELECT ?", 1
    return {"t": t, "runs": [[draw(param()) for _ in range(n)] for _ in range(draw(st.integers(1, 3)))],
            "cs": draw(st.sampled_from(CS)), "caps": draw(st.integers(0, 3)), "order": draw(st.integers(0, 5))}


CAPS = [wire.FULL_CAPS, wire.BASE_CAPS, wire.FULL_CAPS & ~wire.QUERY_ATTRIBUTES, wire.BASE_CAPS | wire.QUERY_ATTRIBUTES]


def adapt(case, codec):
    """Keep only characters representable in the client charset."""
    t = clean(case["t"], codec)
    try:
        n = sum(x[0] == "param" for x in sqllex.tokens(t))
    except sqllex.LexError:
        return None, None
    runs = []
    for r in case["runs"]:
        r = [dict(p, v=clean(p["v"], codec)) if p["k"] in ("s", "long") else p for p in r]
        if len(r) != n:
            return None, None
        runs.append(r)
    return t, runs


def run_raw(case, ctx):
    codec = charsets.codec_of_collation(case["cs"])
    t, runs = adapt(case, codec)
    if t is None:
        return
    with World(session_factory=lambda: RawSession(w)) as w:
        w.got = []
        c = w.login(caps=CAPS[case["caps"]], charset=case["cs"])
        p = c.prepare(t, enc=codec)
        check(p.kind == "prepare", lambda: f"prepare of {t!r} answered with {p!r}")
        n = sum(x[0] == "param" for x in sqllex.tokens(t))
        check(p.num_params == n, lambda: f"{t!r} has {n} placeholders, {p.num_params} announced", key="count")
        for params in runs:
            ctx.nontrivial(nontrivial(t, params))
            idx = [i for i, q in enumerate(params) if q["k"] == "long"]
            if case["order"] % 2:
                idx.reverse()
            for i in idx:
                send_long(w, c, p.stmt_id, i, params[i], codec, 0)
            w.got.clear()
            r = c.cmd(wire.com_stmt_execute(p.stmt_id, c.caps, [wire_param(q, codec) for q in params]))
            check(r.kind == "ok", lambda: f"executing {t!r} with {params!r} answered with {r!r}", key="exec")
            check(len(w.got) == 1, lambda: f"application received {len(w.got)} statements")
            check_bound(t, params, w.got[0][0])
            for q in params:
                ctx.tag(q["k"])


# ----------------------------------------------------------------- what the parser makes of it
SEL = ["SELECT {} FROM t", "SELECT a FROM t WHERE x = {}", "INSERT INTO t VALUES ({}, {})", "UPDATE t SET a = {}, b = {} WHERE c = '?' AND d = {}",
       "SELECT a, '?', \"it's ?\" FROM `t?` WHERE x IN ({}, {}, {}) /* ? */", "SELECT f({}) + {} FROM t WHERE x LIKE {}", "DELETE FROM t WHERE a={} OR b={}",
       "SELECT {} AS `?` FROM t WHERE y = '\\'?' -- ?\n AND z = {}", "SELECT a FROM t WHERE x = {} # ?\n", "SELECT CONCAT({},'?',{}) FROM t",
       "SELECT a-{}, b-{} FROM t", "SELECT a FROM t WHERE x={}AND y>{}OR z={}", "SELECT a*{}/{}-{}+{} FROM t", "SELECT a FROM t WHERE (a-{})>{}", "SELECT {}-{} FROM `t\\` WHERE `?\\`={}",
       "SELECT {}a, {}`b` FROM t", "SELECT a FROM t WHERE x={}-- ?\n AND y={}#?\n AND z={}/*?*/", "SELECT CASE WHEN a={}THEN{}ELSE{}END FROM t", "SELECT a FROM t WHERE a<{}-{} OR a>={}"]


@st.composite
def ast_cases(draw):
    i = draw(st.integers(0, len(SEL) - 1))
    n = SEL[i].count("{}")
    return {"tpl": i, "params": [draw(param()) for _ in range(n)], "caps": draw(st.integers(0, 3))}


def lits(e):
    out = []
    for node in e.walk():
        node = node[0] if isinstance(node, tuple) else node
        if isinstance(node, exp.Literal):
            neg = isinstance(node.parent, exp.Neg)
            out.append(("s", node.this) if node.is_string else ("n", float(node.this) * (-1 if neg else 1)))
        elif isinstance(node, exp.Null):
            out.append(("null", ""))
    return sorted(out, key=repr)


def run_ast(case, ctx):
    tpl = SEL[case["tpl"]]
    t = tpl.replace("{}", "?")
    params = [dict(p, v=clean(p["v"], "utf-8")) if p["k"] in ("s", "long") else p for p in case["params"]]
    ctx.nontrivial(nontrivial(t, params))
    seen = []

    def query(s, e, sql, attrs):
        seen.append((e, sql))
        return None
    with World(app=App(query=query)) as w:
        c = w.login(caps=CAPS[case["caps"]])
        p = c.prepare(t)
        check(p.num_params == len(params), lambda: f"{t!r}: {p.num_params} parameters announced, has {len(params)} placeholders", key="count")
        for i, q in enumerate(params):
            if q["k"] == "long":
                send_long(w, c, p.stmt_id, i, q, "utf-8", 0)
        r = c.cmd(wire.com_stmt_execute(p.stmt_id, c.caps, [wire_param(q, "utf-8") for q in params]))
        check(r.kind == "ok" and len(seen) == 1, lambda: f"{t!r} with {params!r}: {len(seen)} statements reached the application, response {r!r}", key="ast-once")
        e, sql = seen[0]
        check_bound(t, params, sql)
        want = []
        for tok in sqllex.tokens(t):
            if tok[0] == "str":
                want.append(("s", tok[1]))
            elif tok[0] == "num":
                want.append(("n", float(tok[1])))
        for q in params:
            if q["k"] in ("s", "long"):
                want.append(("s", q["v"]))
            elif q["k"] == "n":
                want.append(("null", ""))
            else:
                want.append(("n", float(q["v"]) if q["k"] == "i" else struct.unpack(">d", bytes.fromhex(q["v"]))[0]))
        got = lits(e)
        check(got == sorted(want, key=repr), lambda: f"{sql!r}: the parsed statement has literals {got}, expected {sorted(want, key=repr)}", key="ast-literals")


# ----------------------------------------------------------------- histories of several statements
@st.composite
def hist_cases(draw):
    n = draw(st.integers(1, 3))
    stm = [draw(st.integers(0, 4)) for _ in range(n)]
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.integers(0, 9))
        s = draw(st.integers(0, n - 1))
        if k < 4:
            ops.append(["long", s, draw(st.integers(0, 5)), draw(strings)])
        elif k < 8:
            ops.append(["exec", s, [draw(param()) for _ in range(4)], draw(st.sampled_from([None, None, "error", "bug", "rows", "badrows", "cursor"]))])
        elif k == 8:
            ops.append(["reset", s])
        else:
            ops.append(["close", s])
    return {"np": stm, "ops": ops, "caps": draw(st.integers(0, 3))}


def run_hist(case, ctx):
    """Long-data buffers belong to (statement, parameter), accumulate in order and are consumed by one execution."""
    with World(session_factory=lambda: RawSession(w)) as w:
        w.got = []
        c = w.login(caps=CAPS[case["caps"]])
        stm = []
        for j, n in enumerate(case["np"]):
            t = f"CALL p{j}(" + ", ".join("?" * n) + ")"
            p = c.prepare(t)
            check(p.num_params == n, "parameter count")
            stm.append({"t": t, "id": p.stmt_id, "n": n, "buf": {}, "alive": True})
        check(len({s["id"] for s in stm}) == len(stm), "statement ids are not distinct")
        used = 0
        for op in case["ops"]:
            s = stm[op[1]]
            if op[0] == "long":
                data = clean(op[3], "utf-8")
                i = op[2] % max(1, s["n"])
                if s["n"] == 0:
                    continue
                c.cmd(wire.com_stmt_send_long_data(s["id"], i, data.encode()))
                if s["alive"]:
                    s["buf"][i] = s["buf"].get(i, "") + data
            elif op[0] == "exec":
                params = [dict(p, v=clean(p["v"], "utf-8")) if p["k"] in ("s", "long") else p for p in op[2][:s["n"]]]
                params = [{"k": "s", "v": p["v"], "t": "BLOB"} if p["k"] == "long" else p for p in params]
                for i, v in s["buf"].items():
                    params[i] = {"k": "long", "v": v, "t": "BLOB", "cuts": []}
                    used += 1
                w.got.clear()
                how = op[3] if len(op) > 3 else None
                w.outcome = "rows" if how == "cursor" else how
                r = c.cmd(wire.com_stmt_execute(s["id"], c.caps, [wire_param(p, "utf-8") for p in params], cursor=int(how == "cursor")))
                if not s["alive"]:
                    check(r.kind == "err" and not w.got, "a closed statement was executed")
                    continue
                check(len(w.got) == 1, lambda: f"execute answered with {r!r}, the application received {len(w.got)} statements", key="hist-exec")
                check(r.kind == {None: "ok", "rows": "rows", "cursor": "rows"}.get(how, "err") or how == "badrows", lambda: f"execute answered with {r!r}", key="hist-exec")
                check_bound(s["t"], params, w.got[0][0])
                s["buf"] = {}
            elif op[0] == "reset":
                r = c.cmd(wire.com_stmt_reset(s["id"]))
                check((r.kind == "ok") == s["alive"], lambda: f"reset answered with {r!r}")
                s["buf"] = {}
            else:
                c.cmd(wire.com_stmt_close(s["id"]))
                s["alive"] = False
                s["buf"] = {}
        ctx.nontrivial(used > 0)


# ----------------------------------------------------------------- systematic
def enum_nasty(tier):
    """Every nasty string in every adjacency, next to every other kind of parameter."""
    others = [{"k": "s", "v": "?", "t": "VAR_STRING"}, {"k": "i", "v": -1, "u": False, "t": "LONGLONG"}, {"k": "n", "t": "NULL"}, {"k": "s", "v": "'\\", "t": "BLOB"},
              {"k": "long", "v": "ab'?\\", "cuts": [2, 3], "t": "BLOB"}]
    tpls = ["SELECT ?, ? FROM t", "a??", "'?'?\"?\"?", "`?`=? AND '\\'?'=?", "?-- ?\n?", "x=?/*?*/,?", "-?--?", "1-?,?AND", "(?,'?''?',?)", "?'x'?", "''?'\\\\'?", "- ? - ?"]
    for v in NASTY:
        for o in others:
            for t in tpls if tier != "quick" else tpls:
                for caps in ((0, 1) if tier != "quick" else (len(v) % 2,)):
                    yield {"t": t, "runs": [[{"k": "s", "v": v, "t": "VAR_STRING"}, o], [o, {"k": "long", "v": v, "cuts": [1], "t": "BLOB"}]], "cs": 45, "caps": caps, "order": 0}
    for n in (0, 1, 7, 8, 9, 16, 17, 63, 64, 65, 127, 128, 129, 250, 251, 252, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1001, 2047, 4099) + (() if tier == "quick" else (16383, 32769, 65535)):
        for caps in range(4):
            params = [{"k": "n", "t": "bitmap"} if j % 3 == 1 else {"k": "i", "v": j, "u": False, "t": "LONG"} if j % 3 else {"k": "s", "v": "s%d?" % j, "t": "STRING"} for j in range(n)]
            yield {"t": "SELECT (" + ",".join("?" * n) + ")", "runs": [params, params[::-1]], "cs": 45, "caps": caps, "order": 0}
    # long data at every kind of index of wide statements
    for n in (2, 8, 9, 17, 65, 128, 129, 130, 255, 256, 257, 258, 300, 513, 1000) + (() if tier == "quick" else (4099, 32769, 65535)):
        at = {i for i in (0, 1, 7, 8, 44, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 767, 768, n - 1, 32767, 32768, 65534) if i < n}
        for caps in range(4):
            params = [{"k": "long", "v": "L%d'?" % j, "cuts": [2], "t": "BLOB" if j % 2 else "VAR_STRING"} if j in at else {"k": "n", "t": "bitmap"} if j % 3 == 1 else {"k": "i", "v": j, "u": False, "t": "LONG"} for j in range(n)]
            yield {"t": "SELECT (" + ",".join("?" * n) + ")", "runs": [params, params[::-1]], "cs": 45, "caps": caps, "order": caps}
    for t, (code, n) in INTS.items():
        for u in (True, False):
            lo, hi = (0, 2 ** (8 * n) - 1) if u else (-(2 ** (8 * n - 1)), 2 ** (8 * n - 1) - 1)
            for v in sorted({lo, hi, 0, 1, lo + 1, hi - 1, hi // 2, 127, 128 if hi > 127 else 0} & set(range(lo, hi + 1)) if n == 1 else {lo, hi, 0, 1, lo + 1, hi // 2, 200, 128}):
                yield {"t": "a=? b=?", "runs": [[{"k": "i", "v": v, "u": u, "t": t}, {"k": "s", "v": "z", "t": "STRING"}]], "cs": 45, "caps": 0, "order": 0}
    for f in (0.0, -0.0, 1.5, -1.5, 1e16, 1e22, -1e22, 1e-7, 5e-324, 1.7976931348623157e308, 0.1, 1e15, 123456789.125, 3.4e38):
        yield {"t": "-? -? +?", "runs": [[{"k": "f", "v": struct.pack(">d", f).hex(), "t": "DOUBLE"}, {"k": "i", "v": -5, "u": False, "t": "LONG"},
                                         {"k": "f", "v": struct.pack(">d", struct.unpack("<f", struct.pack("<f", f))[0]).hex() if abs(f) < 3.4e38 else struct.pack(">d", 0.5).hex(), "t": "FLOAT"}]], "cs": 45, "caps": 0, "order": 0}


FILLS = ["x", "'", "\\", "it's ?\\", "\u00e9", "?", "\u2603"]


def run_lens(case, ctx):
    """Values of every length at which the encoding of a length changes, with a value behind them that must stay in place."""
    n, fill = case["n"], FILLS[case["fill"]]
    v = (fill * (n // len(fill) + 1))[:n] if case["unit"] == "chars" else (fill * n).encode()[:n].decode("utf-8", "ignore")
    kind = {"k": "long", "v": v, "cuts": [n // 2, 1, n - 1], "t": "BLOB"} if case["long"] else {"k": "s", "v": v, "t": case["t"]}
    rest = [{"k": "s", "v": "z'?", "t": "STRING"}, {"k": "i", "v": -3, "u": False, "t": "LONGLONG"}]
    params = rest[:case["at"]] + [kind] + rest[case["at"]:]
    t = "CALL p(?, ?, ?)"
    with World(session_factory=lambda: RawSession(w)) as w:
        w.got = []
        c = w.login(caps=CAPS[case["caps"]])
        p = c.prepare(t)
        if case["long"]:
            send_long(w, c, p.stmt_id, case["at"], kind, "utf-8", 0)
        r = c.cmd(wire.com_stmt_execute(p.stmt_id, c.caps, [wire_param(q, "utf-8") for q in params]))
        check(r.kind == "ok" and len(w.got) == 1, lambda: f"a parameter of {n} {case['unit']}: answered with {r!r}", key="len-exec")
        sql = w.got[0][0]
        if n > 1 << 20:
            i = sql.index("x")
            check(sql.count("x") == n and sql[i:i + n] == "x" * n, lambda: f"a parameter of {n} characters became one of {sql.count('x')}", key="len-value")
            sql = sql[:i] + sql[i + n:]
            params[case["at"]] = dict(kind, v="")
        check_bound(t, params, sql)
        ctx.nontrivial(n > 250)


def enum_lens(tier):
    sizes = list(range(0, 4)) + list(range(248, 262)) + [510, 511, 512, 513, 4095, 4096, 4097, 16383, 16384, 32766, 32767, 32768, 32769, 65530, 65533, 65534, 65535, 65536, 65537, 66000, 70000, 131072]
    for k, n in enumerate(sizes):
        for fill in range(len(FILLS)):
            for j, unit in enumerate(("bytes", "chars")):
                for at in range(3):
                    if tier == "quick" and (k + fill + at + j) % 3 and n > 300:
                        continue
                    yield {"n": n, "fill": fill, "unit": unit, "at": at, "long": False, "t": sorted(STRT)[(k + fill + at) % len(STRT)], "caps": (k + at + j) % 4}
            yield {"n": n, "fill": fill, "unit": "bytes", "at": fill % 3, "long": True, "t": "BLOB", "caps": k % 4}
    for n in (2 ** 24 - 40, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1):
        for long in (False, True):
            yield {"n": n, "fill": 0, "unit": "bytes", "at": n % 3, "long": long, "t": "BLOB", "caps": n % 4}


# ----------------------------------------------------------------- executions that rely on the parameter types sent before
def run_rebound(case, ctx):
    t = "CALL p(" + ", ".join("?" * len(case["runs"][0][1])) + ")"
    with World(session_factory=lambda: RawSession(w)) as w:
        w.got = []
        c = w.login(caps=CAPS[case["caps"]])
        p = c.prepare(t)
        known = False
        for bound, params in case["runs"]:
            w.got.clear()
            r = c.cmd(wire.com_stmt_execute(p.stmt_id, c.caps, [wire_param(q, "utf-8") for q in params], bound=bound))
            if bound:
                check(r.kind == "ok", lambda: f"execute answered with {r!r}", key="rebound")
            ctx.nontrivial(not bound)
            if r.kind == "ok":
                check(len(w.got) == 1, "the application received nothing", key="rebound")
                check(bound or known, lambda: f"parameters whose types the client never told became {w.got[0][0]!r}", key="rebound")
                check_bound(t, params, w.got[0][0])
                known = True
            else:
                check(r.kind == "err" and not w.got, lambda: f"answered with {r!r}, the application received {w.got}", key="rebound")
        check(c.ping(), "unusable", key="rebound")


@st.composite
def rebound_cases(draw):
    base = [p if p["k"] != "long" else {"k": "s", "v": p["v"], "t": "BLOB"} for p in draw(st.lists(param(), min_size=1, max_size=5))]

    def again(p):
        if p["k"] == "i":
            n = INTS[p["t"]][1] * 8
            return dict(p, v=draw(st.integers(0, 2 ** n - 1) if p["u"] else st.integers(-(2 ** (n - 1)), 2 ** (n - 1) - 1)))
        return dict(p, v=draw(strings)) if p["k"] == "s" else p
    runs = [[draw(st.integers(0, 3)) and 1, base]]
    for _ in range(draw(st.integers(1, 4))):
        runs.append([draw(st.integers(0, 1)), [again(p) for p in base]])
    return {"runs": [[b, [dict(p, v=clean(p["v"], "utf-8")) if p["k"] == "s" else p for p in ps]] for b, ps in runs], "caps": draw(st.integers(0, 3))}


def enum_pairs(tier):
    """All pairs / triples of template pieces with a placeholder in every position."""
    ps = [p for p in TPIECES]
    val = [{"k": "s", "v": "it's ?\\", "t": "VAR_STRING"}, {"k": "i", "v": -7, "u": False, "t": "LONGLONG"}]
    for i, a in enumerate(ps):
        for j, b in enumerate(ps):
            if tier == "quick" and (i + j) % 3:
                continue
            for t in (a + "?" + b, a + b + "?", "?" + a + "?" + b + "?"):
                try:
                    n = sum(x[0] == "param" for x in sqllex.tokens(t))
                except sqllex.LexError:
                    continue
                yield {"t": t, "runs": [[val[(k + i) % 2] for k in range(n)], [val[(k + i + 1) % 2] for k in range(n)]], "cs": 45, "caps": (i + j) % 4, "order": 0}


# ----------------------------------------------------------------- ids of every width
def run_ids(case, ctx):
    """Long data and values meet the statement they are meant for, however many statements are open."""
    with World(session_factory=lambda: RawSession(w)) as w:
        w.got = []
        c = w.login(caps=CAPS[case["caps"]], charset=45)
        open_ = {}
        left = case["total"]
        while left:
            # many at once
            n = min(left, 4000)
            left -= n
            data, texts = [], []
            for _ in range(n):
                t = "SELECT ?, ?, '%d'" % (len(open_) + len(texts))
                texts.append(t)
                f, nxt = wire.frame(wire.com_stmt_prepare(t.encode()), 0)
                data.append(f)
            c.pump_idle()
            c.raw(b"".join(data))
            w.settle()
            for t in texts:
                c.parser = wire.Parser(wire.command_class(wire.com_stmt_prepare(t.encode())), c.caps)
                c.expect_seq = nxt
                while not c.parser.done:
                    p = c._next_payload()
                    check(p is not None, "COM_STMT_PREPARE unanswered")
                    c.parser.feed(p)
                r = c.parser.r
                check(r.kind == "prepare" and r.num_params == 2 and r.stmt_id not in open_, lambda: f"prepare: {r!r}", key="prepare")
                open_[r.stmt_id] = t
        ids = sorted(open_)
        picks = [ids[i] for i in sorted({0, 1, 2, 254, 255, 256, 257, 511, 32767, 32768, 65534, 65535, 65536, 65537, 65792, len(ids) - 1}) if i < len(ids)]
        for rnd in range(2):
            for sid in picks:
                c.cmd(wire.com_stmt_send_long_data(sid, rnd, b"first of %d '" % sid))
            for sid in reversed(picks):
                c.cmd(wire.com_stmt_send_long_data(sid, rnd, b"? second of %d" % sid))
            reset = [sid for i, sid in enumerate(picks) if i % 5 == 2 + rnd]
            for sid in reset:
                r = c.cmd(wire.com_stmt_reset(sid))
                check(r.kind == "ok", lambda: f"reset of {sid} answered with {r!r}", key="exec")
            for sid in picks:
                longp = {"k": "s" if sid in reset else "long", "v": "plain" if sid in reset else f"first of {sid} '? second of {sid}", "t": "BLOB"}
                params = [{"k": "i", "v": sid, "u": False, "t": "LONGLONG"}]
                params.insert(rnd, longp)
                w.got.clear()
                r = c.cmd(wire.com_stmt_execute(sid, c.caps, [wire_param(q, "utf-8") for q in params]))
                check(r.kind == "ok" and len(w.got) == 1, lambda: f"executing {sid} answered with {r!r}", key="exec")
                check_bound(open_[sid], params, w.got[0][0])
        ctx.nontrivial()


def enum_ids(tier):
    for total in (3, 300, 66000) + (() if tier == "quick" else (140000,)):
        yield {"total": total, "caps": total % 4}


CAMPAIGNS = [
    Campaign("ids", run_ids, enum=enum_ids, cpu=200),
    Campaign("nasty", run_raw, enum=enum_nasty, cpu=20),
    Campaign("piece-pairs", run_raw, enum=enum_pairs, cpu=20),
    Campaign("lengths", run_lens, enum=enum_lens, cpu=60),
    Campaign("templates", run_raw, strategy=raw_cases, quick=5000, thorough=150000, cpu=20),
    Campaign("parsed", run_ast, strategy=ast_cases, quick=2500, thorough=60000, cpu=20),
    Campaign("rebound", run_rebound, strategy=rebound_cases, quick=1000, thorough=30000, cpu=20),
    Campaign("histories", run_hist, strategy=hist_cases, quick=2000, thorough=50000, cpu=20),
]
