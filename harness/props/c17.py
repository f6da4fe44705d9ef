"""C17 - query attributes reach the application exactly as sent."""
import struct

from hypothesis import strategies as st

import wire
from props.c06 import INTS, NASTY, STRT, check_bound, wire_param
from runner import Campaign
from world import App, AppSession, World, check

PROPERTY = "C17"
LEVEL = "exploration"
RULE = ("cases = sequences of COM_QUERY and COM_STMT_EXECUTE on one connection with 0..300 attributes (names empty, multi-byte, long; values of every string, integer width and signedness, float and NULL type), 0..17 positional "
        "parameters (NULLs, long data, cursors, re-execution), texts starting with bytes 00-02, fb-ff and arbitrary others, QUERY_ATTRIBUTES supported or not by either side, several client character sets, raw and parsing applications, "
        "applications that modify the mapping they are given; the mapping and text received are compared with what was sent, names, values and types; non-trivial = some statement carries attributes, or starts with a byte below 3 without the capability")
ASSUMPTIONS = ["an attribute name given twice in one statement may have either value", "string values are decoded with the client's character set"]

CS = [(45, "utf-8"), (45, "utf-8"), (8, "cp1252"), (28, "gbk")]
SERVER_OFF = wire.FULL_CAPS & ~wire.QUERY_ATTRIBUTES


class RawSession(AppSession):
    async def handle_query(self, sql, attrs):
        self.world.got.append((sql, dict(attrs)))
        if self.world.mutate:
            attrs["__app__"] = "x"
            attrs.pop("a", None)
        return None


class ParsingSession(AppSession):
    async def query(self, expression, sql, attrs):
        self.world.got.append((sql, dict(attrs)))
        if self.world.mutate:
            attrs.clear()
            attrs["__app__"] = "x"
        return [(1,)], ["a"]


NAMES = ["", "a", "b", "trace_id", "\u00e9", "\u96ea\u6708", "a b", "'", "\\", "?", "\0", "n" * 250, "n" * 251, "\u00fc" * 130, "_", "A", "0", "a" * 5000]
STRINGS = ["", "x", "\u00e9\u00fc", "\u96ea", "' OR 1=1 --", "\\", "\0\1\2", "s" * 250, "s" * 251, "s" * 252, "t" * 65535, "t" * 65536, "\u00e9" * 130, "NULL", "1", "?", "a\nb", " "]


def ok_in(s, codec):
    try:
        return s.encode(codec).decode(codec) == s
    except UnicodeError:
        return False


def fit(s, codec):
    return s if ok_in(s, codec) else "".join(c for c in s if ok_in(c, codec))


def value_of(p, codec):
    """the value the application must receive"""
    if p["k"] in ("s", "long"):
        return fit(p["v"], codec)
    if p["k"] == "i":
        return p["v"]
    if p["k"] == "f":
        v = struct.unpack(">d", bytes.fromhex(p["v"]))[0]
        return struct.unpack("<f", struct.pack("<f", v))[0] if p["t"] == "FLOAT" else v
    return None


def same(a, b):
    if isinstance(b, float):
        return type(a) is float and struct.pack(">d", a) == struct.pack(">d", b) or (a != a and b != b and type(a) is float)
    return type(a) is type(b) and a == b


def encode(p, codec, name=b""):
    w = wire_param({**p, "v": fit(p["v"], codec)} if p["k"] == "s" else p, codec)
    w.name = name
    return w


def compare(what, sent, got):
    names = {}
    for n, v in sent:
        names.setdefault(n, []).append(v)
    check(set(got) == set(names), lambda: f"{what}: the application received attributes {sorted(map(repr, got))[:8]} instead of {sorted(map(repr, names))[:8]}", key="names")
    for n, vs in names.items():
        check(any(same(got[n], v) for v in vs), lambda: f"{what}: attribute {n!r:.40} arrived as {got[n]!r:.80} instead of {vs[-1]!r:.80}", key="value")


def run(case, ctx):
    cid, codec = CS[case["cs"] % len(CS)]
    server_off = case["caps"] == 2
    caps = wire.FULL_CAPS if case["caps"] != 1 else wire.FULL_CAPS & ~wire.QUERY_ATTRIBUTES
    raw = case["raw"]
    holder = {}
    with World(app=App(), session_factory=lambda: (RawSession if raw else ParsingSession)(holder["w"]), capabilities=SERVER_OFF if server_off else None) as w:
        holder["w"] = w
        w.got = []
        w.mutate = False
        c = w.client(caps)
        check(c.login(user=b"u", charset=cid).kind == "ok", "login fails", key="login")
        qa = bool(c.caps & wire.QUERY_ATTRIBUTES)
        check(qa == (case["caps"] == 0), "QUERY_ATTRIBUTES is not negotiated as configured", key="negotiation")
        stmts = {}
        for s in case["steps"]:
            w.mutate = bool(s.get("mutate"))
            w.got.clear()
            if s["op"] == "reset":
                check(c.cmd(wire.RESET_CONNECTION).kind == "ok", "COM_RESET_CONNECTION fails", key="reset")
                stmts = {}
                continue
            attrs = s["attrs"] if qa else []
            sent = [(fit(n, codec), value_of(p, codec)) for n, p in attrs]
            wattrs = [encode(p, codec, fit(n, codec).encode(codec)) for n, p in attrs]
            if s["op"] == "query":
                sql = fit(s["sql"], codec) if raw else PARSED[s["i"] % len(PARSED)]
                if not sql:
                    continue
                r = c.cmd(wire.com_query(sql.encode(codec), c.caps, wattrs))
                expect = 2 if not raw and ";" in sql else 1
                check(not r.err and len(w.got) == expect, f"COM_QUERY {sql!r:.60} with {len(sent)} attributes, capability {qa}: {r!r}, {len(w.got)} statements reached the application", key="query-lost")
                for text, got in w.got:
                    check(text == sql, f"COM_QUERY {sql!r:.80} with {len(sent)} attributes, capability {qa} arrived as {text!r:.80}", key="sql")
                    if not w.mutate or expect == 1:
                        compare(f"COM_QUERY {sql!r:.60}", sent, got)
                ctx.nontrivial(bool(sent) or (not qa and sql.encode(codec)[0] < 3))
                ctx.tag("query", "qa" if qa else "no-qa", f"n{min(len(sent), 9)}")
            else:
                m = len(s["params"])
                template = ("CALL " if raw else "SELECT a FROM t WHERE x IN (0, 'q?', ") + ", ".join(["?"] * m + (["1"] if not raw and not m else [])) + ("" if raw else ")")
                if m not in stmts:
                    pr = c.cmd(wire.com_stmt_prepare(template.encode(codec)))
                    check(not pr.err, f"COM_STMT_PREPARE answered {pr!r}", key="prepare")
                    stmts[m] = pr.stmt_id
                sid = stmts[m]
                for i, p in enumerate(s["params"]):
                    if p["k"] == "long":
                        data = fit(p["v"], codec).encode(codec)
                        c.cmd(wire.com_stmt_send_long_data(sid, i, data[:len(data) // 2]))
                        c.cmd(wire.com_stmt_send_long_data(sid, i, data[len(data) // 2:]))
                wparams = [encode(p, codec) for p in s["params"]]
                flag = bool(qa and (wattrs or s["flag"]))
                if not qa:
                    flag = False
                r = c.cmd(wire.com_stmt_execute(sid, c.caps, wparams, wattrs, cursor=1 if s.get("cursor") and not raw else 0, count_flag=flag))
                check(not r.err and len(w.got) == 1, f"COM_STMT_EXECUTE of {m} parameters and {len(sent)} attributes, capability {qa}: {r!r}, {len(w.got)} statements reached the application", key="execute-lost")
                text, got = w.got[0]
                check_bound(template, [{**p, "v": fit(p["v"], codec)} if p["k"] in ("s", "long") else p for p in s["params"]], text)
                compare(f"COM_STMT_EXECUTE of {m} parameters", sent, got)
                ctx.nontrivial(bool(sent))
                ctx.tag("execute", "qa" if qa else "no-qa", f"n{min(len(sent), 9)}", f"m{min(m, 9)}")
        check(c.ping(), "the connection doesn't survive", key="alive")


PARSED = ["SELECT a FROM t", "INSERT INTO t VALUES (1, '?')", "SELECT a FROM t; SELECT b FROM u", "UPDATE t SET a = 1 -- x", "SELECT /*+ SET_VAR(sql_mode='x') */ a FROM t", "SELECT a FROM t WHERE b = @@version", "EXPLAIN SELECT a FROM t",
          "SELECT '\u00e9' FROM t", "CREATE TABLE x (a INT)", "SELECT a FROM (SELECT 1 AS a) AS b WHERE a IN (SELECT c FROM d)"]


@st.composite
def value(draw, floats=True):
    k = draw(st.sampled_from("sssiiiiifn"))
    if k == "s":
        return {"k": "s", "v": draw(st.one_of(st.sampled_from(STRINGS), st.sampled_from(NASTY), st.text(max_size=8))), "t": draw(st.sampled_from(sorted(STRT)))}
    if k == "i":
        t = draw(st.sampled_from(sorted(INTS)))
        n = INTS[t][1] * 8
        u = draw(st.booleans())
        lo, hi = (0, 2 ** n - 1) if u else (-(2 ** (n - 1)), 2 ** (n - 1) - 1)
        return {"k": "i", "t": t, "u": u, "v": draw(st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 0, 1, hi // 2, hi // 2 + 1])))}
    if k == "f":
        f = draw(st.booleans())
        v = draw(st.floats(allow_nan=floats, allow_infinity=floats, width=32 if f else 64))
        return {"k": "f", "t": "FLOAT" if f else "DOUBLE", "v": struct.pack(">d", v).hex()}
    return {"k": "n", "t": draw(st.sampled_from(["NULL", "bitmap", "bitmap-str"])), "v": None}


@st.composite
def attributes(draw):
    n = draw(st.sampled_from([0, 0, 1, 1, 2, 3, 4, 7, 8, 9, 16, 17, draw(st.integers(0, 40))]))
    if draw(st.integers(0, 60)) == 0:
        n = draw(st.sampled_from([249, 250, 251, 252, 256, 300]))
    name = st.one_of(st.sampled_from(NAMES[:17]), st.text(max_size=5))
    big = draw(value())
    out = []
    for i in range(n):
        if n > 40:
            out.append([f"k{i}", {"k": "i", "t": "SHORT", "u": False, "v": i - 9} if i % 3 else {"k": "n", "t": "bitmap", "v": None} if i % 2 else big])
        else:
            out.append([draw(name), draw(value())])
    return out


@st.composite
def step(draw):
    op = draw(st.sampled_from(["query", "query", "query", "execute", "execute", "execute", "reset"]))
    if op == "reset":
        return {"op": op}
    s = {"op": op, "attrs": draw(attributes()), "mutate": draw(st.booleans())}
    if op == "query":
        s["i"] = draw(st.integers(0, 40))
        s["sql"] = draw(st.one_of(st.text(min_size=1, max_size=12), st.sampled_from(["\x00", "\x01", "\x02", "\x00\x01", "\x00\x01SELECT 1", "\x01\x01\x00\x01\x08\x00\x01a12345678", "\x02\x01", "\x01", "\x00SELECT 1", "\xfb", "\xfc\x00", "\xfe", "\x03\x03", " ",
                                                                            "SELECT 1", "\u96ea", "\xff\xff", "q" * 70000]), st.text("\x00\x01\x02\x03a", min_size=1, max_size=6)))
        return s
    m = draw(st.sampled_from([0, 0, 1, 1, 2, 3, 6, 7, 8, 9, 15, 16, 17]))
    s["params"] = [draw(value(floats=False)) for _ in range(m)]
    if m and draw(st.integers(0, 3)) == 0:
        s["params"][draw(st.integers(0, m - 1))] = {"k": "long", "v": draw(st.sampled_from(STRINGS[:6])), "t": "BLOB"}
    s["flag"] = draw(st.booleans())
    s["cursor"] = draw(st.booleans())
    return s


@st.composite
def cases(draw):
    return {"cs": draw(st.integers(0, 3)), "caps": draw(st.sampled_from([0, 0, 0, 0, 1, 2])), "raw": draw(st.booleans()), "steps": draw(st.lists(step(), min_size=1, max_size=5))}


def enum_values(tier):
    """Every type at its boundaries x COM_QUERY/COM_STMT_EXECUTE x 0..9 positional parameters x position among other attributes."""
    vals = [{"k": "s", "v": v, "t": t} for t in sorted(STRT) for v in ["", "x", "\u00e9", "s" * 251, "t" * 65536]]
    for t, (_, n) in sorted(INTS.items()):
        n *= 8
        vals += [{"k": "i", "t": t, "u": False, "v": v} for v in (-(2 ** (n - 1)), -1, 0, 1, 2 ** (n - 1) - 1)] + [{"k": "i", "t": t, "u": True, "v": v} for v in (0, 1, 2 ** (n - 1) - 1, 2 ** (n - 1), 2 ** n - 1)]
    vals += [{"k": "f", "t": t, "v": struct.pack(">d", v).hex()} for t in ("FLOAT", "DOUBLE") for v in (0.0, -0.0, 1.5, -2.0 ** -126, 2.0 ** 127, float("inf"), float("-inf"), float("nan"))] + [{"k": "f", "t": "DOUBLE", "v": struct.pack(">d", v).hex()} for v in (5e-324, 1.7976931348623157e308, .1)]
    vals += [{"k": "n", "t": t, "v": None} for t in ("NULL", "bitmap", "bitmap-str")]
    one = {"k": "i", "t": "TINY", "u": False, "v": 7}
    null = {"k": "n", "t": "bitmap", "v": None}
    text = {"k": "s", "v": "\u00e9t\u00e9", "t": "VAR_STRING"}
    for j, v in enumerate(vals):
        steps = [{"op": "query", "i": j, "sql": "SELECT 1", "attrs": a, "mutate": j % 2} for a in ([["a", v]], [["", v]], [["x", null], ["a", v], ["z", text]], [["n" * 251, text], ["\u00fc", v]], [])]
        for m in (0, 1, 6, 7, 8, 9):
            steps.append({"op": "execute", "params": [[one, null, text][(i + j) % 3] for i in range(m)], "attrs": [[["a", v]], [["x", null], ["", v]], [["x", text], ["a", v], ["z", null]]][(j + m) % 3], "flag": True, "mutate": j % 2, "cursor": j % 2})
            steps.append({"op": "execute", "params": [[one, null, text][(i + j + 1) % 3] for i in range(m)], "attrs": [], "flag": bool(j % 2), "mutate": False, "cursor": False})
        for raw in (False, True):
            yield {"cs": j % 4, "caps": 0, "raw": raw, "steps": steps}
    for caps in (1, 2):
        for raw in (False, True):
            yield {"cs": 0, "caps": caps, "raw": raw, "steps": steps + [{"op": "query", "i": 0, "sql": chr(b) + x, "attrs": [], "mutate": False} for b in range(128) for x in ("", "\x01SELECT 1", "\x00", "\x01\x00\x01\x01\x00\x01aAb")]}
    # with the capability, the texts follow an empty or a filled block
    for n in (0, 1, 8):
        yield {"cs": 0, "caps": 0, "raw": True, "steps": [{"op": "query", "i": 0, "sql": chr(b) + x, "attrs": [[f"a{i}", vals[i * 7]] for i in range(n)], "mutate": bool(b % 2)} for b in range(128) for x in ("", "\x01SELECT 1", "\x00")]}
    for n in (249, 250, 251, 252, 255, 256, 300) + ((1000, 65535, 65536) if tier == "thorough" else (1000,)):
        attrs = [[f"k{i}", [one, null, text][i % 3]] for i in range(n)]
        yield {"cs": 0, "caps": 0, "raw": n % 2 == 0, "steps": [{"op": "query", "i": 0, "sql": "SELECT 1", "attrs": attrs, "mutate": False}] + [{"op": "execute", "params": [one, null][:m], "attrs": attrs, "flag": True, "mutate": False, "cursor": False} for m in (0, 1, 2)]}


CAMPAIGNS = [
    Campaign("values", run, enum=enum_values, cpu=60),
    Campaign("sequences", run, strategy=cases, quick=1500, thorough=60000, cpu=60),
]
