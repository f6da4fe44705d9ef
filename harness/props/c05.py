"""C05 - clients decode exactly the values the application returned (text and binary)."""
import math
import re
import struct
from datetime import date, datetime, timedelta
from decimal import Decimal

from hypothesis import strategies as st

import charsets
import wire
from runner import Campaign
from world import App, World, check

from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.charset import CharacterSet
from mysql_mimic.types import ColumnType

PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("cases = columns (typed with charset, or bare names incl. duplicates) x rows with NULLs x row source kind; each result is "
        "fetched over text, binary and cursor protocols, decoded by harness/wire.py according to the announced column types and "
        "compared with the application's values.  non-trivial = the result has a NULL, a negative/extreme number, a duration, "
        "a non-ASCII string, a duplicate name, or a bare column whose first value is NULL")
ASSUMPTIONS = ["values of a bare column are of one Python type", "values lie in the range of the announced column type",
               "a bare column has a non-NULL value within its first 300 rows, or none (type inference may look at a bounded prefix)"]

INT = {"TINY": 8, "SHORT": 16, "LONG": 32, "INT24": 24, "LONGLONG": 64, "YEAR": None, "BOOL": 1}
STR = ["VARCHAR", "VAR_STRING", "STRING", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB", "BLOB", "JSON", "ENUM", "SET", "BIT", "GEOMETRY"]
CHARSETS = ["utf8mb4", "utf8", "latin1", "ascii", "cp1251", "sjis", "gbk", "greek", "big5", "euckr", "gb18030", "cp850"]


# JSON-able cells: [tag, payload]
def value(c):
    t, v = c
    if t == "n":
        return None
    if t == "i" or t == "B":
        return bool(v) if t == "B" else int(v)
    if t == "f":
        return struct.unpack(">d", bytes.fromhex(v))[0]
    if t == "s":
        return v
    if t == "b":
        return bytes.fromhex(v)
    if t == "d":
        return date(*v)
    if t == "dt":
        return datetime(*v)
    if t == "td":
        return timedelta(microseconds=v)
    if t == "D":
        return Decimal(v)
    raise ValueError(t)


ints_of = {}
for name, bits in INT.items():
    if bits and name != "BOOL":
        lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
        ints_of[name] = st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 0, 1, -1, 2, lo + 1, hi - 1]),
                                  st.integers(-5, 5)).map(lambda v: ["i", v])
ints_of["YEAR"] = st.one_of(st.integers(1901, 2155), st.just(0)).map(lambda v: ["i", v])
ints_of["BOOL"] = st.integers(0, 1).map(lambda v: ["i", v])
bools = st.booleans().map(lambda b: ["B", b])


def fhex(x):
    return ["f", struct.pack(">d", x).hex()]


f64 = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.0, -0.0, 1.5, 1e16, -1e-7, 1e22, 5e-324, 1.7e308, 0.1]),
                st.integers(-1000, 1000).map(float)).map(fhex)
f32 = st.floats(allow_nan=False, allow_infinity=False, width=32).map(fhex)
decs = st.one_of(st.decimals(allow_nan=False, allow_infinity=False, min_value=-10 ** 20, max_value=10 ** 20, places=4),
                 st.decimals(allow_nan=False, allow_infinity=False, min_value=-1, max_value=1),
                 st.sampled_from(["0", "-0.00", "1E+5", "123456789012345678901234567890.123"]).map(Decimal)).map(lambda d: ["D", str(d)])
dates = st.one_of(st.dates(), st.sampled_from([date(1, 1, 1), date(9999, 12, 31), date(999, 1, 9), date(2024, 2, 29)])).map(
    lambda d: ["d", [d.year, d.month, d.day]])


def dtl(d):
    return ["dt", [d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond]]


dts = st.one_of(st.datetimes(), st.datetimes().map(lambda d: d.replace(microsecond=0)),
                st.datetimes().map(lambda d: d.replace(hour=0, minute=0, second=0, microsecond=0)),
                st.datetimes().map(lambda d: d.replace(hour=0, minute=0, second=0))).map(dtl)
LIM = (838 * 3600 + 59 * 60 + 59) * 1000000
tds = st.one_of(st.integers(-LIM, LIM), st.integers(-86400 * 10 ** 6, 86400 * 10 ** 6), st.integers(-3 * 10 ** 6, 3 * 10 ** 6),
                st.integers(-838 * 3600, 838 * 3600).map(lambda s: s * 10 ** 6), st.integers(-34, 34).map(lambda d: d * 86400 * 10 ** 6),
                st.integers(-999 * 3600, 999 * 3600).map(lambda s: s * 10 ** 6), st.integers(-400, 400).map(lambda d: d * 86400 * 10 ** 6 + 1),
                st.sampled_from([0, 1, -1, 10 ** 6, -10 ** 6, 86400 * 10 ** 6, -86400 * 10 ** 6, LIM, -LIM, 3600 * 10 ** 6, -60 * 10 ** 6])
                ).map(lambda u: ["td", u])
ALPH = {}


def alphabet(cs):
    """Characters of the BMP (plus a few astral ones) representable in the character set, unambiguously."""
    if cs not in ALPH:
        codec = charsets.CODEC["utf8mb3" if cs == "utf8" else cs]
        out = []
        for r in (range(0x20, 0x7F), range(0xA0, 0x17F), range(0x370, 0x460), range(0x3041, 0x3097), range(0x4E00, 0x4E60), range(0xAC00, 0xAC20), [0, 9, 10, 0x2603, 0x20AC]):
            for o in r:
                ch = chr(o)
                try:
                    if ch.encode(codec).decode(codec) == ch and (cs != "latin1" or ch.encode("latin1") == ch.encode("cp1252")):
                        out.append(ch)
                except UnicodeError:
                    pass
        if cs in ("sjis", "gbk", "big5", "euckr"):
            out = [c for c in out if c not in "\\~\u00a5\u203e\u00a0\u00b7\u2014"]
        if cs in ("utf8mb4", "gb18030"):
            out += ["\U0001F600", "\U00010348"]
        ALPH[cs] = out
    return ALPH[cs]


def strs(cs):
    return st.one_of(st.text(alphabet=st.sampled_from(alphabet(cs)), max_size=12),
                     st.sampled_from(["", "NULL", "'", "0", "x" * 250, "x" * 251, "y" * 300])).map(lambda s: ["s", s])


byts = st.one_of(st.binary(max_size=10), st.sampled_from([b"", b"\xfb", b"\x00", b"\xff" * 251, b"\xfe\xfc\xfd"])).map(lambda b: ["b", b.hex()])

TYPED = {**ints_of, "FLOAT": f32, "DOUBLE": f64, "DECIMAL": decs, "NEWDECIMAL": decs, "DATE": dates, "DATETIME": dts, "TIMESTAMP": dts, "TIME": tds}
BARE = {"bool": bools, "int": ints_of["LONGLONG"], "float": f64, "str": None, "bytes": byts, "datetime": dts, "date": dates, "timedelta": tds,
        "decimal": decs}


@st.composite
def column(draw):
    name = draw(st.one_of(st.sampled_from(["a", "b", "a", "\u00e9", "", "COUNT(*)", "x" * 260, "\u2603\U0001F600"]), st.text("abAB_`\u00e9", max_size=4)))
    k = draw(st.integers(0, 9))
    if k < 4:
        kind = draw(st.sampled_from(sorted(BARE)))
        return {"name": name, "bare": kind}
    if k < 8:
        return {"name": name, "type": draw(st.sampled_from(sorted(TYPED))), "cs": draw(st.sampled_from(["utf8mb4", "utf8mb4", "latin1"]))}
    return {"name": name, "type": draw(st.sampled_from(STR)), "cs": draw(st.sampled_from(CHARSETS)), "bytes": draw(st.integers(0, 3)) == 0}


def cell_strategy(col):
    if "bare" in col:
        s = BARE[col["bare"]] if col["bare"] != "str" else strs("utf8mb4")
    elif col["type"] in TYPED:
        s = TYPED[col["type"]]
        if col["type"] in ("TINY", "SHORT", "LONGLONG", "BOOL"):
            s = st.one_of(s, s, bools)
        if col["type"] in ("DOUBLE", "DECIMAL"):
            s = st.one_of(s, s, st.integers(-10 ** 6, 10 ** 6).map(lambda v: ["i", v]))
        if col["type"] in ("DATETIME", "TIMESTAMP"):
            s = st.one_of(s, s, dates)
    elif col.get("bytes"):
        s = byts
    else:
        s = strs(col["cs"])
    return s


SOURCES = ["list", "tuple", "gen", "iter", "agen", "agen_sleep", "aiter"]


@st.composite
def cases(draw):
    ncols = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.sampled_from([5, 6, 7, 8, 9, 14, 15, 16, 17, 23])))
    cols = [draw(column()) for _ in range(ncols)]
    nrows = draw(st.one_of(st.integers(0, 3), st.integers(0, 6), st.sampled_from([0, 1, 12])))
    if ncols > 6:
        nrows = min(nrows, 3)
    density = draw(st.integers(0, 3))
    rows = []
    strat = [cell_strategy(c) for c in cols]
    for i in range(nrows):
        row = []
        for j in range(ncols):
            row.append(["n", 0] if draw(st.integers(0, 3)) < density and draw(st.booleans()) else draw(strat[j]))
        rows.append(row)
    lead = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 5, 40, 290]))
    return {"cols": cols, "rows": rows, "lead": lead if ncols <= 6 else min(lead, 2), "src": draw(st.sampled_from(SOURCES)),
            "shape": draw(st.sampled_from(["tuple", "rs", "list-cols"])), "rowtype": draw(st.sampled_from(["tuple", "list"])),
            "fetch": draw(st.lists(st.integers(1, 9), min_size=1, max_size=4)), "caps": draw(st.sampled_from(["full", "old"])),
            "share": draw(st.sampled_from([0, 0, 1, 2, 3]))}


def make_source(kind, rows):
    if kind == "list":
        return list(rows)
    if kind == "tuple":
        return tuple(rows)
    if kind == "gen":
        return (r for r in rows)
    if kind == "iter":
        return iter(rows)
    if kind in ("agen", "agen_sleep"):
        import asyncio

        async def agen():
            for r in rows:
                if kind == "agen_sleep":
                    await asyncio.sleep(0)
                yield r
        return agen()

    class It:
        def __init__(self, it):
            self.it = it

        def __aiter__(self):
            return self

        async def __anext__(self):
            for r in self.it:
                return r
            raise StopAsyncIteration
    return It(iter(rows))


DECOY = {"bool": "x", "int": "x", "float": date(2001, 2, 3), "str": 1.5, "bytes": 7, "datetime": timedelta(1), "date": b"q", "timedelta": "s", "decimal": True}


class Shared:
    """Application that keeps its column list (and rows, where they can be iterated again) and returns them for several statements."""

    def __init__(self, case, rows):
        self.case, self.rows = case, rows
        cols = make_cols(case)
        self.cols = list(cols) if case["shape"] == "list-cols" or case["share"] == 3 else tuple(cols)
        self.src = make_source(case["src"], rows) if case["src"] in ("list", "tuple") else None
        self.rs = ResultSet(self.src, self.cols) if self.src is not None and case["shape"] == "rs" and all("bare" not in c for c in case["cols"]) else None

    def result(self):
        if self.rs is not None:
            return self.rs
        return (self.src if self.src is not None else make_source(self.case["src"], self.rows)), self.cols

    def decoy(self):
        return [tuple(DECOY[c["bare"]] if "bare" in c else None for c in self.case["cols"])] * 2, self.cols


def make_cols(case):
    cols = []
    for c in case["cols"]:
        if "bare" in c:
            cols.append(c["name"])
        else:
            cols.append(ResultColumn(c["name"], ColumnType[c["type"]], character_set=CharacterSet[c["cs"]]))
    return cols


def result_of(case, rows):
    cols = make_cols(case)
    src = make_source(case["src"], rows)
    if case["shape"] == "rs" and all("bare" not in c for c in case["cols"]):
        return ResultSet(src, cols)
    return src, (list(cols) if case["shape"] == "list-cols" else tuple(cols))


TEXT_DT = re.compile(rb"(\d{4})-(\d\d)-(\d\d)(?: (\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?)?")
TEXT_TD = re.compile(rb"(-?)(\d+):(\d\d):(\d\d)(?:\.(\d{1,6}))?")
TEXT_NUM = re.compile(rb"[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?")
INT_WIRE = {wire.T_TINY, wire.T_SHORT, wire.T_LONG, wire.T_INT24, wire.T_LONGLONG, wire.T_YEAR, wire.T_BOOL}
STR_WIRE = wire.LENENC_TYPES - {wire.T_DECIMAL, wire.T_NEWDECIMAL}


def us(frac):
    return int((frac or b"0").ljust(6, b"0"))


def text_value(raw, col):
    """What a standard client makes of a text-protocol value of this column type."""
    t = col.type
    if raw is None:
        return None
    if t in INT_WIRE:
        check(re.fullmatch(rb"-?\d+", raw), lambda: f"text value {raw!r} in an integer column of type {t:#x}", key="text-int")
        v = int(raw)
        lo, hi = {wire.T_TINY: (-128, 127), wire.T_BOOL: (-128, 127), wire.T_SHORT: (-2 ** 15, 2 ** 15 - 1), wire.T_YEAR: (0, 9999),
                  wire.T_INT24: (-2 ** 23, 2 ** 23 - 1), wire.T_LONG: (-2 ** 31, 2 ** 31 - 1), wire.T_LONGLONG: (-2 ** 63, 2 ** 63 - 1)}[t]
        check(lo <= v <= hi, lambda: f"text value {raw!r} outside the range of column type {t:#x}", key="text-range")
        return v
    if t in (wire.T_DOUBLE, wire.T_FLOAT):
        check(TEXT_NUM.fullmatch(raw), lambda: f"text value {raw!r} in a floating-point column", key="text-float")
        return float(raw)
    if t in (wire.T_DECIMAL, wire.T_NEWDECIMAL):
        check(TEXT_NUM.fullmatch(raw), lambda: f"value {raw!r} in a decimal column", key="text-dec")
        return Decimal(raw.decode())
    if t in (wire.T_DATE, wire.T_DATETIME, wire.T_TIMESTAMP):
        m = TEXT_DT.fullmatch(raw)
        check(m, lambda: f"text value {raw!r} in a date/datetime column", key="text-dt")
        g = m.groups()
        check(t != wire.T_DATE or g[3] is None, lambda: f"text value {raw!r} in a DATE column", key="text-date")
        return ("dt",) + tuple(int(x or 0) for x in g[:6]) + (us(g[6]),)
    if t == wire.T_TIME:
        m = TEXT_TD.fullmatch(raw)
        check(m and int(m[3]) < 60 and int(m[4]) < 60, lambda: f"text value {raw!r} in a TIME column", key="text-time")
        v = ((int(m[2]) * 60 + int(m[3])) * 60 + int(m[4])) * 10 ** 6 + us(m[5])
        return ("td", -v if m[1] else v)
    if t in STR_WIRE:
        return raw
    if t == wire.T_NULL:
        check(False, "a non-NULL value in a column announced with type NULL", key="null-type")
    check(False, f"column announced with type {t:#x}", key="type")


def binary_values(payload, cols):
    out = []
    for v, c in zip(wire.binary_row(payload, cols), cols):
        if v is not None and c.type in (wire.T_DECIMAL, wire.T_NEWDECIMAL):
            check(TEXT_NUM.fullmatch(v), lambda: f"value {v!r} in a decimal column", key="bin-dec")
            v = Decimal(v.decode())
        if v is not None and c.type == wire.T_NULL:
            check(False, "non-NULL value in a NULL column")
        out.append(v)
    return out


def same(app, got, col, spec):
    """Does the decoded client value denote the application's value?"""
    if app is None or got is None:
        return app is None and got is None
    if isinstance(app, (bool, int)):
        return not isinstance(got, (bytes, tuple)) and got == app
    if isinstance(app, float):
        return isinstance(got, float) and got == app and math.copysign(1, got) == math.copysign(1, app) or (isinstance(got, float) and got == app == 0)
    if isinstance(app, Decimal):
        if isinstance(got, bytes):  # bare Decimals have no MySQL type of their own: sent as their text
            try:
                return Decimal(got.decode()) == app
            except Exception:
                return False
        return isinstance(got, Decimal) and got == app
    if isinstance(app, str):
        codec = charsets.codec_of_collation(col.charset)
        if not isinstance(got, bytes) or codec is None:
            return False
        try:
            return got.decode(codec) == app
        except UnicodeError:
            return False
    if isinstance(app, bytes):
        return got == app
    if isinstance(app, datetime):
        return got == ("dt", app.year, app.month, app.day, app.hour, app.minute, app.second, app.microsecond)
    if isinstance(app, date):
        return got == ("dt", app.year, app.month, app.day, 0, 0, 0, 0)
    if isinstance(app, timedelta):
        return got == ("td", (app.days * 86400 + app.seconds) * 10 ** 6 + app.microseconds)
    return False


EXPECT_TYPE = {"bool": INT_WIRE, "int": {wire.T_LONGLONG}, "float": {wire.T_DOUBLE}, "str": STR_WIRE, "bytes": STR_WIRE, "datetime": {wire.T_DATETIME, wire.T_TIMESTAMP},
               "date": {wire.T_DATE}, "timedelta": {wire.T_TIME}, "decimal": STR_WIRE | {wire.T_DECIMAL, wire.T_NEWDECIMAL}}


def compare(case, rows, cols, got, how):
    specs = case["cols"]
    check([c.name.decode("utf-8") for c in cols] == [s["name"] for s in specs],
          lambda: f"{how}: column names {[c.name for c in cols]}, application returned {[s['name'] for s in specs]}", key="names")
    for j, (c, s) in enumerate(zip(cols, specs)):
        if "bare" not in s:
            check(c.type == int(ColumnType[s["type"]]), lambda: f"{how}: column {j} announced with type {c.type:#x}, application said {s['type']}", key="coltype")
            if s["type"] in STR:
                check(charsets.CHARSET_OF.get(c.charset) == ("utf8mb3" if s["cs"] == "utf8" else s["cs"]),
                      lambda: f"{how}: column {j} announced with charset {c.charset}, application said {s['cs']}", key="colcharset")
        elif any(r[j] is not None for r in rows):
            check(c.type in EXPECT_TYPE[s["bare"]], lambda: f"{how}: bare column {j} of {s['bare']} values announced with type {c.type:#x}", key="infer")
    check(len(got) == len(rows), lambda: f"{how}: {len(rows)} rows returned, client decoded {len(got)}", key="rowcount")
    for i, (r, g) in enumerate(zip(rows, got)):
        for j in range(len(specs)):
            check(same(r[j], g[j], cols[j], specs[j]),
                  lambda: f"{how}: row {i} column {j} ({specs[j].get('type') or 'bare ' + specs[j]['bare']}): application returned {r[j]!r}, client decodes {g[j]!r}",
                  key=f"value-{how.split()[0]}-{specs[j].get('type') or specs[j]['bare']}")


def run(case, ctx):
    ncols = len(case["cols"])
    rows = [[None] * ncols for _ in range(case["lead"])] + [[value(c) for c in r] for r in case["rows"]]
    mk = tuple if case["rowtype"] == "tuple" else list
    names = [c["name"] for c in case["cols"]]
    ctx.nontrivial(len(set(names)) < ncols or case["lead"] or any(
        v is None or isinstance(v, timedelta) or (isinstance(v, (int, float)) and (v < 0 or abs(v) > 10 ** 5)) or (isinstance(v, str) and not v.isascii())
        for r in rows for v in r))
    for c in case["cols"]:
        ctx.tag("bare-" + c["bare"] if "bare" in c else "typed-" + c["type"])
    ctx.tag("src-" + case["src"])

    share = Shared(case, [mk(r) for r in rows]) if case.get("share") else None

    def query(s, e, sql, attrs):
        if share is None:
            return result_of(case, [mk(r) for r in rows])
        return share.decoy() if "decoy" in sql else share.result()

    with World(app=App(query=query)) as w:
        c = w.login(caps=wire.FULL_CAPS if case["caps"] == "full" else wire.BASE_CAPS)
        if share and case["share"] > 1:
            ctx.tag("shared-columns")
            r = c.query("SELECT a FROM decoy")
            check(r.kind == "rows" and len(r.rows) == 2, lambda: f"COM_QUERY answered with {r!r}", key="text-fail")
        r = c.query("SELECT a FROM t")
        check(r.kind == "rows", lambda: f"COM_QUERY answered with {r!r}", key="text-fail")
        compare(case, rows, r.cols, [[text_value(v, col) for v, col in zip(t, r.cols)] for t in r.text_rows()], "text")
        p = c.prepare("SELECT a FROM t")
        r = c.cmd(wire.com_stmt_execute(p.stmt_id, c.caps))
        check(r.kind == "rows", lambda: f"COM_STMT_EXECUTE answered with {r!r}", key="bin-fail")
        compare(case, rows, r.cols, [binary_values(x, r.cols) for x in r.rows], "binary")
        r = c.cmd(wire.com_stmt_execute(p.stmt_id, c.caps, cursor=1))
        check(r.kind == "rows" and r.cursor, lambda: f"cursor execute answered with {r!r}", key="cur-fail")
        cols, got, i = r.cols, [], 0
        while True:
            n = case["fetch"][i % len(case["fetch"])]
            i += 1
            if i > 6:
                n = 500
            f = c.cmd(wire.com_stmt_fetch(p.stmt_id, n))
            check(f.kind == "rows", lambda: f"fetch answered with {f!r}", key="fetch-fail")
            got += [binary_values(x, cols) for x in f.rows]
            if f.term.status & wire.ST_LAST_ROW_SENT or i > 60:
                break
        compare(case, rows, cols, got, "cursor")
        if share:
            r = c.query("SELECT a FROM t")
            check(r.kind == "rows", lambda: f"COM_QUERY answered with {r!r}", key="text-fail")
            compare(case, rows, r.cols, [[text_value(v, col) for v, col in zip(t, r.cols)] for t in r.text_rows()], "text again")


# --------------------------------------------------------------- single cells, systematically
def enum_cells(tier):
    base = {"lead": 0, "shape": "tuple", "rowtype": "tuple", "fetch": [1], "caps": "full"}
    days = [0, 1, 2, 34, 35, 41, 127, 128, 255, 256, 300, 65536, 999999998]
    rest = [0, 1, 59, 60, 3599, 3600, 86399]
    fr = [0, 1, 500000, 999999]
    vals = []
    for d in days:
        for s in rest:
            for f in fr:
                u = (d * 86400 + s) * 10 ** 6 + f
                if u <= LIM or d > 34:
                    vals += [["td", u], ["td", -u]]
    groups = [("TIME", "timedelta", vals)]
    for name, bits in INT.items():
        if bits and bits > 1:
            edge = {0, 1, -1, 2, 100, 127, -128, (1 << bits - 1) - 1, -(1 << bits - 1)} | {s * (1 << k) for k in range(bits - 1) for s in (1, -1)}
            groups.append((name, "int" if name == "LONGLONG" else None, [["i", v] for v in sorted(edge)]))
    groups.append(("BOOL", "bool", [["B", True], ["B", False]]))
    groups.append(("TINY", "bool", [["B", True], ["B", False]]))
    groups.append(("YEAR", None, [["i", v] for v in [0, 1901, 1999, 2000, 2155]]))
    groups.append(("DATE", "date", [["d", [y, m, d]] for y in (1, 999, 1000, 2000, 9999) for m in (1, 12) for d in (1, 28)]))
    groups.append(("DATETIME", "datetime", [["dt", [y, 1, 2, h, m, s, f]] for y in (1, 2024, 9999) for h in (0, 23) for m in (0, 59) for s in (0, 59) for f in (0, 1, 10, 999999)]))
    groups.append(("BLOB", "bytes", [["b", (bytes([b]) * n).hex()] for b in (0, 0x61, 0xfb, 0xfe, 0xff) for n in (0, 1, 250, 251, 252, 255, 256, 65535, 65536)]))
    groups.append(("STRING", "str", [["s", s] for s in ("", "a", "\u00e9", "\0", "x" * 250, "x" * 251, "\u2603" * 100, "z" * 65536)]))
    for typ, bare, vs in groups:
        for src in ("list", "agen"):
            for lo in range(0, len(vs), 40):
                part = vs[lo:lo + 40]
                rows = [[v] for v in part]
                yield dict(base, cols=[{"name": "c", "type": typ, "cs": "utf8mb4"}], rows=rows, src=src)
                if bare:
                    yield dict(base, cols=[{"name": "c", "bare": bare}], rows=rows, src=src)
    # NULL patterns over widths around the bitmap bytes: every single NULL / non-NULL position
    for n in (1, 2, 5, 6, 7, 8, 9, 13, 14, 15, 16, 17, 22, 23, 30, 62) if tier == "quick" else range(1, 80):
        rows = []
        for j in range(n):
            rows.append([["n", 0] if k == j else ["i", k] for k in range(n)])
            rows.append([["n", 0] if k != j else ["i", k] for k in range(n)])
        for bare in (True, False):
            yield dict(base, cols=[{"name": "c%d" % (j % 3), **({"bare": "int"} if bare else {"type": "LONGLONG", "cs": "utf8mb4"})} for j in range(n)],
                       rows=rows, src="agen" if n % 2 else "gen")
    for n in (250, 251, 252, 300, 510, 1021, 1022, 1023, 1030, 2050, 4096) + ((8200, 20000) if tier != "quick" else ()):
        yield dict(base, cols=[{"name": "c%d" % j, "bare": "int"} for j in range(n)], rows=[[["i", k] if (k + i) % 3 else ["n", 0] for k in range(n)] for i in range(4)], src="list")
    # when do bare columns get their first value
    for a in (0, 1, 3, 9, 250):
        for b in (0, 1, 2, 9, 260):
            for src in SOURCES:
                rows = [[["i", i] if i >= a else ["n", 0], ["s", "v%d" % i] if i >= b else ["n", 0], ["n", 0], ["i", i]] for i in range(max(a, b) + 3)]
                yield dict(base, cols=[{"name": "x", "bare": "int"}, {"name": "x", "bare": "str"}, {"name": "x", "bare": "int"}, {"name": "y", "type": "LONG", "cs": "utf8mb4"}],
                           rows=rows, src=src)


def enum_long(tier):
    for n in (9999, 10000, 10001, 10002, 20001) + ((30000, 65536, 100001) if tier != "quick" else ()):
        for src in ("list", "gen", "agen", "aiter"):
            for bare in (True, False):
                yield {"n": n, "src": src, "bare": bare}
    for lead in (999, 1000, 4096, 9998, 9999, 10000, 10001, 12345) + ((20000, 65536) if tier != "quick" else ()):
        for src in ("list", "agen"):
            yield {"n": lead + 3, "src": src, "bare": True, "lead": lead}


def run_long(case, ctx):
    n, lead = case["n"], case.get("lead", 50)

    def query(s, e, sql, attrs):
        rows = ((i, None if i < lead else "r%d" % i) for i in range(n))
        cols = ["i", "s"] if case["bare"] else [ResultColumn("i", ColumnType.LONGLONG), ResultColumn("s", ColumnType.VARCHAR)]
        return make_source(case["src"], rows), cols
    ctx.nontrivial()
    want = [[i, None if i < lead else b"r%d" % i] for i in range(n)]
    with World(app=App(query=query)) as w:
        c = w.login()
        r = c.query("SELECT a FROM t")
        check(r.kind == "rows", lambda: f"{r!r}")
        got = [[int(a), b] for a, b in r.text_rows()]
        check(got == want, lambda: f"text: {first_diff(want, got)}", key="long-text")
        p = c.prepare("SELECT a FROM t")
        r = c.cmd(wire.com_stmt_execute(p.stmt_id, c.caps))
        got = r.binary_rows()
        check(got == want, lambda: f"binary: {first_diff(want, got)}", key="long-bin")
        r = c.cmd(wire.com_stmt_execute(p.stmt_id, c.caps, cursor=1))
        got, cols = [], r.cols
        while True:
            f = c.cmd(wire.com_stmt_fetch(p.stmt_id, 3333))
            got += f.binary_rows(cols)
            if f.term.status & wire.ST_LAST_ROW_SENT or not f.rows:
                break
        check(got == want, lambda: f"cursor: {first_diff(want, got)}", key="long-cur")


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"row {i}: application {x}, client {y}"
    return f"{len(a)} rows returned, {len(b)} decoded"


CAMPAIGNS = [
    Campaign("cells", run, enum=enum_cells, cpu=30),
    Campaign("long", run_long, enum=enum_long, cpu=60),
    Campaign("results", run, strategy=cases, quick=6000, thorough=150000, cpu=30),
]
