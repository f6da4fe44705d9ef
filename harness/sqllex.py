"""Small independent MySQL lexer (what a MySQL client library would tokenise with default sql_mode)."""
import re

ESC = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a"}
WORD = re.compile(r"[0-9A-Za-z_$\u0080-\U0010ffff]+")
NUM = re.compile(r"(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?")


class LexError(Exception):
    pass


def tokens(sql):
    """[(kind, value, start, end)]; kinds: str, id, num, word, param, op.  Comments and white space are skipped."""
    out, i, n = [], 0, len(sql)
    while i < n:
        c = sql[i]
        if c in " \t\n\r\f\v":
            i += 1
            continue
        if c == "#" or (sql.startswith("--", i) and (i + 2 >= n or sql[i + 2] in " \t\n\r\f\v\0")):
            j = sql.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if sql.startswith("/*", i):
            j = sql.find("*/", i + 2)
            if j < 0:
                raise LexError("unterminated comment")
            i = j + 2
            continue
        if c in "'\"":
            v, j = quoted(sql, i, c)
            out.append(("str", v, i, j))
            i = j
            continue
        if c == "`":
            j, v = i + 1, ""
            while True:
                if j >= n:
                    raise LexError("unterminated identifier")
                if sql[j] == "`":
                    if sql.startswith("``", j):
                        v += "`"
                        j += 2
                        continue
                    break
                v += sql[j]
                j += 1
            out.append(("id", v, i, j + 1))
            i = j + 1
            continue
        if c == "?":
            out.append(("param", None, i, i + 1))
            i += 1
            continue
        m = NUM.match(sql, i)
        if m and (c.isdigit() or c == "."):
            w = WORD.match(sql, i)
            # 1abc is an identifier in MySQL, 1.5 / 1e5 are numbers
            if not (w and w.end() > m.end()):
                out.append(("num", m.group(), i, m.end()))
                i = m.end()
                continue
        m = WORD.match(sql, i)
        if m:
            out.append(("word", m.group(), i, m.end()))
            i = m.end()
            continue
        out.append(("op", c, i, i + 1))
        i += 1
    return out


def quoted(sql, i, q):
    v, j, n = [], i + 1, len(sql)
    while True:
        if j >= n:
            raise LexError("unterminated string")
        c = sql[j]
        if c == "\\":
            if j + 1 >= n:
                raise LexError("unterminated string")
            d = sql[j + 1]
            v.append(ESC.get(d, ("\\" + d) if d in "%_" else d))
            j += 2
        elif c == q:
            if j + 1 < n and sql[j + 1] == q:
                v.append(q)
                j += 2
            else:
                return "".join(v), j + 1
        else:
            v.append(c)
            j += 1


def plain(toks):
    return [(k, v) for k, v, _, _ in toks]
