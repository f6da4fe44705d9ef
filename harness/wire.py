"""Independent strict encoder/decoder of the MySQL client/server protocol (client side)."""
import struct

# capability bits
LONG_PASSWORD = 1 << 0
FOUND_ROWS = 1 << 1
LONG_FLAG = 1 << 2
CONNECT_WITH_DB = 1 << 3
NO_SCHEMA = 1 << 4
COMPRESS = 1 << 5
ODBC = 1 << 6
LOCAL_FILES = 1 << 7
IGNORE_SPACE = 1 << 8
PROTOCOL_41 = 1 << 9
INTERACTIVE = 1 << 10
SSL = 1 << 11
IGNORE_SIGPIPE = 1 << 12
TRANSACTIONS = 1 << 13
RESERVED = 1 << 14
SECURE_CONNECTION = 1 << 15
MULTI_STATEMENTS = 1 << 16
MULTI_RESULTS = 1 << 17
PS_MULTI_RESULTS = 1 << 18
PLUGIN_AUTH = 1 << 19
CONNECT_ATTRS = 1 << 20
LENENC_AUTH = 1 << 21
CAN_HANDLE_EXPIRED = 1 << 22
SESSION_TRACK = 1 << 23
DEPRECATE_EOF = 1 << 24
OPTIONAL_METADATA = 1 << 25
ZSTD = 1 << 26
QUERY_ATTRIBUTES = 1 << 27

BASE_CAPS = PROTOCOL_41 | SECURE_CONNECTION | PLUGIN_AUTH
FULL_CAPS = BASE_CAPS | CONNECT_WITH_DB | CONNECT_ATTRS | LENENC_AUTH | DEPRECATE_EOF | QUERY_ATTRIBUTES | LONG_PASSWORD
# a server with the repo's default configuration offers exactly these of the flags above

COM = dict(
    SLEEP=0, QUIT=1, INIT_DB=2, QUERY=3, FIELD_LIST=4, CREATE_DB=5, DROP_DB=6, REFRESH=7, SHUTDOWN=8,
    STATISTICS=9, PROCESS_INFO=10, CONNECT=11, PROCESS_KILL=12, DEBUG=13, PING=14, TIME=15,
    DELAYED_INSERT=16, CHANGE_USER=17, BINLOG_DUMP=18, TABLE_DUMP=19, CONNECT_OUT=20,
    REGISTER_SLAVE=21, STMT_PREPARE=22, STMT_EXECUTE=23, STMT_SEND_LONG_DATA=24, STMT_CLOSE=25,
    STMT_RESET=26, SET_OPTION=27, STMT_FETCH=28, DAEMON=29, BINLOG_DUMP_GTID=30, RESET_CONNECTION=31,
)
SUPPORTED = {1, 2, 3, 4, 13, 14, 17, 22, 23, 24, 25, 26, 28, 31}

T_DECIMAL, T_TINY, T_SHORT, T_LONG, T_FLOAT, T_DOUBLE, T_NULL, T_TIMESTAMP = range(8)
T_LONGLONG, T_INT24, T_DATE, T_TIME, T_DATETIME, T_YEAR, T_NEWDATE, T_VARCHAR, T_BIT = range(8, 17)
T_BOOL = 0xF4
T_JSON, T_NEWDECIMAL, T_ENUM, T_SET, T_TINY_BLOB, T_MEDIUM_BLOB, T_LONG_BLOB, T_BLOB = range(0xF5, 0xFD)
T_VAR_STRING, T_STRING, T_GEOMETRY = 0xFD, 0xFE, 0xFF
LENENC_TYPES = {T_DECIMAL, T_VARCHAR, T_BIT, T_JSON, T_NEWDECIMAL, T_ENUM, T_SET, T_TINY_BLOB,
                T_MEDIUM_BLOB, T_LONG_BLOB, T_BLOB, T_VAR_STRING, T_STRING, T_GEOMETRY}

ST_MORE_RESULTS = 0x8
ST_CURSOR_EXISTS = 0x40
ST_LAST_ROW_SENT = 0x80

MAXP = 0xFFFFFF


class ProtocolError(Exception):
    """The server's bytes are not what the protocol prescribes."""


# ---------------------------------------------------------------------------------- encoding
def lenenc(n):
    if n < 251:
        return bytes([n])
    if n < 1 << 16:
        return b"\xfc" + struct.pack("<H", n)
    if n < 1 << 24:
        return b"\xfd" + struct.pack("<I", n)[:3]
    return b"\xfe" + struct.pack("<Q", n)


def lenstr(b):
    return lenenc(len(b)) + b


def frame(payload, seq=0):
    """Packets for one payload; returns (bytes, next_seq)."""
    out = []
    while True:
        part, payload = payload[:MAXP], payload[MAXP:]
        out.append(struct.pack("<I", len(part))[:3] + bytes([seq]) + part)
        seq = (seq + 1) & 0xFF
        if len(part) < MAXP:
            return b"".join(out), seq


def ssl_request(caps, charset=45, max_packet=1 << 24):
    return struct.pack("<IIB", caps | SSL, max_packet, charset) + bytes(23)


def handshake_response(caps, user=b"", auth=b"", db=None, plugin=b"mysql_native_password",
                       attrs=None, charset=45, max_packet=1 << 24, zstd=None):
    p = struct.pack("<IIB", caps, max_packet, charset) + bytes(23)
    p += user + b"\0"
    if caps & LENENC_AUTH:
        p += lenstr(auth)
    else:
        p += bytes([len(auth)]) + auth
    if caps & CONNECT_WITH_DB:
        p += (db or b"") + b"\0"
    if caps & PLUGIN_AUTH:
        p += (plugin or b"") + b"\0"
    if caps & CONNECT_ATTRS:
        p += encode_attrs(attrs or [])
    if caps & ZSTD:
        p += bytes([zstd or 3])
    return p


def encode_attrs(attrs):
    body = b"".join(lenstr(k) + lenstr(v) for k, v in attrs)
    return lenstr(body)


def change_user(caps, user=b"", auth=b"", db=b"", charset=None, plugin=None, attrs=None):
    p = b"\x11" + user + b"\0" + bytes([len(auth)]) + auth + db + b"\0"
    if charset is not None:
        p += struct.pack("<H", charset)
        if caps & PLUGIN_AUTH:
            p += (plugin or b"") + b"\0"
        if caps & CONNECT_ATTRS:
            p += encode_attrs(attrs or [])
    return p


def null_bitmap(flags, offset=0):
    bm = bytearray((len(flags) + 7 + offset) // 8)
    for i, f in enumerate(flags):
        if f:
            bm[(i + offset) // 8] |= 1 << ((i + offset) % 8)
    return bytes(bm)


class P:
    """A binary parameter: wire type, unsigned flag, encoded value (None = NULL via bitmap), name,
    long=True when its value was delivered by COM_STMT_SEND_LONG_DATA."""

    def __init__(self, type, value, unsigned=False, name=b"", long=False):
        self.type, self.value, self.unsigned, self.name, self.long = type, value, unsigned, name, long


def params_block(params, with_names, bound=1):
    out = null_bitmap([p.value is None and not p.long for p in params]) + bytes([bound])
    for p in params if bound else ():
        out += bytes([p.type, 0x80 if p.unsigned else 0])
        if with_names:
            out += lenstr(p.name)
    for p in params:
        if p.value is not None and not p.long:
            out += p.value
    return out


def com_query(sql, caps, attrs=()):
    p = b"\x03"
    if caps & QUERY_ATTRIBUTES:
        p += lenenc(len(attrs)) + lenenc(1)
        if attrs:
            p += params_block(attrs, True)
    return p + sql


def com_stmt_execute(stmt_id, caps, params=(), attrs=(), cursor=0, num_params=None, count_flag=None, bound=1):
    """params: statement parameters, attrs: named query attributes."""
    qa = bool(caps & QUERY_ATTRIBUTES)
    allp = list(params) + (list(attrs) if qa else [])
    flags = cursor
    if count_flag is None:
        count_flag = qa and bool(allp)
    if count_flag:
        flags |= 8
    p = b"\x17" + struct.pack("<IBI", stmt_id, flags, 1)
    n = len(params) if num_params is None else num_params
    if n > 0 or (qa and count_flag):
        if qa:
            p += lenenc(len(allp))
        if allp:
            p += params_block(allp, qa, bound)
    return p


def com_stmt_prepare(sql):
    return b"\x16" + sql


def com_stmt_send_long_data(stmt_id, param, data):
    return b"\x18" + struct.pack("<IH", stmt_id, param) + data


def com_stmt_close(stmt_id):
    return b"\x19" + struct.pack("<I", stmt_id)


def com_stmt_reset(stmt_id):
    return b"\x1a" + struct.pack("<I", stmt_id)


def com_stmt_fetch(stmt_id, n):
    return b"\x1c" + struct.pack("<II", stmt_id, n)


def com_init_db(db):
    return b"\x02" + db


def com_field_list(table, wild=b""):
    return b"\x04" + table + b"\0" + wild


PING = b"\x0e"
QUIT = b"\x01"
RESET_CONNECTION = b"\x1f"
DEBUG = b"\x0d"


# ---------------------------------------------------------------------------------- decoding
class R:
    """Strict reader over one payload."""

    def __init__(self, data):
        self.d, self.p = data, 0

    def take(self, n):
        if self.p + n > len(self.d):
            raise ProtocolError(f"packet too short: wanted {n} bytes at offset {self.p} of {bytes(self.d[:80])!r}")
        v = self.d[self.p:self.p + n]
        self.p += n
        return bytes(v)

    def u1(self):
        return self.take(1)[0]

    def u2(self):
        return struct.unpack("<H", self.take(2))[0]

    def u4(self):
        return struct.unpack("<I", self.take(4))[0]

    def u8(self):
        return struct.unpack("<Q", self.take(8))[0]

    def lenenc(self):
        c = self.u1()
        if c < 251:
            return c
        if c == 0xFC:
            return self.u2()
        if c == 0xFD:
            return struct.unpack("<I", self.take(3) + b"\0")[0]
        if c == 0xFE:
            return self.u8()
        raise ProtocolError(f"bad length-encoded integer prefix {c:#x}")

    def lenstr(self):
        return self.take(self.lenenc())

    def nulstr(self):
        i = bytes(self.d).find(b"\0", self.p)
        if i < 0:
            raise ProtocolError("unterminated string in server packet")
        v = bytes(self.d[self.p:i])
        self.p = i + 1
        return v

    def rest(self):
        v = bytes(self.d[self.p:])
        self.p = len(self.d)
        return v

    def left(self):
        return len(self.d) - self.p

    def end(self, what):
        if self.left():
            raise ProtocolError(f"{what}: {self.left()} trailing bytes {bytes(self.d[self.p:self.p+40])!r}")


class Handshake:
    def __init__(self, payload):
        r = R(payload)
        v = r.u1()
        if v != 10:
            raise ProtocolError(f"handshake protocol version {v}")
        self.server_version = r.nulstr()
        self.connection_id = r.u4()
        a1 = r.take(8)
        if r.u1() != 0:
            raise ProtocolError("handshake filler not 0")
        low = r.u2()
        self.charset = r.u1()
        self.status = r.u2()
        high = r.u2()
        self.caps = low | (high << 16)
        alen = r.u1()
        if r.take(10) != bytes(10):
            raise ProtocolError("handshake reserved bytes not 0")
        a2 = r.take(max(13, alen - 8)) if self.caps & SECURE_CONNECTION else b""
        self.plugin = r.nulstr() if self.caps & PLUGIN_AUTH else None
        r.end("handshake")
        self.auth_len = alen
        self.auth_data = a1 + a2
        self.scramble = self.auth_data[:20]


def no_more_results(p):
    if p.status & ST_MORE_RESULTS:
        raise ProtocolError("SERVER_MORE_RESULTS_EXISTS announced: the client waits for a result that is never sent")


class OK:
    def __init__(self, payload, header):
        r = R(payload)
        if r.u1() != header:
            raise ProtocolError(f"not an OK packet: {payload[:40]!r}")
        self.header = header
        self.affected_rows = r.lenenc()
        self.last_insert_id = r.lenenc()
        self.status = r.u2()
        self.warnings = r.u2()
        self.info = r.rest()
        no_more_results(self)

    def summary(self):
        return ["ok", self.header, self.affected_rows, self.last_insert_id, self.status, self.warnings]


class EOF:
    def __init__(self, payload):
        r = R(payload)
        if r.u1() != 0xFE:
            raise ProtocolError("not an EOF packet")
        self.warnings = r.u2()
        self.status = r.u2()
        r.end("EOF packet")
        no_more_results(self)

    def summary(self):
        return ["eof", self.status, self.warnings]


class ERR:
    def __init__(self, payload, early=False):
        """early: sent before the client's capabilities are known, i.e. in the pre-4.1 format."""
        r = R(payload)
        if r.u1() != 0xFF:
            raise ProtocolError("not an ERR packet")
        self.code = r.u2()
        if early and bytes(payload[3:4]) != b"#":
            self.state = b""
            self.msg = r.rest()
            return
        if r.take(1) != b"#":
            raise ProtocolError(f"ERR packet without SQL state marker: {payload[:40]!r}")
        self.state = r.take(5)
        self.msg = r.rest()

    def __repr__(self):
        return f"ERR({self.code}, {self.msg[:200]!r})"

    def summary(self):
        return ["err", self.code, self.state.decode("latin1"), self.msg.hex()]


class ColDef:
    def __init__(self, payload, field_list=False):
        r = R(payload)
        cat = r.lenstr()
        if cat != b"def":
            raise ProtocolError(f"column definition catalog {cat[:20]!r} in {bytes(payload[:60])!r}")
        self.schema = r.lenstr()
        self.table = r.lenstr()
        self.org_table = r.lenstr()
        self.name = r.lenstr()
        self.org_name = r.lenstr()
        if r.lenenc() != 0x0C:
            raise ProtocolError("column definition fixed-length field is not 0x0c")
        self.charset = r.u2()
        self.length = r.u4()
        self.type = r.u1()
        self.flags = r.u2()
        self.decimals = r.u1()
        if r.take(2) != b"\0\0":
            raise ProtocolError("column definition filler not 0")
        self.default = None
        self.has_default = False
        if field_list:
            if r.left() == 0:
                raise ProtocolError("COM_FIELD_LIST column definition without default value")
            self.has_default = True
            if r.d[r.p] == 0xFB:
                r.u1()
            else:
                self.default = r.lenstr()
        r.end("column definition")

    def summary(self):
        return [self.name.hex(), self.type, self.charset, self.flags, self.decimals,
                self.table.hex(), self.default.hex() if self.default else None]


def text_row(payload, n):
    r = R(payload)
    out = []
    for _ in range(n):
        if r.left() and r.d[r.p] == 0xFB:
            r.u1()
            out.append(None)
        else:
            out.append(r.lenstr())
    r.end("text row")
    return out


def binary_row(payload, cols):
    """Decode into raw python values by column type (see binary_value)."""
    r = R(payload)
    if r.u1() != 0:
        raise ProtocolError(f"binary row header is not 0: {payload[:20]!r}")
    n = len(cols)
    bm = r.take((n + 9) // 8)
    out = []
    for i, c in enumerate(cols):
        if bm[(i + 2) // 8] >> ((i + 2) % 8) & 1:
            out.append(None)
        else:
            out.append(binary_value(r, c))
    # unused bits must be 0
    used = 0
    for i in range(n):
        used |= 1 << (i + 2)
    if int.from_bytes(bm, "little") & ~used:
        raise ProtocolError("unused NULL-bitmap bits set in binary row")
    r.end("binary row")
    return out


def binary_value(r, col):
    t = col.type
    unsigned = bool(col.flags & 0x20)
    if t in LENENC_TYPES:
        return r.lenstr()
    if t in (T_TINY, T_BOOL):
        return struct.unpack("B" if unsigned else "b", r.take(1))[0]
    if t in (T_SHORT, T_YEAR):
        return struct.unpack("<H" if unsigned else "<h", r.take(2))[0]
    if t in (T_LONG, T_INT24):
        return struct.unpack("<I" if unsigned else "<i", r.take(4))[0]
    if t == T_LONGLONG:
        return struct.unpack("<Q" if unsigned else "<q", r.take(8))[0]
    if t == T_FLOAT:
        return struct.unpack("<f", r.take(4))[0]
    if t == T_DOUBLE:
        return struct.unpack("<d", r.take(8))[0]
    if t in (T_DATE, T_DATETIME, T_TIMESTAMP, T_NEWDATE):
        n = r.u1()
        if n not in (0, 4, 7, 11):
            raise ProtocolError(f"binary date of length {n}")
        y = mo = d = h = mi = s = us = 0
        if n >= 4:
            y, mo, d = r.u2(), r.u1(), r.u1()
        if n >= 7:
            h, mi, s = r.u1(), r.u1(), r.u1()
        if n >= 11:
            us = r.u4()
        return ("dt", y, mo, d, h, mi, s, us)
    if t == T_TIME:
        n = r.u1()
        if n not in (0, 8, 12):
            raise ProtocolError(f"binary time of length {n}")
        neg = days = h = mi = s = us = 0
        if n >= 8:
            neg, days, h, mi, s = r.u1(), r.u4(), r.u1(), r.u1(), r.u1()
        if n >= 12:
            us = r.u4()
        if neg not in (0, 1) or h > 23 or mi > 59 or s > 59 or us > 999999:
            raise ProtocolError(f"binary time fields out of range {(neg, days, h, mi, s, us)}")
        total = ((days * 24 + h) * 60 + mi) * 60 + s
        us += total * 1000000
        return ("td", -us if neg else us)
    raise ProtocolError(f"cannot decode binary value of column type {t:#x}")


# ------------------------------------------------------------------------- response grammar
class Resp:
    """One complete response. kind: ok / eof / err / rows / prepare / fields / none / switch / more"""

    def __init__(self):
        self.kind = None
        self.ok = None
        self.err = None
        self.cols = []
        self.rows = []  # raw payloads
        self.params = []
        self.stmt_id = None
        self.num_columns = 0
        self.term = None
        self.cursor = False
        self.payload = None
        self.col_count = None
        self.truncated_by_err = False

    @property
    def is_err(self):
        return self.kind == "err"

    def __repr__(self):
        if self.kind == "err":
            return f"<Resp {self.err!r}>"
        return f"<Resp {self.kind} cols={len(self.cols)} rows={len(self.rows)}>"

    def text_rows(self):
        return [text_row(p, len(self.cols)) for p in self.rows]

    def binary_rows(self, cols=None):
        return [binary_row(p, cols or self.cols) for p in self.rows]

    def summary(self):
        return [self.kind, self.ok.summary() if self.ok else None, self.err.summary() if self.err else None,
                [c.summary() for c in self.cols], [bytes(r).hex() for r in self.rows],
                self.term.summary() if self.term else None, [p.summary() for p in self.params],
                self.stmt_id, self.cursor]


class Parser:
    """Incremental grammar for one response.  feed(payload) until .done; further payloads are the
    caller's problem (unsolicited)."""

    def __init__(self, cmd, caps, keep_rows=True):
        self.cmd, self.caps = cmd, caps
        self.dep = bool(caps & DEPRECATE_EOF)
        self.r = Resp()
        self.done = False
        self.state = "first"
        self.keep_rows = keep_rows
        self.row_count = 0
        if cmd in ("long_data", "close"):
            self.r.kind = "none"
            self.done = True

    def _finish(self, kind):
        self.r.kind = kind
        self.done = True

    def _err(self, p):
        self.r.truncated_by_err = self.state not in ("first",)
        self.r.err = ERR(p, early=self.cmd == "auth")
        self._finish("err")

    def _is_term(self, p):
        """Is p a result-set terminator (EOF, or OK-with-0xFE under DEPRECATE_EOF)?"""
        if p[:1] != b"\xfe":
            return False
        if self.dep:
            return len(p) < MAXP
        return len(p) < 9

    def _term(self, p):
        return OK(p, 0xFE) if self.dep else EOF(p)

    def feed(self, p):
        p = bytes(p)
        if self.done:
            raise ProtocolError(f"packet after the end of the response: {p[:60]!r}")
        if len(p) == 0 and self.state != "rows":
            raise ProtocolError(f"empty packet in response to {self.cmd}")
        getattr(self, "_s_" + self.state)(p)

    # first packet -----------------------------------------------------------------------
    def _s_first(self, p):
        h = p[0]
        c = self.cmd
        if h == 0xFF:
            return self._err(p)
        if c == "ok":
            if h != 0:
                raise ProtocolError(f"expected OK or ERR, got {p[:40]!r}")
            self.r.ok = OK(p, 0)
            return self._finish("ok")
        if c == "debug":  # EOF packet (OK with EOF header under DEPRECATE_EOF)
            if h != 0xFE:
                raise ProtocolError(f"COM_DEBUG answered with {p[:40]!r}, not an EOF packet")
            self.r.term = self._term(p)
            return self._finish("eof")
        if c == "unsupported":
            raise ProtocolError(f"unsupported command answered with {p[:40]!r}")
        if c in ("query", "execute"):
            if h == 0:
                self.r.ok = OK(p, 0)
                return self._finish("ok")
            r = R(p)
            self.r.col_count = r.lenenc()
            r.end("column count packet")
            if self.r.col_count == 0:
                raise ProtocolError("column count packet with 0 columns")
            self.state = "cols"
            return
        if c == "prepare":
            if h != 0:
                raise ProtocolError(f"bad prepare response {p[:40]!r}")
            r = R(p)
            r.u1()
            self.r.stmt_id = r.u4()
            self.r.num_columns = r.u2()
            self.n_params = r.u2()
            if r.u1() != 0:
                raise ProtocolError("prepare-OK filler not 0")
            self.r.warnings = r.u2()
            r.end("prepare-OK")
            self.r.num_params = self.n_params
            self.state = "pparams"
            return self._prepare_next()
        if c == "fetch":
            self.state = "rows"
            return self._s_rows(p)
        if c == "fields":
            self.state = "fields"
            return self._s_fields(p)
        if c == "auth":
            if h == 0:
                self.r.ok = OK(p, 0)
                return self._finish("ok")
            if h == 0xFE:
                self.r.payload = p
                return self._finish("switch")
            if h == 1:
                self.r.payload = p
                return self._finish("more")
            raise ProtocolError(f"unexpected packet during authentication: {p[:40]!r}")
        raise ProtocolError(f"unhandled command class {c}")

    def _prepare_next(self):
        if self.state == "pparams" and len(self.r.params) == self.n_params:
            if self.n_params and not self.dep:
                self.state = "pparams_eof"
                return
            self.state = "pcols"
        if self.state == "pcols" and len(self.r.cols) == self.r.num_columns:
            if self.r.num_columns and not self.dep:
                self.state = "pcols_eof"
                return
            self._finish("prepare")

    def _s_pparams(self, p):
        self.r.params.append(ColDef(p))
        self._prepare_next()

    def _s_pparams_eof(self, p):
        EOF(p)
        self.state = "pcols"
        self._prepare_next()

    def _s_pcols(self, p):
        self.r.cols.append(ColDef(p))
        self._prepare_next()

    def _s_pcols_eof(self, p):
        EOF(p)
        self._finish("prepare")

    # result set -------------------------------------------------------------------------
    def _s_cols(self, p):
        if p[0] == 0xFF:
            return self._err(p)
        self.r.cols.append(ColDef(p))
        if len(self.r.cols) == self.r.col_count:
            self.state = "meta_eof" if not self.dep else "rows"

    def _s_meta_eof(self, p):
        if p[0] == 0xFF:
            return self._err(p)
        e = EOF(p)
        self.meta_eof = e
        if self.cmd == "execute" and e.status & ST_CURSOR_EXISTS:
            self.r.term = e
            self.r.cursor = True
            return self._finish("rows")
        self.state = "rows"

    def _s_rows(self, p):
        if p[:1] == b"\xff":
            return self._err(p)
        if self._is_term(p):
            self.r.term = self._term(p)
            if self.cmd == "execute" and self.dep and self.r.term.status & ST_CURSOR_EXISTS:
                if self.row_count:
                    raise ProtocolError("cursor announced after rows")
                self.r.cursor = True
            return self._finish("rows")
        self.row_count += 1
        if self.keep_rows:
            self.r.rows.append(p)
        if self.cmd == "query":
            text_row(p, len(self.r.cols))  # structural check
        elif self.cmd == "execute":
            binary_row(p, self.r.cols)

    def _s_fields(self, p):
        if p[0] == 0xFF:
            return self._err(p)
        if self._is_term(p):
            self.r.term = self._term(p)
            return self._finish("fields")
        self.r.cols.append(ColDef(p, field_list=True))


def command_class(payload):
    """Grammar class of the response to a command payload."""
    c = payload[0]
    return {
        1: "quit", 2: "ok", 3: "query", 4: "fields", 13: "debug", 14: "ok", 17: "auth", 22: "prepare",
        23: "execute", 24: "long_data", 25: "close", 26: "ok", 28: "fetch", 31: "ok",
    }.get(c, "unsupported")
