"""Independent, strict implementation of the client side of the MySQL protocol.

Nothing in this file uses mysql_mimic.  Any deviation from the documented packet
layouts (short fields, trailing bytes, wrong sequence numbers, missing or extra
packets) raises ProtocolViolation.
"""
import datetime
import hashlib
import struct

MAXP = 0xFFFFFF

# ---- capability flags -------------------------------------------------------
LONG_PASSWORD = 1 << 0
FOUND_ROWS = 1 << 1
LONG_FLAG = 1 << 2
CONNECT_WITH_DB = 1 << 3
ODBC = 1 << 6
IGNORE_SPACE = 1 << 8
PROTOCOL_41 = 1 << 9
INTERACTIVE = 1 << 10
SSL = 1 << 11
TRANSACTIONS = 1 << 13
SECURE_CONNECTION = 1 << 15
MULTI_STATEMENTS = 1 << 16
MULTI_RESULTS = 1 << 17
PS_MULTI_RESULTS = 1 << 18
PLUGIN_AUTH = 1 << 19
CONNECT_ATTRS = 1 << 20
PLUGIN_AUTH_LENENC = 1 << 21
SESSION_TRACK = 1 << 23
DEPRECATE_EOF = 1 << 24
OPTIONAL_METADATA = 1 << 25
ZSTD = 1 << 26
QUERY_ATTRIBUTES = 1 << 27

BASE_CAPS = PROTOCOL_41 | SECURE_CONNECTION | PLUGIN_AUTH
FULL_CAPS = (BASE_CAPS | LONG_PASSWORD | DEPRECATE_EOF | QUERY_ATTRIBUTES | CONNECT_ATTRS
             | PLUGIN_AUTH_LENENC | CONNECT_WITH_DB)

# ---- commands ---------------------------------------------------------------
QUIT, INIT_DB, QUERY, FIELD_LIST = 1, 2, 3, 4
DEBUG, PING, CHANGE_USER = 0x0D, 0x0E, 0x11
PREPARE, EXECUTE, LONG_DATA, CLOSE, RESET, FETCH = 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C
RESET_CONNECTION = 0x1F

# ---- column types -----------------------------------------------------------
T = dict(DECIMAL=0, TINY=1, SHORT=2, LONG=3, FLOAT=4, DOUBLE=5, NULL=6, TIMESTAMP=7, LONGLONG=8,
         INT24=9, DATE=10, TIME=11, DATETIME=12, YEAR=13, NEWDATE=14, VARCHAR=15, BIT=16,
         BOOL=0xF4, JSON=0xF5, NEWDECIMAL=0xF6, ENUM=0xF7, SET=0xF8, TINY_BLOB=0xF9,
         MEDIUM_BLOB=0xFA, LONG_BLOB=0xFB, BLOB=0xFC, VAR_STRING=0xFD, STRING=0xFE, GEOMETRY=0xFF)
TN = {v: k for k, v in T.items()}
UNSIGNED_FLAG = 32

ST_CURSOR_EXISTS, ST_LAST_ROW_SENT, ST_MORE_RESULTS = 0x40, 0x80, 0x08


class ProtocolViolation(Exception):
    pass


# ---- primitives ---------------------------------------------------------------
def lenenc(i):
    if i < 251:
        return bytes([i])
    if i < 1 << 16:
        return b"\xfc" + struct.pack("<H", i)
    if i < 1 << 24:
        return b"\xfd" + struct.pack("<I", i)[:3]
    return b"\xfe" + struct.pack("<Q", i)


def lstr(b):
    return lenenc(len(b)) + b


def nul(b):
    return b + b"\0"


def frame(payload, seq=0):
    out = bytearray()
    while True:
        chunk, payload = payload[:MAXP], payload[MAXP:]
        out += struct.pack("<I", len(chunk))[:3] + bytes([seq & 255]) + chunk
        seq += 1
        if len(chunk) != MAXP:
            return bytes(out)


class R:
    """Strict reader over one payload."""

    def __init__(self, b, what="packet"):
        self.b, self.p, self.what = bytes(b), 0, what

    def bad(self, why):
        raise ProtocolViolation(f"{self.what}: {why}; offset {self.p} of {self.b[:120]!r}")

    def take(self, n):
        if self.p + n > len(self.b):
            self.bad(f"short read of {n}")
        v = self.b[self.p:self.p + n]
        self.p += n
        return v

    def u(self, n):
        return int.from_bytes(self.take(n), "little")

    def lenenc(self):
        h = self.u(1)
        if h < 251:
            return h
        if h == 0xFC:
            return self.u(2)
        if h == 0xFD:
            return self.u(3)
        if h == 0xFE:
            return self.u(8)
        self.bad(f"bad length-encoded integer 0x{h:02x}")

    def lstr(self):
        return self.take(self.lenenc())

    def nul(self):
        e = self.b.find(b"\0", self.p)
        if e < 0:
            self.bad("missing NUL")
        v = self.b[self.p:e]
        self.p = e + 1
        return v

    def rest(self):
        v = self.b[self.p:]
        self.p = len(self.b)
        return v

    def left(self):
        return len(self.b) - self.p

    def end(self):
        if self.left():
            self.bad(f"{self.left()} trailing bytes")


# ---- framing ------------------------------------------------------------------
def split(buf):
    """-> (list of (seq, n_chunks, payload), number of bytes consumed, complete?)"""
    out, p = [], 0
    n = len(buf)
    while p < n:
        start, chunks, payload, first = p, 0, [], None
        while True:
            if p + 4 > n:
                return out, start, False
            ln = buf[p] | buf[p + 1] << 8 | buf[p + 2] << 16
            seq = buf[p + 3]
            if p + 4 + ln > n:
                return out, start, False
            if first is None:
                first = seq
            elif seq != (first + chunks) & 255:
                raise ProtocolViolation(f"continuation packet has seq {seq}, expected {(first + chunks) & 255}")
            payload.append(bytes(buf[p + 4:p + 4 + ln]))
            chunks += 1
            p += 4 + ln
            if ln != MAXP:
                break
        out.append((first, chunks, payload[0] if chunks == 1 else b"".join(payload)))
    return out, p, True


# ---- generic packets -----------------------------------------------------------
class OK:
    def __init__(self, header, affected, insert_id, status, warnings, info):
        self.header, self.affected, self.insert_id = header, affected, insert_id
        self.status, self.warnings, self.info = status, warnings, info

    def key(self):
        return ("OK", self.header, self.affected, self.insert_id, self.status, self.warnings, self.info)

    def __repr__(self):
        return f"OK(hdr={self.header:02x} aff={self.affected} st={self.status:#x})"


class ERR:
    def __init__(self, code, state, msg):
        self.code, self.state, self.msg = code, state, msg

    def key(self):
        return ("ERR", self.code, self.state, self.msg)

    def __repr__(self):
        return f"ERR({self.code} {self.state} {self.msg!r})"


class EOF:
    def __init__(self, status, warnings):
        self.status, self.warnings = status, warnings

    def key(self):
        return ("EOF", self.status, self.warnings)

    def __repr__(self):
        return f"EOF(st={self.status:#x})"


def _status(r, st):
    if st & ST_MORE_RESULTS:
        r.bad("announces another result, which the server never sends")
    if st & 0x1000:
        r.bad("announces OUT parameters, which the server never sends")


def parse_ok(b, caps, header=0):
    r = R(b, "OK")
    h = r.u(1)
    if h != header:
        r.bad(f"header 0x{h:02x} expected 0x{header:02x}")
    aff, iid = r.lenenc(), r.lenenc()
    st, wa = r.u(2), r.u(2)
    _status(r, st)
    if caps & SESSION_TRACK and r.left():
        info = r.lstr()
        if st & 0x4000:
            r.lstr()
        r.end()
        return OK(h, aff, iid, st, wa, info)
    if caps & SESSION_TRACK and st & 0x4000:
        r.bad("session state flag without state")
    return OK(h, aff, iid, st, wa, r.rest())


def parse_eof(b, caps):
    r = R(b, "EOF")
    if r.u(1) != 0xFE:
        r.bad("header")
    wa, st = r.u(2), r.u(2)
    _status(r, st)
    r.end()
    return EOF(st, wa)


def parse_err(b, caps, pre=False):
    """pre: before the capabilities are settled the SQL state is optional (as in MySQL)."""
    r = R(b, "ERR")
    if r.u(1) != 0xFF:
        r.bad("header")
    code = r.u(2)
    state = b""
    if r.left() and r.b[r.p] == 0x23:
        r.take(1)
        state = r.take(5)
        if not state.isalnum():
            r.bad(f"sql state {state!r}")
    elif not pre:
        r.bad("missing sql-state marker")
    if code == 0:
        r.bad("error code 0")
    return ERR(code, state, r.rest())


class Col:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def key(self):
        return tuple(sorted(self.__dict__.items(), key=lambda x: x[0]))

    def __repr__(self):
        return f"Col({self.name!r} {TN.get(self.type, self.type)})"


def parse_coldef(b, field_list=False):
    r = R(b, "column definition")
    if r.lstr() != b"def":
        r.bad("catalog is not 'def'")
    schema, table, org_table, name, org_name = (r.lstr() for _ in range(5))
    if r.lenenc() != 0x0C:
        r.bad("length of fixed fields")
    charset, length, typ, flags, decimals = r.u(2), r.u(4), r.u(1), r.u(2), r.u(1)
    if r.take(2) != b"\0\0":
        r.bad("filler")
    default = None
    if field_list:
        if r.left() and r.b[r.p] == 0xFB:
            r.take(1)
        else:
            default = r.lstr()
    r.end()
    if typ not in TN:
        r.bad(f"unknown column type {typ}")
    return Col(schema=schema, table=table, org_table=org_table, name=name, org_name=org_name,
               charset=charset, length=length, type=typ, flags=flags, decimals=decimals,
               default=default)


# ---- rows ----------------------------------------------------------------------
def parse_text_row(b, cols):
    r = R(b, "text row")
    row = []
    for _ in cols:
        if r.left() and r.b[r.p] == 0xFB:
            r.take(1)
            row.append(None)
        else:
            row.append(r.lstr())
    r.end()
    return row


_INT = {"TINY": 1, "SHORT": 2, "YEAR": 2, "LONG": 4, "INT24": 4, "LONGLONG": 8, "BOOL": 1}


def parse_binary_row(b, cols):
    """Raw binary values: ints, floats, bytes, ('dt', ...), ('time', ...)."""
    r = R(b, "binary row")
    if r.u(1) != 0:
        r.bad("row header")
    bitmap = r.take((len(cols) + 7 + 2) // 8)
    row = []
    for i, c in enumerate(cols):
        if bitmap[(i + 2) // 8] >> ((i + 2) % 8) & 1:
            row.append(None)
            continue
        t = TN[c.type]
        if t in _INT:
            row.append(int.from_bytes(r.take(_INT[t]), "little", signed=not c.flags & UNSIGNED_FLAG))
        elif t == "FLOAT":
            row.append(struct.unpack("<f", r.take(4))[0])
        elif t == "DOUBLE":
            row.append(struct.unpack("<d", r.take(8))[0])
        elif t in ("DATE", "DATETIME", "TIMESTAMP"):
            n = r.u(1)
            if n not in (0, 4, 7, 11):
                r.bad(f"date length {n}")
            v = [0] * 7
            if n >= 4:
                v[0:3] = [r.u(2), r.u(1), r.u(1)]
            if n >= 7:
                v[3:6] = [r.u(1), r.u(1), r.u(1)]
            if n == 11:
                v[6] = r.u(4)
            row.append(("dt", *v))
        elif t == "TIME":
            n = r.u(1)
            if n not in (0, 8, 12):
                r.bad(f"time length {n}")
            neg = days = h = m = s = us = 0
            if n >= 8:
                neg, days, h, m, s = r.u(1), r.u(4), r.u(1), r.u(1), r.u(1)
            if n == 12:
                us = r.u(4)
            if neg > 1 or h > 23 or m > 59 or s > 59 or us > 999999:
                r.bad("time fields out of range")
            row.append(("time", neg, days, h, m, s, us))
        elif t == "NULL":
            r.bad("non-NULL value in NULL column")
        else:
            row.append(r.lstr())
    if r.left():
        r.bad(f"{r.left()} trailing bytes")
    # unused bitmap bits must be zero
    for i in range(len(cols) + 2, len(bitmap) * 8):
        if bitmap[i // 8] >> (i % 8) & 1:
            raise ProtocolViolation("binary row: unused NULL bitmap bit set")
    if bitmap and bitmap[0] & 3:
        raise ProtocolViolation("binary row: reserved NULL bitmap bit set")
    return row


# ---- responses -----------------------------------------------------------------
class Result:
    """kind: ok | err | rows | prepare | cursor | fetch | fields | none"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.cols = []
        self.rows = []
        self.term = None      # OK / EOF / ERR ending a row stream
        self.ok = self.err = None
        self.raw = None
        self.__dict__.update(kw)

    def key(self):
        return (self.kind, tuple(c.key() for c in self.cols), tuple(map(repr, self.rows)),
                self.term.key() if self.term else None, self.ok.key() if self.ok else None,
                self.err.key() if self.err else None, getattr(self, "num_params", None),
                getattr(self, "stmt_id", None))

    @property
    def failed(self):
        return self.err or isinstance(self.term, ERR)

    @property
    def error(self):
        return self.err or (self.term if isinstance(self.term, ERR) else None)

    def __repr__(self):
        if self.kind == "ok":
            return repr(self.ok)
        if self.kind == "err":
            return repr(self.err)
        if self.kind == "prepare":
            return f"Prepare(id={self.stmt_id} params={self.num_params})"
        return f"{self.kind}(cols={self.cols} rows={self.rows[:4]}{'...' if len(self.rows) > 4 else ''} term={self.term})"


class Packets:
    """Sequence-checked cursor over the packets of one response."""

    def __init__(self, pkts, seq=1):
        self.pkts, self.i, self.seq = pkts, 0, seq

    def more(self):
        return self.i < len(self.pkts)

    def peek(self):
        if not self.more():
            raise ProtocolViolation(f"response ends after {self.i} packets: packet missing")
        return self.pkts[self.i][2]

    def next(self, what):
        if not self.more():
            raise ProtocolViolation(f"response ends before {what}")
        seq, chunks, payload = self.pkts[self.i]
        if seq != self.seq & 255:
            raise ProtocolViolation(f"{what}: sequence id {seq}, expected {self.seq & 255}")
        self.seq += chunks
        self.i += 1
        return payload


def _is_term(b, caps):
    if not b:
        raise ProtocolViolation("empty packet where a row or terminator was expected")
    if b[0] == 0xFF:
        return True
    if b[0] == 0xFE:
        return len(b) < MAXP if caps & DEPRECATE_EOF else len(b) < 9
    return False


def _term(b, caps, what):
    if b[0] == 0xFF:
        return parse_err(b, caps)
    if caps & DEPRECATE_EOF:
        return parse_ok(b, caps, header=0xFE)
    return parse_eof(b, caps)


def read_response(p, kind, caps, cols=None):
    """Consume exactly one response of the given kind from Packets p."""
    if kind == "none":
        return Result("none")
    if kind == "fetch":
        res = Result("fetch", cols=cols or [])
        first = True
        while True:
            b = p.next("row or terminator")
            if _is_term(b, caps):
                t = _term(b, caps, "fetch")
                if first and isinstance(t, ERR):
                    return Result("err", err=t)
                res.term = t
                return res
            res.rows.append(parse_binary_row(b, res.cols) if cols is not None else b)
            first = False
    if kind == "fields":
        res = Result("fields")
        first = True
        while True:
            b = p.next("column definition or terminator")
            if _is_term(b, caps):
                t = _term(b, caps, "field list")
                if first and isinstance(t, ERR):
                    return Result("err", err=t)
                res.term = t
                return res
            res.cols.append(parse_coldef(b, field_list=True))
            first = False
    b = p.next("first packet of the response")
    if not b:
        raise ProtocolViolation("empty first packet")
    if b[0] == 0xFF:
        return Result("err", err=parse_err(b, caps))
    if kind == "ok":
        return Result("ok", ok=parse_ok(b, caps))
    if kind == "prepare":
        r = R(b, "prepare OK")
        if r.u(1) != 0:
            r.bad("status")
        sid, ncols, nparams = r.u(4), r.u(2), r.u(2)
        if r.u(1) != 0:
            r.bad("filler")
        r.u(2)
        if caps & OPTIONAL_METADATA and r.left():
            r.u(1)
        r.end()
        res = Result("prepare", stmt_id=sid, num_params=nparams, num_columns=ncols, params=[])
        for n, dst in ((nparams, res.params), (ncols, res.cols)):
            for i in range(n):
                dst.append(parse_coldef(p.next(f"prepare definition {i}/{n}")))
            if n and not caps & DEPRECATE_EOF:
                parse_eof(p.next("EOF after prepare definitions"), caps)
        return res
    # query / execute
    binary = kind == "execute"
    if b[0] == 0x00 and not (caps & OPTIONAL_METADATA and len(b) < 7):
        return Result("ok", ok=parse_ok(b, caps))
    r = R(b, "column count")
    if caps & OPTIONAL_METADATA:
        if r.u(1) != 1:
            r.bad("metadata_follows")
    n = r.lenenc()
    r.end()
    if n == 0:
        raise ProtocolViolation("result set with 0 columns")
    res = Result("rows", binary=binary)
    for i in range(n):
        b = p.next(f"column definition {i + 1}/{n}")
        if b[:1] == b"\xff":
            res.term = parse_err(b, caps)
            return res
        res.cols.append(parse_coldef(b))
    if not caps & DEPRECATE_EOF:
        b = p.next("EOF after column definitions")
        if b[:1] == b"\xff":
            res.term = parse_err(b, caps)
            return res
        e = parse_eof(b, caps)
        if e.status & ST_CURSOR_EXISTS:
            if not binary:
                raise ProtocolViolation("cursor flag in text result set")
            res.kind = "cursor"
            res.term = e
            return res
    while True:
        b = p.next("row or terminator")
        if _is_term(b, caps):
            res.term = _term(b, caps, "rows")
            if not isinstance(res.term, ERR) and res.term.status & ST_CURSOR_EXISTS:
                if res.rows or not caps & DEPRECATE_EOF:
                    raise ProtocolViolation("cursor flag after rows")
                res.kind = "cursor"
            return res
        res.rows.append(parse_binary_row(b, res.cols) if binary else parse_text_row(b, res.cols))


KIND = {QUERY: "query", PREPARE: "prepare", EXECUTE: "execute", FETCH: "fetch", FIELD_LIST: "fields",
        LONG_DATA: "none", CLOSE: "none", QUIT: "none"}


def kind_of(payload):
    return KIND.get(payload[0], "ok") if payload else "ok"


# ---- handshake -----------------------------------------------------------------
class Handshake:
    pass


def parse_handshake(b):
    r = R(b, "handshake v10")
    h = Handshake()
    if r.u(1) != 10:
        r.bad("protocol version")
    h.version = r.nul()
    h.connection_id = r.u(4)
    part1 = r.take(8)
    if r.take(1) != b"\0":
        r.bad("filler after nonce part 1")
    low = r.u(2)
    h.charset = r.u(1)
    h.status = r.u(2)
    h.caps = low | r.u(2) << 16
    h.auth_len = r.u(1)
    if r.take(10) != bytes(10):
        r.bad("reserved")
    part2 = r.take(max(13, h.auth_len - 8)) if h.caps & SECURE_CONNECTION else b""
    h.auth_raw = part1 + part2
    # standard clients use the first 20 bytes, the 21st being the terminator
    h.nonce = h.auth_raw[:20]
    h.auth_tail = h.auth_raw[20:]
    h.plugin = r.nul() if h.caps & PLUGIN_AUTH else b""
    r.end()
    return h


def handshake_response(caps, user=b"u", auth=b"", db=None, plugin=b"mysql_native_password",
                       attrs=None, charset=255, max_packet=1 << 24, zstd=0):
    out = struct.pack("<IIB", caps, max_packet, charset) + bytes(23)
    out += nul(user)
    if caps & PLUGIN_AUTH_LENENC:
        out += lstr(auth)
    else:
        out += bytes([len(auth)]) + auth
    if caps & CONNECT_WITH_DB:
        out += nul(db or b"")
    if caps & PLUGIN_AUTH:
        out += nul(plugin or b"")
    if caps & CONNECT_ATTRS:
        a = b"".join(lstr(k) + lstr(v) for k, v in (attrs or {}).items())
        out += lstr(a)
    if caps & ZSTD:
        out += bytes([zstd])
    return out


def ssl_request(caps, charset=255, max_packet=1 << 24):
    return struct.pack("<IIB", caps | SSL, max_packet, charset) + bytes(23)


def native_scramble(password, nonce):
    if isinstance(password, str):
        password = password.encode()
    if not password:
        return b""
    h1 = hashlib.sha1(password).digest()
    h2 = hashlib.sha1(nonce + hashlib.sha1(h1).digest()).digest()
    return bytes(a ^ b for a, b in zip(h1, h2))


def native_auth_string(password):
    if isinstance(password, str):
        password = password.encode()
    return hashlib.sha1(hashlib.sha1(password).digest()).hexdigest()


class AuthSwitch:
    def __init__(self, b):
        r = R(b, "auth switch")
        if r.u(1) != 0xFE:
            r.bad("header")
        self.plugin = r.nul()
        self.data = r.rest()
        self.nonce = self.data[:20]

    def __repr__(self):
        return f"AuthSwitch({self.plugin})"


class AuthMore:
    def __init__(self, b):
        if b[:1] != b"\x01":
            raise ProtocolViolation("auth more data header")
        self.data = b[1:]

    def __repr__(self):
        return f"AuthMore({self.data!r})"


def parse_auth_reply(b, caps):
    if not b:
        raise ProtocolViolation("empty packet during authentication")
    if b[0] == 0:
        return parse_ok(b, caps)
    if b[0] == 0xFF:
        return parse_err(b, caps)
    if b[0] == 0xFE:
        return AuthSwitch(b)
    if b[0] == 1:
        return AuthMore(b)
    raise ProtocolViolation(f"unexpected packet during authentication: {b[:40]!r}")


# ---- commands ------------------------------------------------------------------
def enc_value(tname, v):
    """Binary value of a parameter of the given type."""
    n = {"TINY": 1, "SHORT": 2, "YEAR": 2, "LONG": 4, "INT24": 4, "LONGLONG": 8, "BOOL": 1}.get(tname)
    if n:
        return (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")
    if tname == "FLOAT":
        return struct.pack("<f", v)
    if tname == "DOUBLE":
        return struct.pack("<d", v)
    if tname == "NULL":
        return b""
    return lstr(v)


def params_block(params, named, bound=1):
    """params: list of (name bytes, typename, unsigned, value); value None => NULL bit,
    Ellipsis => long data (no inline value)."""
    n = len(params)
    if not n:
        return b""
    bitmap = bytearray((n + 7) // 8)
    for i, p in enumerate(params):
        if p[3] is None:
            bitmap[i // 8] |= 1 << i % 8
    out = bytes(bitmap) + bytes([bound])
    if bound:
        for name, tname, uns, _ in params:
            out += bytes([T[tname], 0x80 if uns else 0])
            if named:
                out += lstr(name)
    for _, tname, uns, v in params:
        if v is not None and v is not Ellipsis:
            out += enc_value(tname, v)
    return out


def com_query(sql, caps=0, attrs=()):
    if isinstance(sql, str):
        sql = sql.encode()
    out = bytes([QUERY])
    if caps & QUERY_ATTRIBUTES:
        out += lenenc(len(attrs)) + lenenc(1) + params_block(list(attrs), True)
    return out + sql


def com_prepare(sql):
    if isinstance(sql, str):
        sql = sql.encode()
    return bytes([PREPARE]) + sql


def com_execute(stmt_id, params=(), caps=0, num_params=None, cursor=False, attrs=(), bound=1):
    """params: statement parameters; attrs: query attributes (named)."""
    num_params = len(params) if num_params is None else num_params
    flags = 1 if cursor else 0
    if caps & QUERY_ATTRIBUTES:
        # standard clients always announce the parameter count when they negotiated the capability
        flags |= 8
    out = bytes([EXECUTE]) + struct.pack("<IBI", stmt_id, flags, 1)
    allp = list(params) + list(attrs)
    if caps & QUERY_ATTRIBUTES:
        if num_params > 0 or flags & 8:
            out += lenenc(len(allp))
    if allp:
        out += params_block(allp, bool(caps & QUERY_ATTRIBUTES), bound)
    return out


def com_long_data(stmt_id, param, data):
    return bytes([LONG_DATA]) + struct.pack("<IH", stmt_id, param) + data


def com_fetch(stmt_id, n):
    return bytes([FETCH]) + struct.pack("<II", stmt_id, n)


def com_reset(stmt_id):
    return bytes([RESET]) + struct.pack("<I", stmt_id)


def com_close(stmt_id):
    return bytes([CLOSE]) + struct.pack("<I", stmt_id)


def com_init_db(db):
    return bytes([INIT_DB]) + (db.encode() if isinstance(db, str) else db)


def com_field_list(table, wildcard=b""):
    return bytes([FIELD_LIST]) + nul(table) + wildcard


def com_change_user(caps, user=b"u", auth=b"", db=b"", charset=255, plugin=b"mysql_native_password",
                    attrs=None, tail=True):
    out = bytes([CHANGE_USER]) + nul(user)
    if caps & SECURE_CONNECTION:
        out += bytes([len(auth)]) + auth
    else:
        out += nul(auth)
    out += nul(db)
    if tail:
        out += struct.pack("<H", charset)
        if caps & PLUGIN_AUTH:
            out += nul(plugin)
        if caps & CONNECT_ATTRS:
            a = b"".join(lstr(k) + lstr(v) for k, v in (attrs or {}).items())
            out += lstr(a)
    return out


COM_PING = bytes([PING])
COM_QUIT = bytes([QUIT])
COM_DEBUG = bytes([DEBUG])
COM_RESET_CONNECTION = bytes([RESET_CONNECTION])


# ---- value decoding ------------------------------------------------------------
def text_to_py(b, tname, codec="utf8"):
    """Decode a text-protocol cell the way a standard client does."""
    if b is None:
        return None
    if tname in _INT:
        s = b.decode("ascii")
        if not (s.lstrip("-").isdigit() and s.count("-") <= 1 and (("-" not in s) or s[0] == "-")):
            raise ProtocolViolation(f"not an integer: {b!r}")
        return int(s)
    if tname in ("FLOAT", "DOUBLE"):
        s = b.decode("ascii")
        import re
        if not re.fullmatch(r"-?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s) and s not in ("inf", "-inf", "nan"):
            raise ProtocolViolation(f"not a float: {b!r}")
        return float(s)
    if tname == "DATE":
        import re
        m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)", b.decode("ascii"))
        if not m:
            raise ProtocolViolation(f"not a DATE: {b!r}")
        return datetime.date(*map(int, m.groups()))
    if tname in ("DATETIME", "TIMESTAMP"):
        import re
        m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)(?: (\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?)?", b.decode("ascii"))
        if not m:
            raise ProtocolViolation(f"not a DATETIME: {b!r}")
        g = list(m.groups())
        us = int((g[6] or "0").ljust(6, "0"))
        return datetime.datetime(*[int(x or 0) for x in g[:6]], us)
    if tname == "TIME":
        import re
        m = re.fullmatch(r"(-?)(\d{1,3}|\d{2,}):(\d\d):(\d\d)(?:\.(\d{1,6}))?", b.decode("ascii"))
        if not m or int(m[3]) > 59 or int(m[4]) > 59:
            raise ProtocolViolation(f"not a TIME: {b!r}")
        td = datetime.timedelta(hours=int(m[2]), minutes=int(m[3]), seconds=int(m[4]),
                                microseconds=int((m[5] or "0").ljust(6, "0")))
        return -td if m[1] else td
    return b


def binary_to_py(v, tname):
    if isinstance(v, tuple) and v[0] == "dt":
        if tname == "DATE":
            return datetime.date(*v[1:4]) if any(v[1:]) else None
        return datetime.datetime(*v[1:]) if any(v[1:]) else None
    if isinstance(v, tuple) and v[0] == "time":
        _, neg, d, h, m, s, us = v
        td = datetime.timedelta(days=d, hours=h, minutes=m, seconds=s, microseconds=us)
        return -td if neg else td
    return v
