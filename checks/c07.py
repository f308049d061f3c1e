"""C07: malformed or hostile packets cannot hang, crash or wedge the server."""
import gc
import itertools
import os
import resource
import struct
import sys
import time

from harness import repo, wire
from harness.world import World, RecBase, RecSession, RecControl, Violation, Hang, ProtocolViolation, TLSClient, check

from mysql_mimic.auth import IdentityProvider, NativePasswordAuthPlugin, AbstractClearPasswordAuthPlugin, User

ID = "C07"
LEVEL = "model_checking"
RULE = ("one execution = (position in a session, valid packet, one mutation of it) sent by a fresh connection to a server that also serves a witness; "
        "outcomes counted distinct per (position, packet, kind of answer)")
BOUNDS = {
    "quick": "25 command packets x 5 session states, 9 handshake responses, SSL requests, in-TLS responses, 7 authentication replies and 6 COM_CHANGE_USER: "
             "truncation at every byte, deletion of every byte, 22 values and 8 bit flips at every byte, 9 length prefixes inserted at and put over "
             "every byte, junk appended, all wrong sequence numbers, every wrong header length; all payloads of <=1 byte at every position, all "
             "2-byte commands; 4-MiB packets of 28 shapes; parser work on 48 nested statement shapes",
    "thorough": "all 256 values at every byte, pairs of field mutations, all 2-byte payloads at every position, 12-MiB packets",
}
ASSUMPTIONS = ["a packet that is announced but never completed leaves the server waiting for the rest, which is not a hang",
               "malformed COM_STMT_SEND_LONG_DATA and COM_STMT_CLOSE may be ignored, answered with ERR, or close the connection",
               "work is counted in executed lines and jumps of mysql_mimic, and bounded by 100000 + 400 per byte"]
CASE_CPU = 60.0
GC_EVERY = 10
MEM = 8

BUDGET_BASE, BUDGET_BYTE = 100_000, 400

# ---- work accounting -------------------------------------------------------------
_work = [0, 1 << 60]
_TOOL = 4
_mon = sys.monitoring


def _on_line(code, line):
    if not code.co_filename.startswith(repo.PKG_DIR):
        return _mon.DISABLE
    _work[0] += 1
    if _work[0] > _work[1]:
        _work[1] = 1 << 60
        raise Hang(f"unbounded work on one packet (in {code.co_qualname})")


def _on_jump(code, src, dst):
    if dst > src:
        return _mon.DISABLE
    return _on_line(code, 0)


def _start_counting():
    if _mon.get_tool(_TOOL) is None:
        _mon.use_tool_id(_TOOL, "c07")
        _mon.register_callback(_TOOL, _mon.events.LINE, _on_line)
        _mon.register_callback(_TOOL, _mon.events.JUMP, _on_jump)
    _mon.set_events(_TOOL, _mon.events.LINE | _mon.events.JUMP)


def _stop_counting():
    _mon.set_events(_TOOL, 0)


def _sleep(s):
    raise Hang(f"time.sleep({s}) blocks the event loop")


# ---- the system --------------------------------------------------------------------
class Clear(AbstractClearPasswordAuthPlugin):
    name = "clear"

    async def check(self, username, password):
        return username if password == "pw" else None


class Idp(IdentityProvider):
    def __init__(self, default="native"):
        self.plugins = [NativePasswordAuthPlugin(), Clear()]
        if default == "clear":
            self.plugins.reverse()

    def get_plugins(self):
        return self.plugins

    async def get_user(self, username):
        if username == "c":
            return User("c", auth_plugin="clear")
        if username == "u":
            return User("u", auth_plugin="mysql_native_password")
        if username == "p":
            return User("p", auth_string=NativePasswordAuthPlugin.create_auth_string("pw"), auth_plugin="mysql_native_password")
        return None


class Sess(RecBase):
    async def handle_query(self, sql, attrs):
        self.world.app.got += 1
        if "rows" in sql:
            return [(i, "v%d" % i) for i in range(5)], ["a", "b"]
        if "nil" in sql:
            return None
        return [("x",)], ["c"]


class Full(RecSession):
    pass


class A:
    got = 0

    async def query(self, *a):
        self.got += 1
        return [(1,)], ["a"]

    async def schema(self, *a):
        return {"db": {"t": {"a": "INT", "b": "TEXT"}}}


def tls_ctx():
    import ssl
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "tls")
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c.load_cert_chain(os.path.join(d, "cert.pem"), os.path.join(d, "key.pem"))
    return c


CAPS = {
    "full": wire.FULL_CAPS,
    "noqa": wire.FULL_CAPS & ~wire.QUERY_ATTRIBUTES,
    "eof": wire.FULL_CAPS & ~(wire.DEPRECATE_EOF | wire.QUERY_ATTRIBUTES),
    "min": wire.PROTOCOL_41 | wire.SECURE_CONNECTION,
    "noauthlen": wire.FULL_CAPS & ~wire.PLUGIN_AUTH_LENENC,
}


class Rig:
    def __init__(self, ctx, session=Sess, default="native", tls=False):
        self.ctx = ctx
        app = A()
        kw = dict(ssl=tls_ctx()) if tls else {}
        self.w = World(session=session, app=app, identity_provider=Idp(default), **kw)
        self.witness = self.w.connect()
        wu = "u" if default == "native" else "c"
        r = self.witness.login(user=wu, plugin=None, password="pw" if wu == "c" else "")
        check(isinstance(r, wire.OK), "witness cannot log in: %s", r)
        self.witness_id = self.witness.hs.connection_id
        self.n = 0
        self.wu = wu

    def __enter__(self):
        self.old_sleep = time.sleep
        time.sleep = _sleep
        _start_counting()
        return self

    def __exit__(self, *a):
        _stop_counting()
        time.sleep = self.old_sleep
        self.w.close()

    def guarded(self, nbytes, f):
        """Run `f` under the work bound for a packet of nbytes."""
        _work[0], _work[1] = 0, BUDGET_BASE + BUDGET_BYTE * nbytes
        t = time.process_time()
        try:
            return f()
        finally:
            _work[1] = 1 << 60
            dt = time.process_time() - t
            if nbytes < 100_000 and dt > 3.0 and sys.exc_info()[0] is None:
                raise Violation("one packet of %d bytes took %.1f s of CPU" % (nbytes, dt))

    def run(self, nbytes):
        self.guarded(nbytes, lambda: self.w.loop.run(20_000 + nbytes))

    def others(self, what):
        """The witness is served while the offender's connection still exists."""
        check(not self.witness.closed, "%s: the witness was disconnected", what)
        try:
            self.guarded(10, self.witness.ping)
        except ProtocolViolation as e:
            raise Violation(f"{what}: the witness is not served: {e}")

    def finish(self, c, what):
        """The offender's connection ends."""
        if not c.closed:
            c.eof()
            self.run(10)
        if not c.closed:
            self.guarded(10, lambda: self.w.settle(100))
        check(c.closed, "%s: the connection is not closed after the client has gone", what)
        check(set(self.w.control.live) == {self.witness_id}, "%s: still registered: %s", what,
              sorted(set(self.w.control.live) - {self.witness_id}))
        self.w.clients.remove(c)
        self.n += 1
        self.ctx.transition()
        if self.n % 64 == 0:
            self.fresh(what)
        self.w.loop.errors.clear()
        if self.n % 256 == 0:
            gc.collect()

    def fresh(self, what):
        c = self.w.connect()
        r = c.login(user=self.wu, password="pw" if self.wu == "c" else "")
        check(isinstance(r, wire.OK), "%s: a new connection cannot log in: %s", what, r)
        check(c.query("SELECT rows").kind == "rows", "%s: a new connection is not served", what)
        c.send(wire.COM_QUIT)
        self.w.run()
        check(c.closed, "%s: a new connection can't quit", what)
        self.w.clients.remove(c)


# ---- mutations ------------------------------------------------------------------------
VALS = [0, 1, 2, 3, 5, 6, 7, 8, 0x0A, 0x1C, 0x20, 0x27, 0x3F, 0x5C, 0x7F, 0x80, 0xF4, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]
PREFIX = [b"\xfb", b"\xfc\xff\xff", b"\xfd\xff\xff\xff", b"\xfd\x00\x00\x01", b"\xfe" + b"\xff" * 8, b"\xfe\x00\x00\x00\x01\x00\x00\x00\x00",
          b"\xfe" + b"\0" * 8, b"\xfe\xff\xff\xff\x7f\0\0\0\0", b"\xfe" + b"\xff" * 7 + b"\x7f"]
JUNK = [b"\0", b"\xff", b"\0" * 9, b"\xff" * 9, b"A" * 300, b"\xfe" * 70, bytes(range(256))]


def mutations(p, th, light=False):
    """(label, mutated payload): deterministic."""
    n = len(p)
    yield "id", p
    for i in range(n):
        yield f"trunc{i}", p[:i]
    for i in range(n):
        yield f"del{i}", p[:i] + p[i + 1:]
    vals = range(256) if th else ([0, 0xFB, 0xFC, 0xFE, 0xFF] if light else VALS)
    for i in range(n):
        seen = {p[i]}
        for v in itertools.chain(vals, () if light else (p[i] ^ (1 << b) for b in range(8))):
            if v not in seen:
                seen.add(v)
                yield f"set{i}={v}", p[:i] + bytes([v]) + p[i + 1:]
    for i in range(n + 1):
        for j, x in enumerate(PREFIX[:2] if light else PREFIX):
            yield f"ins{i}:{j}", p[:i] + x + p[i:]
            if i < n:
                yield f"over{i}:{j}", p[:i] + x + p[i + 1:]
                if not light:
                    yield f"cut{i}:{j}", p[:i] + x
    for j, x in enumerate(JUNK):
        yield f"junk{j}", p + x
    for i in range(n):
        # a whole field wiped out
        for ln in (2, 4, 8):
            if i + ln <= n:
                yield f"zero{i}+{ln}", p[:i] + bytes(ln) + p[i + ln:]
                yield f"ones{i}+{ln}", p[:i] + b"\xff" * ln + p[i + ln:]


def tamper(p, seq):
    """(label, raw stream bytes): wrong headers."""
    n = len(p)
    for s in (range(256) if n < 60 else [0, 1, 2, 3, 4, 127, 128, 254, 255]):
        if s != seq:
            yield f"seq{s}", wire.frame(p, s)
    for ln in sorted({0, 1, 2, 3, 4, 5, n - 1, n + 1, n + 2, n + 4, n + 300, 0xFFFE, 0x10000, 0xFFFFFE, 0xFFFFFF}):
        if ln != n and ln >= 0:
            yield f"len{ln}", struct.pack("<I", ln)[:3] + bytes([seq]) + p
    yield "empty-then", wire.frame(b"", seq) + wire.frame(p, (seq + 1) & 255)
    yield "noheader", p
    yield "headeronly", wire.frame(p, seq)[:4]
    for i in (1, 2, 3):
        yield f"header{i}", wire.frame(p, seq)[:i]


def stream_packets(raw):
    """How a server must split `raw` into packets: ([(seq, payload)], incomplete)"""
    out, i = [], 0
    while i + 4 <= len(raw):
        ln = int.from_bytes(raw[i:i + 3], "little")
        if i + 4 + ln > len(raw) or ln == 0xFFFFFF:
            break
        out.append((raw[i + 3], raw[i + 4:i + 4 + ln]))
        i += 4 + ln
    return out, i < len(raw)


# ---- which packets are certainly malformed ---------------------------------------------------
TYPES = set(range(0, 0x15)) | set(range(0xF3, 0x100))
SIZES = {0: None, 1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 6: 0, 8: 8, 9: 4, 0x0D: 2, 0x0F: -1, 0xF4: 1, 0xF9: -1, 0xFA: -1, 0xFB: -1, 0xFC: -1, 0xFD: -1, 0xFE: -1}
COMMANDS = {0x01, 0x02, 0x03, 0x04, 0x0D, 0x0E, 0x11, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C, 0x1F}
KNOWN_COMMANDS = set(range(0x00, 0x21))


class Unsure(Exception):
    pass


class R(wire.R):
    """What 0xfb and 0xff mean as a length is up to the server."""

    def lenenc(self):
        if self.left() and self.b[self.p] in (0xFB, 0xFF):
            raise Unsure
        return wire.R.lenenc(self)


def _params(r, n, named, long=()):
    if n > 100_000:
        # the null bitmap and two bytes per type can't be there
        if r.left() < n // 8 + 2 * n:
            raise ProtocolViolation("count")
    bitmap = r.take((n + 7) // 8)
    if r.u(1) != 1:
        raise Unsure
    types = []
    for _ in range(n):
        t = r.u(1)
        r.u(1)
        if named:
            r.lstr()
        types.append(t)
    for i, t in enumerate(types):
        if t not in TYPES:
            raise ProtocolViolation("type")
        if bitmap[i // 8] >> i % 8 & 1 or i in long:
            continue
        sz = SIZES.get(t)
        if sz is None:
            raise Unsure
        if sz < 0:
            r.lstr()
        else:
            r.take(sz)


def certainly_malformed(p, caps, stmts, long=()):
    """True if no server could take `p` for a complete command. stmts: {id: number of parameters}"""
    try:
        r = R(p, "command")
        c = r.u(1)
        if c not in KNOWN_COMMANDS:
            return True
        if c == wire.QUERY and caps & wire.QUERY_ATTRIBUTES:
            n = r.lenenc()
            r.lenenc()
            if n:
                _params(r, n, True)
        elif c == wire.EXECUTE:
            sid = r.u(4)
            flags = r.u(1)
            r.u(4)
            if sid not in stmts:
                return True
            n = stmts[sid]
            if caps & wire.QUERY_ATTRIBUTES and (n or flags & 8):
                m = r.lenenc()
                if m < n:
                    return True
                n = m
            if n:
                _params(r, n, bool(caps & wire.QUERY_ATTRIBUTES), long)
        elif c == wire.FETCH:
            if r.u(4) not in stmts:
                return True
            r.u(4)
        elif c == wire.RESET:
            if r.u(4) not in stmts:
                return True
        elif c == wire.CHANGE_USER:
            r.nul()
            if caps & wire.SECURE_CONNECTION:
                r.take(r.u(1))
            else:
                r.nul()
        return False
    except ProtocolViolation:
        return True
    except Unsure:
        return False


def malformed_handshake(p, server_caps):
    try:
        r = R(p, "handshake response")
        caps = r.u(4) & server_caps
        r.u(4)
        r.u(1)
        r.take(23)
        r.nul()
        if caps & wire.PLUGIN_AUTH_LENENC:
            r.lstr()
        else:
            r.take(r.u(1))
        return False
    except ProtocolViolation:
        return True
    except Unsure:
        return False


# ---- seeds --------------------------------------------------------------------------------
S = "VAR_STRING"


def seeds(caps):
    """name -> (setup, valid command payload)"""
    qa = caps & wire.QUERY_ATTRIBUTES
    attrs = [(b"k", S, False, b"v"), (b"n", "LONG", True, 7)] if qa else ()
    P2 = [(b"", S, False, b"abc"), (b"", "LONGLONG", False, -5)]
    P9 = [(b"", "TINY", False, 1), (b"", "SHORT", True, 2), (b"", "LONG", False, 3), (b"", "FLOAT", False, 1.5), (b"", "DOUBLE", False, 2.5),
          (b"", S, False, None), (b"", "BLOB", False, b"z"), (b"", "YEAR", False, 1999), (b"", "NULL", False, None)]
    out = {
        "query": ("plain", wire.com_query("SELECT 1", caps, attrs)),
        "query0": ("plain", wire.com_query("SELECT 'x?y' rows", caps, ())),
        "query_nil": ("plain", wire.com_query("nil", caps, attrs[:1])),
        "prepare": ("plain", wire.com_prepare("SELECT ?, '?' , \"?\" FROM `t?`")),
        "exec0": ("stmt", wire.com_execute(1, (), caps, num_params=0)),
        "exec2": ("stmt", wire.com_execute(2, P2, caps)),
        "exec2cur": ("stmt", wire.com_execute(2, P2, caps, cursor=True)),
        "exec9": ("stmt", wire.com_execute(3, P9, caps)),
        "execlong": ("long", wire.com_execute(2, [(b"", S, False, Ellipsis), (b"", "LONG", False, 9)], caps)),
        "long": ("stmt", wire.com_long_data(2, 1, b"data")),
        "fetch": ("cursor", wire.com_fetch(1, 2)),
        "fetchall": ("cursor", wire.com_fetch(1, 100)),
        "reset": ("cursor", wire.com_reset(1)),
        "close": ("cursor", wire.com_close(1)),
        "ping": ("plain", wire.COM_PING),
        "debug": ("plain", wire.COM_DEBUG),
        "resetc": ("stmt", wire.COM_RESET_CONNECTION),
        "initdb": ("plain", wire.com_init_db("db")),
        "fields": ("plain", wire.com_field_list(b"t", b"%")),
        "quit": ("plain", wire.COM_QUIT),
        "chg": ("plain", None),
        "chgattr": ("plain", None),
        "chgtail": ("plain", None),
        "chgsw": ("plain", None),
    }
    if qa:
        out["exec2attr"] = ("stmt", wire.com_execute(2, P2, caps, attrs=attrs))
    return out


STMTS = {1: 0, 2: 2, 3: 9}


def seed_payload(name, c):
    caps = c.caps
    sc = wire.native_scramble("pw", c.hs.nonce)
    if name == "chg":
        return wire.com_change_user(caps, b"p", sc, b"db")
    if name == "chgattr":
        return wire.com_change_user(caps, b"p", sc, b"db", attrs={b"_os": b"x", b"pid": b"12"})
    if name == "chgtail":
        return wire.com_change_user(caps, b"p", sc, b"", tail=False)
    if name == "chgsw":
        return wire.com_change_user(caps, b"c", b"", b"db", plugin=b"mysql_native_password")
    return seeds(caps)[name][1]


CMD_SEEDS = {"full": ["query", "query0", "query_nil", "prepare", "exec0", "exec2", "exec2cur", "exec2attr", "exec9", "execlong", "long", "fetch", "fetchall",
                      "reset", "close", "ping", "debug", "resetc", "initdb", "fields", "quit", "chg", "chgattr", "chgtail", "chgsw"],
             "noqa": ["query", "exec0", "exec2", "exec9", "execlong", "exec2cur"],
             "eof": ["exec2", "fetch", "fields", "prepare"],
             "min": ["query", "exec2", "chg", "chgtail"]}


def setup(c, which):
    """Bring the connection into a state. -> {stmt: params}, long data positions"""
    if which == "plain":
        return {}, {}
    for i, sql in enumerate(("SELECT rows", "SELECT ?, ?", "SELECT " + ",".join("?" * 9))):
        r = c.prepare(sql)
        check(r.kind == "prepare" and r.stmt_id == i, "prepare: %s", r)
    return None


def hs_seeds(c, name):
    server = c.hs.caps
    n = c.hs.nonce
    pw = wire.native_scramble("pw", n)
    nat = b"mysql_native_password"
    F = wire.FULL_CAPS & server
    at = {b"_pid": b"1", b"program_name": b"mysql", b"e": b""}
    ND = F & ~wire.CONNECT_WITH_DB
    if name == "full":
        return wire.handshake_response(F, b"p", pw, b"db", nat, at)
    if name == "nopw":
        return wire.handshake_response(ND, b"u", b"", None, nat, at)
    if name == "noattr":
        return wire.handshake_response(ND & ~wire.CONNECT_ATTRS, b"p", pw, None, nat)
    if name == "nolenenc":
        return wire.handshake_response(ND & ~wire.PLUGIN_AUTH_LENENC, b"p", pw, None, nat, at)
    if name == "min":
        return wire.handshake_response(wire.PROTOCOL_41 | wire.SECURE_CONNECTION, b"u", b"")
    if name == "switch":
        return wire.handshake_response(F, b"c", b"", b"db", nat, at)
    if name == "unknown":
        return wire.handshake_response(ND, b"nobody", pw, None, nat)
    if name == "latin1":
        return wire.handshake_response(F, b"p", pw, b"db", nat, at, charset=8)
    if name == "zstd":
        return wire.handshake_response((F & server) | wire.ZSTD, b"p", pw, b"db", nat, at, zstd=3)
    raise KeyError(name)


HS = ["full", "nopw", "noattr", "nolenenc", "min", "switch", "unknown", "latin1", "zstd"]
REPLIES = ["native", "native_empty", "clear", "clear_switch", "chg_clear", "chg_native", "more"]
ELEMENTS = {"query_nulls", "exec_nulls", "query_ints", "query_attr", "chg_attrs", "hs_attrs_many", "exec_many", "pings", "bad_pings", "long_many", "prepare_q", "prepare_quotes"}
SCALE = ["hs_user", "hs_auth", "hs_db", "hs_plugin", "hs_attrs", "hs_attrs_many", "reply_clear", "chg_user", "chg_attrs", "query_zero", "query_attr", "query_nulls", "exec_nulls", "query_ints", "prepare_q",
         "prepare_quote", "prepare_bs", "prepare_quotes", "prepare_dash", "prepare_slash", "exec_str", "exec_many", "exec_quotes", "long_many", "long_one",
         "fields_nonul", "initdb", "pings", "bad_pings", "fetch_max", "continuations"]

SQLS = ["", " ", ";", ";;", "--", "/*", "*/", "'", '"', "`", "\\", "\0", "SELECT", "SELECT (", "SELECT ((((((((((((((((((((", ")", "SELECT 1 FROM", "USE",
        "USE ", "USE `", "SET", "SET ", "SET @", "SET @@", "SET x", "SET x =", "SET NAMES", "SET NAMES 'x", "SET CHARACTER SET", "SHOW", "SHOW ", "SHOW COLUMNS",
        "SHOW COLUMNS FROM", "SHOW COLUMNS FROM `", "SHOW TABLES FROM", "SHOW VARIABLES LIKE", "SHOW VARIABLES LIKE '", "SHOW VARIABLES LIKE '(((('",
        "SHOW VARIABLES LIKE '" + "%a" * 30 + "b'", "SHOW TABLES LIKE '" + "%a" * 30 + "b'", "DESCRIBE", "DESC", "DESCRIBE `", "EXPLAIN", "EXPLAIN EXPLAIN",
        "KILL", "KILL x", "KILL 0", "KILL -1", "KILL 99999999999999999999", "KILL QUERY", "KILL CONNECTION 18446744073709551615", "BEGIN", "COMMIT AND", "ROLLBACK TO",
        "START", "WITH", "WITH a AS (", "SELECT @@", "SELECT @@x", "SELECT @@global.", "SELECT /*+ SET_VAR(", "SELECT /*+ SET_VAR(x=) */ 1",
        "SELECT /*+ SET_VAR(sql_mode=(1)) */ 1", "SELECT * FROM information_schema.", "SELECT * FROM information_schema.tables WHERE", "SELECT * FROM information_schema.nope",
        "SELECT a FROM information_schema.columns, information_schema.columns", "SELECT \ud7ff", "SELECT é", "SELECT 1" + " UNION SELECT 1" * 50,
        "SELECT " + "1+" * 3000 + "1", "SELECT " + "(" * 3000, "SELECT " + "(" * 3000 + ")" * 3000, "SELECT " + "f(" * 2000, "SELECT " + "NOT " * 3000,
        "SELECT " + "CASE WHEN " * 2000, "WITH a AS (" * 2000, "SELECT " + "- " * 3000 + "1", "SET x=" + "(" * 2000, "SELECT '" + "a" * 60000,
        "SELECT `" + "a" * 60000, "SELECT /*" + "a" * 60000, "SELECT 1 -- " + "a" * 60000, "x" * 60000, "?" * 2000, "'" * 2000, "\\" * 2000, ";" * 3000,
        "SELECT * FROM a" + " JOIN b ON 1" * 100, "SELECT * FROM a" + ", b" * 500, "SET " + ",".join("a%d=1" % i for i in range(500))]


def cases(tier):
    th = tier == "thorough"
    out = []
    chunk = 500
    for default in ("native", "clear"):
        for name in (HS if default == "native" else ["full", "switch", "min"]):
            p = len_of("hs", name)
            for lo in range(0, p[1 if th else 0], chunk):
                out.append(dict(k="hs", seed=name, default=default, lo=lo, hi=lo + chunk, th=th))
            out.append(dict(k="hs_tamper", seed=name, default=default))
    out.append(dict(k="ssl", th=th))
    out.append(dict(k="ssl_plain", th=th))
    for lo in range(0, 1000, 100):
        out.append(dict(k="tls_hello", lo=lo, hi=lo + 100, th=th))
    for lo in range(0, len_of("hs", "full")[1 if th else 2], 250):
        out.append(dict(k="tls_hs", lo=lo, hi=lo + 250, th=th))
    for name in REPLIES:
        out.append(dict(k="reply", seed=name, th=th))
    for caps, names in CMD_SEEDS.items():
        for name in names:
            n = len_of("cmd", name, caps)[1 if th else 0]
            for lo in range(0, n, chunk):
                out.append(dict(k="cmd", seed=name, caps=caps, lo=lo, hi=lo + chunk, th=th))
            out.append(dict(k="cmd_tamper", seed=name, caps=caps))
    for c in range(0, 256, 1):
        out.append(dict(k="short", c=c))
    for pos in ("hs", "reply", "chg"):
        out.append(dict(k="short_pre", pos=pos))
        if th:
            for lo in range(0, 256, 16):
                out.append(dict(k="short_pre2", pos=pos, lo=lo))
    for i in range(0, len(SQLS), 6):
        for how in ("query", "prepare", "initdb", "fields", "attr"):
            out.append(dict(k="sql", lo=i, hi=i + 6, how=how))
    for name in GROW:
        out.append(dict(k="grow", shape=name))
    for style in STYLES:
        out.append(dict(k="code", style=style))
    for name in COST:
        out.append(dict(k="cost", shape=name))
    for name in SCALE:
        out.append(dict(k="scale", shape=name, mib=12 if th else 4))
    for a in range(4 if th else 2):
        out.append(dict(k="flood", kind=a))
    if th:
        for name in ("exec2attr", "query", "exec9", "chgattr"):
            for lo in range(0, 60):
                out.append(dict(k="pairs", seed=name, i=lo))
    return out


_len_cache = {}


def len_of(kind, name, caps="full"):
    """Number of mutations in the quick and the thorough tier and of the light set."""
    key = (kind, name, caps)
    if key not in _len_cache:
        class C:
            pass
        c = C()
        c.hs = C()
        c.hs.nonce = b"abcdefghijklmnopqrst"
        c.hs.caps = wire.FULL_CAPS | wire.CONNECT_WITH_DB | wire.SSL
        c.caps = CAPS[caps]
        p = hs_seeds(c, name) if kind == "hs" else seed_payload(name, c)
        _len_cache[key] = (sum(1 for _ in mutations(p, False)), sum(1 for _ in mutations(p, True)), sum(1 for _ in mutations(p, False, True)))
    return _len_cache[key]


def run_case(case, ctx):
    rss = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    globals()["k_" + case["k"]](case, ctx)
    grown = (resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - rss) // 1024
    if case["k"] not in ("scale", "flood", "sql"):
        check(grown < 400, "small packets made the server allocate %d MiB", grown)


# ---- oracles -------------------------------------------------------------------------------
def parse_any_err(b):
    try:
        return wire.parse_err(b, wire.PROTOCOL_41)
    except ProtocolViolation:
        return wire.parse_err(b, 0, pre=True)


def after_auth_packet(rig, c, what, malformed, ctx, fed, bad_header=False):
    """Judge the state after one packet during authentication. Returns the kind of answer."""
    rig.run(fed)
    try:
        pk = c.packets()
    except ProtocolViolation as e:
        raise Violation(f"{what}: {e}")
    kind = "silent"
    if pk:
        b = pk[0][2]
        check(len(b) > 0, "%s: empty packet", what)
        if b[0] == 0xFF:
            parse_any_err(b)
            check(len(pk) == 1, "%s: packets after ERR: %r", what, pk)
            check(c.closed or rig_closing(rig, c), "%s: ERR during authentication, but the connection stays open", what)
            kind = "err"
        elif b[0] in (1, 0xFE):
            kind = "more"
            check(not malformed, "%s: malformed packet goes on with authentication", what)
        elif b[0] == 0:
            kind = "ok"
            check(not malformed, "%s: malformed packet authenticates", what)
            # what follows the packet in the stream is a command: its answer may be there
        else:
            raise Violation(f"{what}: unexpected packet {b[:50]!r}")
    elif c.closed:
        kind = "closed"
    else:
        check(bad_header, "%s: neither answered nor closed", what)
    return kind


def rig_closing(rig, c):
    rig.run(10)
    return c.closed


def in_step(rig, c, what):
    """An authenticated connection is in step or closed."""
    if c.closed:
        return False
    try:
        r = rig.guarded(10, lambda: c.cmd(wire.COM_PING))
    except ProtocolViolation as e:
        if c.closed:
            return False
        raise Violation(f"{what}: out of step afterwards: {e}")
    check(r.kind == "ok", "%s: PING afterwards answered with %s", what, r)
    return True


# ---- authentication ------------------------------------------------------------------------------
def k_hs(case, ctx):
    with Rig(ctx, default=case["default"]) as rig:
        c = rig.w.connect()
        c.handshake()
        base = hs_seeds(c, case["seed"])
        rig.finish(c, "setup")
        its = itertools.islice(enumerate(mutations(base, case["th"])), case["lo"], case["hi"])
        labels = [(i, m[0]) for i, m in its]
        for i, label in labels:
            c = rig.w.connect()
            c.handshake()
            p = mutate_at(hs_seeds(c, case["seed"]), label)
            what = f"handshake response {case['seed']} {label}"
            mal = malformed_handshake(p, c.hs.caps)
            caps = int.from_bytes(p[:4].ljust(4, b"\0"), "little") & c.hs.caps
            c.caps = caps
            one_auth(rig, c, p, 1, what, mal, ctx, case["seed"])
        rig.fresh("handshake")


def one_auth(rig, c, p, seq, what, mal, ctx, tag):
    c.send(p, seq)
    kind = after_auth_packet(rig, c, what, mal, ctx, len(p))
    ctx.outcome((tag, kind))
    ctx.state((what, kind))
    if kind == "ok":
        if c.caps & wire.PROTOCOL_41:
            in_step(rig, c, what)
        else:
            # a client from before protocol 4.1
            c.send(wire.COM_PING)
            rig.run(10)
            got = c.packets()
            check(c.closed or (len(got) == 1 and got[0][0] == 1 and got[0][2][:1] == b"\0"), "%s: out of step: %r", what, got)
    rig.others(what)
    rig.finish(c, what)
    return kind


def mutate_at(p, label):
    """The mutation `label` of p (p has the same shape as the payload the label was made for)."""
    import re
    m = re.fullmatch(r"([a-z]+)(\d*)(?:([=:+])(\d+))?", label)
    op, i, x = m[1], int(m[2] or 0), int(m[4]) if m[4] else None
    if op == "id":
        return p
    if op == "trunc":
        return p[:i]
    if op == "del":
        return p[:i] + p[i + 1:]
    if op == "set":
        return p[:i] + bytes([x]) + p[i + 1:]
    if op == "ins":
        return p[:i] + PREFIX[x] + p[i:]
    if op == "over":
        return p[:i] + PREFIX[x] + p[i + 1:]
    if op == "cut":
        return p[:i] + PREFIX[x]
    if op == "junk":
        return p + JUNK[i]
    if op == "zero":
        return p[:i] + bytes(x) + p[i + x:]
    if op == "ones":
        return p[:i] + b"\xff" * x + p[i + x:]
    raise KeyError(label)


def k_hs_tamper(case, ctx):
    with Rig(ctx, default=case["default"]) as rig:
        c = rig.w.connect()
        c.handshake()
        labels = [t[0] for t in tamper(hs_seeds(c, case["seed"]), 1)]
        rig.finish(c, "setup")
        for n, label in enumerate(labels):
            c = rig.w.connect()
            c.handshake()
            raw = list(tamper(hs_seeds(c, case["seed"]), 1))[n][1]
            what = f"handshake response {case['seed']} {label}"
            pk, part = stream_packets(raw)
            bad = not pk or pk[0][0] != 1 or malformed_handshake(pk[0][1], c.hs.caps)
            c.caps = CAPS["min"]
            c.feed(raw)
            kind = after_auth_packet(rig, c, what, bad, ctx, len(raw), bad_header=not pk or len(pk) > 1)
            if pk and pk[0][0] != 1:
                check(kind in ("err", "closed"), "%s: wrong sequence number, but the answer is %s", what, kind)
            ctx.outcome((case["seed"], "tamper", kind))
            rig.others(what)
            rig.finish(c, what)
        rig.fresh("handshake tamper")


def k_ssl(case, ctx):
    """SSL request to a TLS server: mutated, and followed by something that isn't TLS."""
    with Rig(ctx, tls=True) as rig:
        c = rig.w.connect()
        c.handshake()
        base = wire.ssl_request(wire.FULL_CAPS & c.hs.caps)
        rig.finish(c, "setup")
        for label, p in mutations(base, case["th"]):
            c = rig.w.connect()
            c.handshake()
            what = f"SSL request {label}"
            mal = malformed_handshake(p, c.hs.caps) and not len(p) == 32
            c.caps = CAPS["min"]
            c.send(p, 1)
            rig.run(len(p))
            if len(p) == 32 and not c.unread() and not c.closed:
                # waiting for TLS
                ctx.outcome(("ssl", "tls"))
            else:
                kind = after_auth_packet(rig, c, what, mal, ctx, len(p))
                ctx.outcome(("ssl", kind))
            rig.others(what)
            rig.finish(c, what)
        for label, raw in tamper(base, 1):
            c = rig.w.connect()
            c.handshake()
            c.caps = CAPS["min"]
            c.feed(raw)
            rig.run(len(raw))
            rig.others("SSL request " + label)
            rig.finish(c, "SSL request " + label)
        rig.fresh("ssl request")


def k_ssl_plain(case, ctx):
    """A valid SSL request followed by all kinds of bytes in place of a ClientHello, together with it or later."""
    with Rig(ctx, tls=True) as rig:
        hs = wire.handshake_response(wire.FULL_CAPS & ~wire.CONNECT_WITH_DB, b"u", b"")
        junks = [b"", b"\0", b"\x16", b"\x16\x03\x01", b"\x16\x03\x01\x40\x01", b"\x16\x03\x01\xff\xff" + b"\x01" * 100, b"\x80\x2e\x01", b"GET / HTTP/1.0\r\n\r\n",
                 b"\xff" * 300, bytes(300), wire.frame(hs, 2), wire.frame(wire.COM_PING, 0), wire.frame(wire.ssl_request(wire.FULL_CAPS), 2), b"A" * 70000,
                 b"\x16\x03\x03\x00\x00" * 3000, b"\x15\x03\x01\x00\x02\x01\x00" * 2000, b"\x17\x03\x03\x00\x10" + b"x" * 16]
        junks += [bytes([i]) * 40 for i in range(256)]
        for j, junk in enumerate(junks):
            for together in (False, True):
                c = rig.w.connect()
                c.handshake()
                what = f"SSL request, then junk {j}"
                req = wire.frame(wire.ssl_request(wire.FULL_CAPS & c.hs.caps), 1)
                if together:
                    c.feed(req + junk)
                else:
                    c.feed(req)
                    rig.run(40)
                    c.feed(junk)
                rig.run(len(junk))
                rig.others(what)
                if not c.closed and junk and j % 5 == 0:
                    # stays silent: the TLS handshake must time out
                    rig.guarded(1000, lambda: rig.w.settle(300))
                    check(c.closed, "%s: no timeout", what)
                    ctx.outcome(("sslplain", "timeout"))
                ctx.outcome(("sslplain", c.closed))
                rig.finish(c, what)
        rig.fresh("ssl junk")


def k_tls_hello(case, ctx):
    """ClientHello cut or damaged at every offset."""
    with Rig(ctx, tls=True) as rig:
        for off in range(case["lo"], case["hi"]):
            done = False
            for how in ("cut", "flip", "zero"):
                c = rig.w.connect()
                c.handshake()
                c.send(wire.ssl_request(wire.FULL_CAPS & c.hs.caps), 1)
                rig.run(40)
                t = TLSClient(c)
                hello = t.first_flight()
                if off >= len(hello):
                    done = True
                    rig.finish(c, "unused")
                    break
                what = f"ClientHello {how} at {off}"
                bad = {"cut": hello[:off], "flip": hello[:off] + bytes([hello[off] ^ 0xFF]) + hello[off + 1:],
                       "zero": hello[:off] + b"\0" + hello[off + 1:]}[how]
                c.feed(bad)
                rig.run(len(bad))
                rig.others(what)
                ctx.outcome(("hello", how, c.closed))
                rig.finish(c, what)
            if done:
                break
        rig.fresh("hello")


def k_tls_hs(case, ctx):
    """Handshake responses inside TLS."""
    with Rig(ctx, tls=True) as rig:
        c = rig.w.connect()
        c.handshake()
        base = hs_seeds(c, "full")
        rig.finish(c, "setup")
        for label, _ in itertools.islice(mutations(base, case["th"], True), case["lo"], case["hi"]):
            c = rig.w.connect()
            c.handshake()
            seed = bytearray(hs_seeds(c, "full"))
            seed[1] |= 0x08
            p = mutate_at(bytes(seed), label)
            c.send(wire.ssl_request(wire.FULL_CAPS & c.hs.caps), 1)
            rig.run(40)
            c.tls = TLSClient(c)
            c.tls.handshake()
            what = f"handshake response in TLS {label}"
            mal = malformed_handshake(p, c.hs.caps)
            c.caps = (int.from_bytes(p[:4].ljust(4, b"\0"), "little") & c.hs.caps) | wire.PROTOCOL_41
            c.send(p, 2)
            rig.run(len(p))
            rig.run(10)
            pk = c.packets()
            if pk:
                b = pk[0][2]
                kind = {0: "ok", 0xFF: "err"}.get(b[0], "more")
                check(not (mal and kind != "err"), "%s: malformed, but the answer is %s", what, kind)
            else:
                kind = "closed"
            if kind in ("err", "closed"):
                # the TLS closing handshake may time out
                rig.guarded(1000, lambda: rig.w.settle(100))
                check(c.closed, "%s: answer is %s, but the connection stays open", what, kind)
            ctx.outcome(("tlshs", kind))
            rig.others(what)
            rig.finish(c, what)
        rig.fresh("tls handshake")


def to_reply(rig, name):
    """Bring a new connection to where the server waits for an authentication reply.
    -> (client, payload, seq, may be malformed?)"""
    c = rig.w.connect()
    c.handshake()
    F = wire.FULL_CAPS & c.hs.caps & ~wire.CONNECT_WITH_DB
    c.caps = F
    if name in ("native", "native_empty", "clear_switch"):
        user = {"native": b"p", "native_empty": b"u", "clear_switch": b"c"}[name]
        c.send(wire.handshake_response(F, user, b"", None, b"mysql_old_password"), 1)
        rig.w.run()
        r = c._auth_reply(2)
        check(isinstance(r, wire.AuthSwitch), "no auth switch: %s", r)
        data = {"native": wire.native_scramble("pw", r.nonce), "native_empty": b"", "clear_switch": b"pw\0"}[name]
        return c, data, 3
    if name in ("clear", "more"):
        # default plugin clear text on both sides: the handshake response carries the password
        raise KeyError(name)
    if name in ("chg_clear", "chg_native"):
        r = c.login(user="u")
        check(isinstance(r, wire.OK), "login %s", r)
        user = {"chg_clear": b"c", "chg_native": b"p"}[name]
        c.send(wire.com_change_user(c.caps, user, b"", b"", plugin=b"mysql_old_password"), 0)
        rig.w.run()
        r = c._auth_reply(1)
        check(isinstance(r, wire.AuthSwitch), "no auth switch: %s", r)
        data = b"pw\0" if name == "chg_clear" else wire.native_scramble("pw", r.nonce)
        return c, data, 2
    raise KeyError(name)


def k_reply(case, ctx):
    name = case["seed"]
    if name in ("clear", "more"):
        return k_reply_inline(case, ctx)
    with Rig(ctx) as rig:
        c, base, seq = to_reply(rig, name)
        rig.finish(c, "setup")
        base = base or b"x"
        labels = [x[0] for x in mutations(base, case["th"])]
        for label in labels + ["empty"]:
            c, p, seq = to_reply(rig, name)
            p = b"" if label == "empty" else mutate_at(p or b"x", label)
            what = f"authentication reply {name} {label}"
            mal = "clear" in name and b"\0" not in p
            kind = one_auth(rig, c, p, seq, what, mal, ctx, name)
            if name == "native_empty" and p:
                check(kind in ("err", "closed"), "%s: accepted", what)
        c, p, seq = to_reply(rig, name)
        tl = [t[0] for t in tamper(p or b"x", seq)]
        rig.finish(c, "setup")
        for n, label in enumerate(tl):
            c, p, seq = to_reply(rig, name)
            raw = list(tamper(p or b"x", seq))[n][1]
            what = f"authentication reply {name} {label}"
            pk, part = stream_packets(raw)
            c.feed(raw)
            bad = not pk or pk[0][0] != seq
            kind = after_auth_packet(rig, c, what, bad, ctx, len(raw), bad_header=not pk)
            if pk and bad:
                check(kind in ("err", "closed"), "%s: wrong sequence number, but the answer is %s", what, kind)
            rig.others(what)
            rig.finish(c, what)
        rig.fresh("reply")


def k_reply_inline(case, ctx):
    """Clear-text password inside the handshake response, at every length."""
    with Rig(ctx, default="clear") as rig:
        for p in [b"pw\0", b"pw", b"", b"\0", b"\0\0", b"pw\0x", b"\xff\xfe\0", b"p" * 300 + b"\0", b"p" * 70000, b"p" * 70000 + b"\0"]:
            c = rig.w.connect()
            c.handshake()
            F = wire.FULL_CAPS & c.hs.caps & ~wire.CONNECT_WITH_DB
            c.caps = F
            pay = wire.handshake_response(F, b"c", p, None, b"mysql_clear_password")
            kind = one_auth(rig, c, pay, 1, f"clear password {p[:20]!r}", b"\0" not in p, ctx, "clear")
            if p == b"pw\0":
                check(kind == "ok", "correct clear-text password refused")
        rig.fresh("clear")


# ---- commands -------------------------------------------------------------------------------------
NCUR = 8


def ready(rig, caps, state):
    """A new authenticated connection in `state`, and what is known about its statements."""
    c = rig.w.connect()
    r = c.login(user="u", caps=CAPS[caps])
    check(isinstance(r, wire.OK), "a new connection cannot log in: %s", r)
    stmts, ids = {}, {}
    if state != "plain":
        for k, sql in ((1, "SELECT rows"), (2, "SELECT ?, ?"), (3, "SELECT " + ",".join("?" * 9))):
            r = c.prepare(sql)
            check(r.kind == "prepare", "prepare: %s", r)
            ids[k] = r.stmt_id
            stmts[r.stmt_id] = STMTS[k]
    long = ()
    if state == "cursor":
        r = c.cmd(wire.com_execute(ids[1], (), c.caps, num_params=0, cursor=True))
        check(r.kind == "cursor", "cursor: %s", r)
    if state == "long":
        c.silent(wire.com_long_data(ids[2], 0, b"long"))
        long = (0,)
    return c, stmts, ids, long


def with_id(name, p, ids):
    if p[0] in (wire.EXECUTE, wire.FETCH, wire.RESET, wire.CLOSE, wire.LONG_DATA):
        k = int.from_bytes(p[1:5], "little")
        return p[:1] + struct.pack("<I", ids[k]) + p[5:]
    return p


def read_answer(rig, c, p, what, mal, before, ctx):
    """One answer to the command `p` (or none). -> kind"""
    kind = wire.kind_of(p)
    start = 1 + len(p) // 0xFFFFFF
    if p[:1] == bytes([wire.CHANGE_USER]):
        got = c.packets()
        if not got:
            check(c.closed, "%s: neither answered nor closed", what)
            return "closed"
        check(len(got) == 1 and got[0][0] == start, "%s: answered with %r", what, got)
        b = got[0][2]
        if b[0] == 0xFF:
            wire.parse_err(b, c.caps)
            return "err"
        if b[0] == 0:
            check(not mal, "%s: malformed, but accepted", what)
            return "ok"
        check(b[0] in (1, 0xFE) and not mal, "%s: answered with %r", what, b)
        return "switch"
    if kind == "none":
        got = c.packets()
        if p and p[0] == wire.QUIT:
            return "closed" if c.closed else "open"
        if got:
            check(len(got) == 1 and got[0][2][:1] == b"\xff", "%s: answered with %r", what, got)
            return "err"
        return "silent"
    try:
        pk = wire.Packets(c.packets(), start)
        if not pk.more():
            check(c.closed, "%s: neither answered nor closed", what)
            return "closed"
        res = wire.read_response(pk, kind if p else "ok", c.caps)
    except ProtocolViolation as e:
        raise Violation(f"{what}: {e}")
    check(not pk.more(), "%s: more than one answer", what)
    if mal:
        check(res.kind == "err", "%s: malformed, but answered with %s", what, res)
        check(rig.w.app.got == before, "%s: malformed, but reached the application", what)
    return res.kind


def one_command(rig, caps, state, make, what, ctx, tag, th=False):
    c, stmts, ids, long = ready(rig, caps, state)
    p = make(c, ids)
    mal = not p or certainly_malformed(p, c.caps, stmts, long)
    before = rig.w.app.got
    c.send(p)
    rig.run(len(p))
    kind = read_answer(rig, c, p, what, mal, before, ctx)
    ctx.outcome((tag, kind, mal))
    ctx.state((what, kind))
    if kind == "switch":
        pass
    elif kind == "open":
        raise Violation(f"{what}: COM_QUIT doesn't close")
    else:
        in_step(rig, c, what)
    rig.others(what)
    rig.finish(c, what)


def k_cmd(case, ctx):
    name, caps = case["seed"], case["caps"]
    with Rig(ctx) as rig:
        c, stmts, ids, long = ready(rig, caps, "plain")
        base = seed_payload(name, c)
        state = seeds(c.caps)[name][0]
        rig.finish(c, "setup")
        for label, _ in itertools.islice(mutations(base, case["th"]), case["lo"], case["hi"]):
            what = f"command {name}/{caps} {label}"

            def make(c, ids):
                return mutate_at(with_id(name, seed_payload(name, c), ids), label)
            one_command(rig, caps, state, make, what, ctx, name)
        rig.fresh("commands")


def k_pairs(case, ctx):
    """Two fields changed at once."""
    name = case["seed"]
    vals = [b"\0", b"\x01", b"\xfb", b"\xff", PREFIX[1], PREFIX[4]]
    with Rig(ctx) as rig:
        c, stmts, ids, long = ready(rig, "full", "plain")
        base = seed_payload(name, c)
        state = seeds(c.caps)[name][0]
        rig.finish(c, "setup")
        i = case["i"]
        for j in range(i + 1, min(len(base), i + 24)):
            for a in vals:
                for b in vals:
                    def make(c, ids):
                        q = with_id(name, seed_payload(name, c), ids)
                        return q[:i] + a + q[i + 1:j] + b + q[j + 1:]
                    if i < len(base):
                        one_command(rig, "full", state, make, f"command {name} {a!r}@{i} {b!r}@{j}", ctx, name)


def k_cmd_tamper(case, ctx):
    name, caps = case["seed"], case["caps"]
    with Rig(ctx) as rig:
        c, stmts, ids, long = ready(rig, caps, "plain")
        base = seed_payload(name, c)
        state = seeds(c.caps)[name][0]
        rig.finish(c, "setup")
        for n, (label, _) in enumerate(tamper(base, 0)):
            what = f"command {name}/{caps} {label}"
            c, stmts, ids, long = ready(rig, caps, state)
            raw = list(tamper(with_id(name, seed_payload(name, c), ids), 0))[n][1]
            pk, part = stream_packets(raw)
            c.feed(raw)
            rig.run(len(raw))
            kind = "silent"
            try:
                got = c.packets()
            except ProtocolViolation as e:
                raise Violation(f"{what}: {e}")
            if pk and pk[0][0] != 0:
                # wrong sequence number: one ERR and in step, or closed
                if got:
                    check(len(got) == 1 and got[0][2][:1] == b"\xff", "%s: answered with %r", what, got)
                    kind = "err"
                else:
                    check(c.closed, "%s: wrong sequence number, but neither answered nor closed", what)
                    kind = "closed"
                if not c.closed:
                    in_step(rig, c, what)
            elif not pk:
                check(not got, "%s: incomplete packet answered: %r", what, got)
            elif not part and len(pk) == 1 and not c.closed and pk[0][1][:1] != bytes([wire.CHANGE_USER]):
                in_step(rig, c, what)
            ctx.outcome((name, "tamper", kind, c.closed))
            rig.others(what)
            rig.finish(c, what)
        rig.fresh("tamper")


def k_short(case, ctx):
    """All commands of one or two bytes, on one connection as long as it stays open."""
    with Rig(ctx) as rig:
        cmd = case["c"]
        c = None
        payloads = [bytes([cmd])] + [bytes([cmd, x]) for x in range(256)] + ([b""] if cmd == 0 else [])
        for p in payloads:
            if c is None:
                c, stmts, ids, long = ready(rig, "full", "plain")
            what = f"payload {p.hex()}"
            before = rig.w.app.got
            mal = not p or certainly_malformed(p, c.caps, {})
            c.send(p)
            rig.run(len(p))
            kind = read_answer(rig, c, p, what, mal, before, ctx)
            if kind == "open":
                raise Violation(f"{what}: COM_QUIT doesn't close")
            ctx.outcome(("short", cmd, kind))
            ctx.state((what, kind))
            ctx.transition()
            if kind == "switch" or not in_step(rig, c, what):
                rig.others(what)
                rig.finish(c, what)
                c = None
            elif not p or p[-1] % 16 == 0:
                rig.others(what)
        if c is not None:
            rig.others("short")
            rig.finish(c, "short")
        rig.fresh("short")


def at_position(rig, pos):
    if pos == "hs":
        c = rig.w.connect()
        c.handshake()
        c.caps = CAPS["min"]
        return c, 1
    if pos == "reply":
        c, _, seq = to_reply(rig, "native")
        return c, seq
    c, _, seq = to_reply(rig, "chg_clear")
    return c, seq


def k_short_pre(case, ctx):
    with Rig(ctx) as rig:
        for p in [b""] + [bytes([x]) for x in range(256)] + [bytes([x, 0]) for x in range(256)]:
            c, seq = at_position(rig, case["pos"])
            mal = case["pos"] == "hs" or (case["pos"] == "chg" and b"\0" not in p)
            one_auth(rig, c, p, seq, f"{case['pos']} payload {p.hex()}", mal, ctx, ("short", case["pos"]))
        rig.fresh("short")


def k_short_pre2(case, ctx):
    with Rig(ctx) as rig:
        for x in range(case["lo"], case["lo"] + 16):
            for y in range(256):
                p = bytes([x, y])
                c, seq = at_position(rig, case["pos"])
                mal = case["pos"] == "hs" or (case["pos"] == "chg" and b"\0" not in p)
                one_auth(rig, c, p, seq, f"{case['pos']} payload {p.hex()}", mal, ctx, ("short", case["pos"]))


# ---- statement text -----------------------------------------------------------------------------
def k_sql(case, ctx):
    """Hostile text through the SQL-aware session."""
    global BUDGET_BASE
    old, BUDGET_BASE = BUDGET_BASE, 3_000_000
    try:
        with Rig(ctx, session=Full) as rig:
            for sql in SQLS[case["lo"]:case["hi"]]:
                what = f"{case['how']} {sql[:40]!r}..."
                c = rig.w.connect()
                r = c.login(user="u", db="db")
                check(isinstance(r, wire.OK), "a new connection cannot log in: %s", r)
                if case["how"] == "query":
                    p = wire.com_query(sql, c.caps)
                elif case["how"] == "attr":
                    p = wire.com_query("SELECT 1", c.caps, [(sql.encode()[:200], S, False, sql.encode())])
                elif case["how"] == "prepare":
                    p = wire.com_prepare(sql)
                elif case["how"] == "initdb":
                    p = wire.com_init_db(sql)
                else:
                    p = wire.com_field_list(sql.replace("\0", "").encode(), sql.encode()[:100])
                c.send(p)
                rig.run(len(p))
                kind = read_answer(rig, c, p, what, False, 0, ctx)
                if kind == "prepare":
                    pass
                ctx.outcome((case["how"], kind))
                in_step(rig, c, what)
                rig.others(what)
                rig.finish(c, what)
            c = rig.w.login(user="u")
            check(c.query("SELECT a FROM t").kind == "rows", "not served afterwards")
    finally:
        BUDGET_BASE = old


# ---- big packets ------------------------------------------------------------------------------------
def k_scale(case, ctx):
    """Cost must not explode with the size of a packet (the case's CPU limit is the bound; elements of a packet cost the same however many)."""
    n = case["mib"] << 20
    if case["shape"] not in ELEMENTS:
        return scale(case, ctx, n)
    for _ in range(3):
        t = [time.process_time()]
        for k in (n // 6, n):
            scale(case, ctx, k)
            t.append(time.process_time())
        small, large = t[1] - t[0], t[2] - t[1]
        if large < 2 or large < 15 * small:
            return
    check(False, "%s: %.1f s for a packet, %.1f s for one 6 times as long", case["shape"], small, large)


def scale(case, ctx, n):
    shape = case["shape"]
    with Rig(ctx, default="clear" if shape == "reply_clear" else "native") as rig:
        if shape.startswith("hs_") or shape == "reply_clear":
            c = rig.w.connect()
            c.handshake()
            F = wire.FULL_CAPS & c.hs.caps & ~wire.CONNECT_WITH_DB
            c.caps = F
            big = b"A" * n
            nat = b"mysql_native_password"
            p = {"hs_user": lambda: struct.pack("<IIB", F, 1, 255) + bytes(23) + big,
                 "hs_auth": lambda: wire.handshake_response(F, b"u", big, None, nat),
                 "hs_db": lambda: wire.handshake_response(F | wire.CONNECT_WITH_DB, b"u", b"", big, nat),
                 "hs_plugin": lambda: wire.handshake_response(F, b"u", b"", None, big),
                 "hs_attrs": lambda: wire.handshake_response(F, b"u", b"", None, nat, {b"a": big}),
                 "hs_attrs_many": lambda: wire.handshake_response(F, b"u", b"", None, nat, {b"%x" % i: b"" for i in range(n // 80)}),
                 "reply_clear": lambda: wire.handshake_response(F, b"c", big, None, b"mysql_clear_password")}[shape]()
            c.send(p, 1)
            kind = after_auth_packet(rig, c, shape, False, ctx, len(p))
            if kind == "ok":
                in_step(rig, c, shape)
        else:
            c, stmts, ids, long = ready(rig, "full", "long")
            caps = c.caps
            reply = True
            if shape == "chg_user":
                p = bytes([wire.CHANGE_USER]) + b"u" * n
            elif shape == "chg_attrs":
                p = wire.com_change_user(caps, b"u", b"", attrs={b"%x" % i: b"" for i in range(n // 80)})
            elif shape == "query_zero":
                p = wire.com_query(b"nil" + bytes(n), caps)
            elif shape == "query_attr":
                p = wire.com_query(b"nil", caps, [(b"k%d" % i, S, False, b"v") for i in range(n // 160)])
            elif shape in ("query_nulls", "query_ints"):
                k = n // 32
                nul = shape == "query_nulls"
                p = b"\x03" + wire.lenenc(k) + b"\x01" + (b"\xff" if nul else b"\0") * ((k + 7) // 8) + b"\x01" + b"\x01\0\x01n" * k + (b"" if nul else b"\x07" * k) + b"nil"
            elif shape == "exec_nulls":
                k = n // 64
                p = b"\x17" + struct.pack("<IBI", ids[1], 8, 1) + wire.lenenc(k) + b"\xff" * ((k + 7) // 8) + b"\x01" + b"\x06\0\x01n" * k
            elif shape.startswith("prepare_"):
                unit = {"q": b"x?", "quote": b"'", "bs": b"'" + b"\\'", "quotes": b"'a'?", "dash": b"--", "slash": b"/*"}[shape[8:]]
                body = unit * (n // 8 // len(unit))
                if shape in ("prepare_quote",):
                    body = b"'" * (n // 8 | 1)
                p = wire.com_prepare(body)
            elif shape == "exec_str":
                p = wire.com_execute(ids[2], [(b"", S, False, b"'" * n), (b"", "LONG", False, 1)], caps)
                long = ()
                c.cmd(wire.com_reset(ids[2]))
            elif shape == "exec_many":
                r = c.prepare("nil " + "?," * 60000)
                check(r.kind == "prepare", "%s", r)
                p = wire.com_execute(r.stmt_id, [(b"", "LONG", False, i) for i in range(60000)], caps)
            elif shape == "exec_quotes":
                c.cmd(wire.com_reset(ids[2]))
                p = wire.com_execute(ids[2], [(b"", S, False, b"?'\\" * (n // 12)), (b"", S, False, b"\\1'" * (n // 12))], caps)
            elif shape == "long_many":
                raw = wire.frame(wire.com_long_data(ids[2], 1, b"z" * 50)) * (n // 400)
                c.feed(raw)
                rig.run(len(raw))
                p = wire.COM_PING
            elif shape == "long_one":
                c.silent(wire.com_long_data(ids[2], 1, b"\\" * n))
                p = wire.com_execute(ids[2], [(b"", S, False, Ellipsis), (b"", S, False, Ellipsis)], caps)
            elif shape == "fields_nonul":
                p = bytes([wire.FIELD_LIST]) + b"t" * n
            elif shape == "initdb":
                p = wire.com_init_db(b"d" * n)
            elif shape == "fetch_max":
                c.cmd(wire.com_execute(ids[1], (), caps, num_params=0, cursor=True))
                p = wire.com_fetch(ids[1], 0xFFFFFFFF)
            elif shape == "continuations":
                p = bytes([0x7F]) + bytes(40 << 20)
            elif shape in ("pings", "bad_pings"):
                one = wire.frame(wire.COM_PING) if shape == "pings" else wire.frame(b"\x7f")
                k = n // 100 // len(one)
                raw = one * k
                c.feed(raw)
                rig.run(len(raw))
                got = c.packets()
                check(len(got) == k, "%d answers to %d commands", len(got), k)
                p = wire.COM_PING
            c.send(p)
            rig.run(len(p))
            if shape == "continuations":
                got = c.packets()
                check(len(got) == 1 and got[0][0] == 3 and got[0][2][:1] == b"\xff", "%s: answered with %r", shape, got)
                in_step(rig, c, shape)
            else:
                kind = read_answer(rig, c, p, shape, False, 0, ctx)
                ctx.outcome((shape, kind))
                in_step(rig, c, shape)
        rig.others(shape)
        rig.finish(c, shape)
        rig.fresh(shape)
        ctx.state(shape)


GROW = {
    "paren": lambda n: "SELECT " + "(" * n, "parens": lambda n: "SELECT " + "(" * n + "1" + ")" * n, "from": lambda n: "SELECT * FROM " + "(" * n + " x",
    "sub": lambda n: "SELECT * FROM " + "(" * n + "SELECT 1" + ")" * n, "not": lambda n: "SELECT " + "NOT " * n + "1", "minus": lambda n: "SELECT " + "- " * n + "1",
    "case": lambda n: "SELECT " + "CASE WHEN " * n, "case2": lambda n: "SELECT " + "CASE WHEN 1 THEN " * n + "1" + " END" * n, "cast": lambda n: "SELECT " + "CAST(" * n,
    "fn": lambda n: "SELECT " + "f(" * n, "fn2": lambda n: "SELECT " + "f(" * n + ")" * n, "set": lambda n: "SET x=" + "(" * n, "brack": lambda n: "SELECT " + "[" * n,
    "brace": lambda n: "SELECT " + "{" * n, "cmt": lambda n: "SELECT " + "/*" * n, "quote": lambda n: "SELECT " + "'" * n, "with": lambda n: "WITH a AS (" * n,
    "interval": lambda n: "SELECT " + "INTERVAL " * n, "exists": lambda n: "SELECT " + "EXISTS(" * n, "joinon": lambda n: "SELECT * FROM a" + " JOIN b ON 1" * n,
    "ljoin": lambda n: "SELECT * FROM a" + " LEFT JOIN b USING (x)" * n, "njoin": lambda n: "SELECT * FROM a" + " NATURAL JOIN b" * n,
    "cjoin": lambda n: "SELECT * FROM a" + " CROSS JOIN b" * n, "comma": lambda n: "SELECT * FROM a" + ", b" * n, "joinp": lambda n: "SELECT * FROM a" + " JOIN (b" * n,
    "semi": lambda n: ";" * n, "union": lambda n: "SELECT 1" + " UNION SELECT 1" * n, "create": lambda n: "CREATE TABLE x (" + "(" * n,
    "cols": lambda n: "CREATE TABLE x (a " + "ARRAY<" * n, "in": lambda n: "SELECT 1 IN (" * n, "between": lambda n: "SELECT 1" + " BETWEEN 1" * n,
    "like": lambda n: "SELECT 1" + " LIKE 1" * n, "and": lambda n: "SELECT 1" + " AND 1" * n, "dot": lambda n: "SELECT a" + ".a" * n, "at": lambda n: "SELECT " + "@" * n,
    "setmany": lambda n: "SET " + ",".join("a=1" for _ in range(n)), "hint": lambda n: "SELECT /*+ " + "SET_VAR(a=1) " * n + "*/ 1",
    "show": lambda n: "SHOW " * n, "showlike": lambda n: "SHOW TABLES LIKE '" + "%a" * n + "b'", "describe": lambda n: "DESCRIBE " * n, "explain": lambda n: "EXPLAIN " * n + "SELECT 1",
    "join": lambda n: "SELECT * FROM a" + " JOIN b" * n, "semi2": lambda n: "SELECT 1;" * n, "values": lambda n: "INSERT INTO t VALUES " + ",".join(["(1)"] * n),
    "lambda": lambda n: "SELECT " + "x -> " * n, "window": lambda n: "SELECT a OVER (" * n, "if": lambda n: "SELECT " + "IF(" * n, "collate": lambda n: "SELECT a" + " COLLATE b" * n,
}
# Listed in KNOWN_FINDINGS.txt: work that grows exponentially inside sqlglot
GROW_KNOWN = {"join": "sqlglot-join-without-on", "njoin": "sqlglot-join-without-on"}


def k_grow(case, ctx):
    """The work of parsing nested statements doesn't double with every level (counted in function calls)."""
    counts = []
    f = GROW[case["shape"]]
    calls = [0, 0]

    def on_call(code, off):
        calls[0] += 1
        if calls[0] > calls[1]:
            calls[1] = 1 << 60
            raise Hang("calls")
    with Rig(ctx, session=Full) as rig:
        _stop_counting()
        _mon.register_callback(_TOOL, _mon.events.PY_START, on_call)
        try:
            c = rig.w.login(user="u", db="db")
            for n in (2, 6, 10):
                sql = f(n)
                p = wire.com_query(sql, c.caps)
                calls[:] = [0, 400_000]
                _mon.set_events(_TOOL, _mon.events.PY_START)
                try:
                    c.send(p)
                    rig.w.run()
                except Hang:
                    counts.append(10 ** 9)
                    break
                finally:
                    _mon.set_events(_TOOL, 0)
                    calls[1] = 1 << 60
                counts.append(calls[0])
                read_answer(rig, c, p, case["shape"], False, 0, ctx)
                in_step(rig, c, case["shape"])
        finally:
            _mon.register_callback(_TOOL, _mon.events.PY_START, None)
        ctx.sample(dict(shape=case["shape"], calls=counts))
        ctx.transition(len(counts))
        exploding = len(counts) < 3 or counts[2] - counts[1] > 5 * max(counts[1] - counts[0], 400)
        if exploding and case["shape"] in GROW_KNOWN:
            ctx.known_finding(GROW_KNOWN[case["shape"]])
        else:
            check(not exploding, "work explodes with nesting of %r: %s calls", f(2), counts)


# ---- evaluation of statements -------------------------------------------------------------
# Letters that Python normalizes to ASCII (NFKC) when it reads an identifier
STYLES = {"bold": 0x1D41A, "italic": 0x1D44E, "script": 0x1D4B6, "fraktur": 0x1D51E, "double": 0x1D552, "sans": 0x1D5BA, "mono": 0x1D68A, "wide": 0xFF41, "plain": 0x61}
CODE = [
    "SELECT {f}()", "SELECT {f}(1)", "SELECT 1, CONCAT('a', {f}('b'))", "SELECT `{f}`()", "SELECT {f}({f})", "SELECT ABS({f}())", "SELECT x.{f}()", "SELECT `x`.`{f}`(1)",
    "SELECT CASE WHEN {f}() THEN 1 ELSE {f}(2) END", "SELECT IF({f}(), 1, 2)", "SELECT -{f}()", "SELECT NOT {f}()", "SELECT {f}() IN ({f}())", "SELECT {f}() BETWEEN {f}() AND {f}()",
    "SELECT INTERVAL '1' `day') + {f}() + ('`", "SELECT INTERVAL '1' `day') or {f}() or ('`", "SELECT INTERVAL '1' `day') if {f}() else ('`", "SELECT '2020-01-01' + INTERVAL {f}() DAY",
    "SELECT CAST(1 AS DECIMAL(1, {f}()))", "SELECT CAST(1 AS CHAR({f}()))", "SELECT CAST({f}() AS CHAR)", "SELECT CONVERT({f}(), CHAR)",
    "SELECT JSON_EXTRACT('{{}}', '$.\"a\\']+[{f}()]+[\\'\"')", "SELECT JSON_EXTRACT('{{}}', '$.\"a\'\']+[{f}()]+[\'\'\"')", "SELECT JSON_EXTRACT({f}(), '$.a')", "SELECT EXTRACT(`{f}` FROM 1)",
    "SELECT EXTRACT(`day', {f}(), '` FROM 1)", "SELECT x -> {f}(1)", "SELECT ARRAYANY([1], x -> {f}(x))", "SELECT TIMESTAMPDIFF(`{f}`(), 1, 2)", "SELECT DATE_ADD('2020-01-01', INTERVAL 1 `day') or {f}() or ('`)",
    "SELECT `a') or {f}() or ('`()", "SELECT `ABS(1) or {f}() or ABS`(1)", "SELECT `ABS(1) + {f}() #`(1)", "SELECT 'a\\' + {f}() + '", "SELECT 'a\'\' + {f}() + \'\''", "SELECT 'a\\\\\' + {f}() #'",
    "SELECT [{f}()]", "SELECT (1)[{f}()]", "SELECT {{'a': {f}()}}", "SELECT {{fn {f}()}}", "SELECT 1 LIMIT {f}()", "SELECT 1 ORDER BY {f}()", "SELECT 1 WHERE {f}()", "SELECT 1 HAVING {f}()", "SELECT DISTINCT {f}()",
    "SELECT (SELECT {f}())", "SELECT EXISTS(SELECT {f}())", "WITH a AS (SELECT {f}() AS b) SELECT b FROM a", "SELECT {f}() FROM information_schema.tables", "SELECT * FROM information_schema.tables WHERE {f}()",
    "SELECT * FROM information_schema.tables ORDER BY {f}()", "SELECT {f}(table_name), COUNT(*) FROM information_schema.tables GROUP BY {f}(table_name)", "SELECT `{f}`.table_name FROM information_schema.tables AS `{f}`",
    "SELECT MAX({f}(table_name)) FROM information_schema.tables", "SELECT table_name AS `a\"]+[{f}()]+[\"` FROM information_schema.tables ORDER BY 1",
    "SELECT a.`b\\\"]+[{f}()]+[\\\"` FROM (SELECT table_name AS `b\\\"]+[{f}()]+[\\\"` FROM information_schema.tables) a",
    "SELECT * FROM information_schema.tables a JOIN information_schema.columns b ON {f}(a.table_name) = {f}(b.table_name)", "SELECT t.table_name FROM information_schema.tables t WHERE {f}(t.table_name) LIKE {f}('a')",
    "SHOW TABLES FROM information_schema LIKE {f}()", "SHOW VARIABLES LIKE {f}()", "SHOW VARIABLES WHERE {f}()", "SHOW COLUMNS FROM information_schema.tables LIKE '\\' + {f}() + \\''", "SHOW COLUMNS FROM `a\\' + {f}() + \\'`",
    "DESCRIBE `a' + {f}() + '`", "SET @@sql_mode = {f}()", "SET autocommit = {f}()", "SET @a = {f}()", "USE `{f}`", "KILL {f}()", "SELECT /*+ SET_VAR(sql_mode={f}()) */ 1", "SELECT @@`{f}`", "SELECT @@{f}()", "SELECT @{f}()",
    "SELECT _utf8'a' + {f}()", "SELECT x'41' + {f}()", "SELECT {f}", "SELECT {f}.{f}", "SELECT scope.{f}()", "SELECT exp.{f}()", "SELECT DOT({f}, 1)", "SELECT ARRAYANY([1], {f})",
]


def k_code(case, ctx):
    """Statements don't run Python functions, however their names are written."""
    import builtins
    ran = []

    def probe(*a, **kw):
        ran.append(a)
        return 1
    name = "vpprobe" if case["style"] == "plain" else "".join(chr(STYLES[case["style"]] + ord(ch) - 97) for ch in "vpprobe")
    old = {n: getattr(builtins, n, None) for n in ("vpprobe", "VPPROBE", "Vpprobe", name)}
    with Rig(ctx, session=Full) as rig:
        for n in old:
            setattr(builtins, n, probe)
        try:
            c = rig.w.login(user="u", db="db")
            for t in CODE:
                p = wire.com_query(t.format(f=name), c.caps)
                c.send(p)
                try:
                    rig.w.run()
                except SystemExit:
                    raise Violation("%r ended the server" % t)
                check(not ran, "%r called a Python function", t.format(f=name))
                if c.closed:
                    rig.finish(c, t)
                    c = rig.w.login(user="u", db="db")
                    continue
                ctx.outcome((t, read_answer(rig, c, p, t, False, 0, ctx)))
                in_step(rig, c, t)
                ctx.transition()
            rig.others("code")
            rig.finish(c, "code")
        finally:
            for n in old:
                delattr(builtins, n)


def _nested(n, outer, inner):
    q = inner
    for i in range(n):
        q = outer.format(q=q, i=i)
    return q


_IS = "information_schema."
COST = {
    "pow": "SELECT POW(9, POW(9, 9))", "pow2": "SELECT POW(POW(POW(POW(99999, 999), 999), 999), 9)", "shift": "SELECT (1 << 100000000) * (1 << 100000000) * (1 << 100000000)",
    "repeat": "SELECT 'a' * 9999999999", "format": "SELECT '%01000000000d' % 5", "mod": "SELECT MOD('%01000000000d', 5)", "round": "SELECT ROUND(5, -1000000000)", "list": "SELECT [1, 2] * 3000000000",
    "product": "SELECT " + "*".join(["POW(99999999, 9999)"] * 20), "shl": "SELECT 1 << 99999999999",
    "like": "SELECT '" + "a" * 60 + "' LIKE '" + "%a" * 12 + "b'", "like2": "SELECT '" + "a" * 500 + "' LIKE '" + "%a_" * 100 + "b'", "like3": "SHOW VARIABLES LIKE '" + "%" * 14 + "!'",
    "like4": "SHOW VARIABLES LIKE '" + "%_" * 14 + "!'", "like5": "SHOW TABLES FROM information_schema LIKE '" + "%_" * 14 + "!'", "like6": "SHOW COLUMNS FROM information_schema.tables LIKE '" + "%e" * 14 + "%!'",
    "like7": "SELECT table_name FROM information_schema.tables WHERE '" + "a" * 60 + "' LIKE '" + "%a" * 12 + "b'", "like8": "SELECT '" + "a" * 20000 + "' LIKE '%" + "a" * 10000 + "b%'",
    "like9": "SELECT '" + "a" * 20000 + "' LIKE '%" + "a" * 19999 + "b'", "like10": "SELECT '" + "a" * 3000 + "' LIKE '%" + "_" * 1500 + "b%'", "showdb": "SHOW DATABASES LIKE '" + "%_" * 16 + "%!'",
    "cross3": f"SELECT COUNT(*) FROM {_IS}columns a, {_IS}columns b, {_IS}columns c", "cross5": f"SELECT COUNT(*) FROM {_IS}columns a" + "".join(f", {_IS}columns b{i}" for i in range(5)),
    "join4": f"SELECT a.table_name FROM {_IS}columns a " + " ".join(f"JOIN {_IS}columns b{i} ON b{i}.table_schema = a.table_schema" for i in range(4)),
    "left4": f"SELECT a.table_name FROM {_IS}columns a " + " ".join(f"LEFT JOIN {_IS}columns b{i} ON b{i}.table_schema = a.table_schema" for i in range(4)),
    "concat": _nested(40, "SELECT CONCAT(a, a) AS a FROM ({q}) x{i}", f"SELECT table_name AS a FROM {_IS}tables"), "mul": _nested(40, "SELECT a * a AS a FROM ({q}) x{i}", f"SELECT 3 AS a FROM {_IS}tables"),
    "add": _nested(40, "SELECT a + a AS a FROM ({q}) x{i}", f"SELECT 3 AS a FROM {_IS}tables"), "addstr": _nested(40, "SELECT a + a AS a FROM ({q}) x{i}", f"SELECT table_name AS a FROM {_IS}tables"),
    "cte": f"WITH c0 AS (SELECT table_name AS a FROM {_IS}tables)" + "".join(f", c{i} AS (SELECT a FROM c{i - 1} UNION ALL SELECT a FROM c{i - 1})" for i in range(1, 30)) + " SELECT a FROM c29",
    "cte2": f"WITH c0 AS (SELECT table_name AS a FROM {_IS}tables)" + "".join(f", c{i} AS (SELECT x.a FROM c{i - 1} x, c{i - 1} y)" for i in range(1, 10)) + " SELECT a FROM c9",
    "cte3": f"WITH c0 AS (SELECT table_name AS a FROM {_IS}tables)" + "".join(f", c{i} AS (SELECT CONCAT(a, a) AS a FROM c{i - 1})" for i in range(1, 40)) + " SELECT a FROM c39",
    "cnf": f"SELECT table_name FROM {_IS}tables WHERE " + " OR ".join(f"(table_name = 'a{i}' AND table_schema = 'b{i}')" for i in range(30)),
    "dnf": f"SELECT table_name FROM {_IS}tables WHERE " + " AND ".join(f"(table_name = 'a{i}' OR table_schema = 'b{i}')" for i in range(30)),
    "insub": f"SELECT table_name FROM {_IS}tables WHERE " + " AND ".join(f"table_name IN (SELECT table_name FROM {_IS}tables)" for i in range(20)),
    "stars": "SELECT " + ", ".join("*" * 1 for i in range(40)) + f" FROM {_IS}columns", "unions": " UNION ALL ".join([f"SELECT table_name FROM {_IS}tables"] * 40),
}
COST_CALLS, COST_CPU = 8_000_000, 15.0


def k_cost(case, ctx):
    """A small statement doesn't take forever to evaluate."""
    sql = COST[case["shape"]]
    calls = [0, 1 << 60]

    def on_call(code, off):
        calls[0] += 1
        if calls[0] > calls[1]:
            calls[1] = 1 << 60
            raise Hang("calls")

    def on_alarm(*a):
        raise Hang("cpu")
    import signal
    with Rig(ctx, session=Full) as rig:
        _stop_counting()
        _mon.register_callback(_TOOL, _mon.events.PY_START, on_call)
        old = signal.signal(signal.SIGVTALRM, on_alarm)
        try:
            c = rig.w.login(user="u", db="db")
            p = wire.com_query(sql, c.caps)
            calls[:] = [0, COST_CALLS]
            _mon.set_events(_TOOL, _mon.events.PY_START)
            signal.setitimer(signal.ITIMER_VIRTUAL, COST_CPU)
            try:
                c.send(p)
                rig.w.run()
            except Hang as e:
                raise Violation("%.200s: the event loop is blocked (%s)" % (sql, e))
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                _mon.set_events(_TOOL, 0)
                calls[1] = 1 << 60
            ctx.sample(dict(shape=case["shape"], calls=calls[0]))
            ctx.outcome((case["shape"], read_answer(rig, c, p, case["shape"], False, 0, ctx)))
            in_step(rig, c, case["shape"])
            rig.others("cost")
            rig.finish(c, "cost")
            ctx.transition()
        finally:
            signal.signal(signal.SIGVTALRM, old)
            _mon.register_callback(_TOOL, _mon.events.PY_START, None)


def k_flood(case, ctx):
    """Very many malformed packets at once: other connections are served in between."""
    with Rig(ctx) as rig:
        c, stmts, ids, long = ready(rig, "full", "stmt")
        one = [wire.frame(b"\x7f"), wire.frame(wire.com_fetch(99, 1)), wire.frame(wire.com_execute(ids[2], (), 0, num_params=0)),
               wire.frame(wire.com_query(b"", c.caps))][case["kind"]]
        k = 250_000 // len(one)
        done = [0]
        for tr, key in ((c.t, 0),):
            start = len(tr.out)
        c.feed(one * k)
        rig.witness.send(wire.COM_PING)
        at = len(rig.witness.t.out)
        iterations = 0
        while len(rig.witness.t.out) == at:
            check(rig.guarded(10_000_000, rig.w.loop.iteration), "the witness is not served")
            iterations += 1
        served = len(c.packets())
        ctx.sample(dict(flood=case["kind"], packets=k, served_before_witness=served, iterations=iterations))
        ctx.outcome(("flood", case["kind"], served > 100))
        rig.witness.read("ok")
        check(served <= FLOOD_LIMIT, "%d commands of one connection were processed before another connection's", served)
        rig.run(one.__len__() * k)
        rig.others("flood")
        rig.finish(c, "flood")


FLOOD_LIMIT = 1000      # commands (tens of milliseconds)
