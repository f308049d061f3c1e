"""C15: text crosses the wire in the negotiated character sets without corruption."""
import itertools

from harness import wire
from harness.world import World, RecBase, RecSession, check

from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.auth import IdentityProvider, User
from mysql_mimic.charset import CharacterSet
from mysql_mimic.errors import MysqlError
from mysql_mimic.types import ColumnType

ID = "C15"
LEVEL = "model_checking"
GC_EVERY = 20
RULE = ("one execution = (character set or history of switches, channel, part of the repertoire); the application must get exactly the characters the client "
        "encoded, and the reference client, decoding with its own codec table, exactly the ones of the application")
BOUNDS = {
    "quick": "the repertoire of each of 34 character sets (Unicode ones: BMP and the ends of each plane) x 15 channels; every collation id by handshake and by COM_CHANGE_USER; "
             "all histories of <=3 switches over 18",
    "thorough": "the full repertoires (all of Unicode); histories of <=4 switches over 18",
}
ASSUMPTIONS = ["Python's codecs define the repertoires; for latin1 (cp1252 in MySQL) U+0080-U+009F and the characters only cp1252 has are left out",
               "strings whose encoding contains a NUL byte can't be sent in NUL-terminated fields; utf16, utf16le, utf32 and ucs2 can't be declared in the handshake or COM_CHANGE_USER "
               "(the plugin name would have to be encoded in them)",
               "the strings of a COM_CHANGE_USER packet are encoded in the character set in effect before it (`applies from the next command on`)"]
F = wire.FULL_CAPS
# MySQL character set -> Python codec, independent of the one of the library
CODEC = {"big5": "big5", "cp850": "cp850", "hp8": "hp_roman8", "koi8r": "koi8_r", "latin1": "iso8859_1", "latin2": "iso8859_2", "ascii": "ascii", "ujis": "euc_jp",
         "sjis": "shift_jis", "hebrew": "iso8859_8", "tis620": "tis_620", "euckr": "euc_kr", "koi8u": "koi8_u", "gb2312": "gb2312", "greek": "iso8859_7",
         "cp1250": "cp1250", "gbk": "gbk", "latin5": "iso8859_9", "utf8": "utf_8", "ucs2": "utf_16_be", "cp866": "cp866", "macce": "mac_latin2", "macroman": "mac_roman",
         "cp852": "cp852", "latin7": "iso8859_13", "cp1251": "cp1251", "utf16": "utf_16_be", "utf16le": "utf_16_le", "cp1256": "cp1256", "cp1257": "cp1257",
         "utf32": "utf_32_be", "cp932": "cp932", "gb18030": "gb18030", "utf8mb4": "utf_8"}
WIDE = ("ucs2", "utf16", "utf16le", "utf32")
NOCODEC = ("dec8", "swe7", "armscii8", "keybcs2", "geostd8", "eucjpms", "binary")
# collation ids of MySQL
IDS = {"big5": [1, 84], "latin2": [2, 9, 21, 27, 77], "cp850": [4, 80], "latin1": [5, 8, 15, 31, 47, 48, 49, 94], "hp8": [6, 72], "koi8r": [7, 74], "ascii": [11, 65],
       "ujis": [12, 91], "sjis": [13, 88], "cp1251": [14, 23, 50, 51, 52], "hebrew": [16, 71], "tis620": [18, 89], "euckr": [19, 85], "latin7": [20, 41, 42, 79],
       "koi8u": [22, 75], "gb2312": [24, 86], "greek": [25, 70], "cp1250": [26, 34, 44, 66, 99], "gbk": [28, 87], "cp1257": [29, 58, 59], "latin5": [30, 78],
       "utf8": [33, 83, 223] + list(range(192, 216)), "ucs2": [35, 90] + list(range(128, 152)) + [159], "cp866": [36, 68], "macce": [38, 43], "macroman": [39, 53],
       "cp852": [40, 81], "utf8mb4": [45, 46, 255] + list(range(224, 248)), "utf16": [54, 55] + list(range(101, 125)), "utf16le": [56, 62], "cp1256": [57, 67],
       "utf32": [60, 61] + list(range(160, 184)), "cp932": [95, 96], "gb18030": [248, 249, 250]}
OTHER_IDS = {"dec8": [3, 69], "swe7": [10, 82], "armscii8": [32, 64], "keybcs2": [37, 73], "binary": [63], "geostd8": [92, 93], "eucjpms": [97, 98]}
CHANNELS = ["sql", "attr", "attrname", "prepsql", "param", "longdata", "initdb", "changeuser", "fieldlist", "login", "celltext", "cellbin", "colname", "error", "fieldname", "execattr",
            "inferred"]
CHUNK = 4096
_rep = {}


def repertoire(cs, full):
    """All characters of the character set, in chunks."""
    key = cs, full
    if key not in _rep:
        codec = CODEC[cs]
        if cs in ("utf8mb4", "utf16", "utf16le", "utf32", "gb18030") and full:
            top = 0x110000
        elif cs in ("utf8mb4", "utf16", "utf16le", "utf32", "gb18030"):
            top = 0x10000
        else:
            top = 0x10000
        out = []
        for cp in range(1, top):
            if 0xD800 <= cp < 0xE000 or cs == "latin1" and 0x80 <= cp < 0xA0:
                continue
            c = chr(cp)
            try:
                if c.encode(codec).decode(codec) == c:
                    out.append(c)
            except UnicodeError:
                pass
        if top == 0x10000 and cs in ("utf8mb4", "utf16", "utf16le", "utf32", "gb18030"):
            for plane in range(1, 17):
                out += [chr(plane * 0x10000 + x) for x in list(range(64)) + list(range(0xF600, 0xF640)) + list(range(0xFFC0, 0x10000))]
        text = "".join(out)
        _rep[key] = [text[i:i + CHUNK] for i in range(0, len(text), CHUNK)]
    return _rep[key]


class IP(IdentityProvider):
    def __init__(self):
        self.users = []

    def get_plugins(self):
        from mysql_mimic.auth import NoLoginAuthPlugin, NativePasswordAuthPlugin
        return [NativePasswordAuthPlugin()]

    async def get_user(self, username):
        self.users.append(username)
        return User(name=username, auth_string="", auth_plugin="mysql_native_password")


class App:
    def __init__(self):
        self.result = None
        self.got = []

    def query(self, s, e, sql, attrs):
        self.got.append((sql, dict(attrs)))
        r = self.result
        if isinstance(r, Exception):
            raise r
        if callable(r):
            return r()
        return r


def decode(b, cs):
    return bytes(b).decode(CODEC[cs])


def maybe(b, cs):
    try:
        return decode(b, cs)
    except Exception:
        return None


def charset_of(col):
    for cs, ids in IDS.items():
        if col.charset in ids:
            return cs
    check(False, "column %s has the unknown character set %s", col, col.charset)


class Chan:
    """The channels of one connection; client and results are the character sets in effect."""

    def __init__(self, ctx, world, client, results, conn):
        self.ctx, self.w, self.app, self.c = ctx, world, world.app, conn
        self.client, self.results = client, results

    def enc(self, s):
        return s.encode(CODEC[self.client])

    def same(self, got, want, what):
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            check(False, "%s (client %s, results %s): %r... arrived as %r... (position %d of %d/%d)", what, self.client, self.results, want[i:i + 8], got[i:i + 8], i, len(want), len(got))
        self.ctx.transition()

    def ok(self, r, kind, what):
        check(r.kind == kind, "%s (client %s, results %s): %s", what, self.client, self.results, r)
        return r

    def last(self):
        check(len(self.app.got) == 1, "the application got %d statements", len(self.app.got))
        return self.app.got.pop()

    def cmd(self, payload, kind=None):
        self.app.got.clear()
        return self.c.cmd(payload, kind)

    def sql(self, s):
        text = "SELECT '" + s + "' FROM t"
        self.app.result = None
        self.ok(self.cmd(wire.com_query(self.enc(text), self.c.caps)), "ok", "COM_QUERY")
        self.same(self.last()[0], text, "COM_QUERY")

    def attr(self, s):
        self.app.result = None
        self.ok(self.cmd(wire.com_query(self.enc("q"), self.c.caps, [(self.enc("n"), "VAR_STRING", False, self.enc(s)), (self.enc("m"), "STRING", False, self.enc("x" + s))])), "ok", "attribute")
        sql, attrs = self.last()
        check(sql == "q" and set(attrs) == {"n", "m"}, "attributes: %r %r", sql, list(attrs))
        self.same(attrs["n"], s, "attribute value")
        self.same(attrs["m"], "x" + s, "attribute value")

    def attrname(self, s):
        self.app.result = None
        self.ok(self.cmd(wire.com_query(self.enc("q"), self.c.caps, [(self.enc(s), "VAR_STRING", False, self.enc("v"))])), "ok", "attribute")
        sql, attrs = self.last()
        check(sql == "q" and list(attrs.values()) == ["v"], "attributes: %r %r", sql, attrs)
        self.same(list(attrs)[0], s, "attribute name")

    def execute(self, sid, params=(), attrs=()):
        r = self.cmd(wire.com_execute(sid, params, self.c.caps, attrs=attrs))
        return r

    def execattr(self, s):
        self.app.result = None
        p = self.ok(self.cmd(wire.com_prepare(self.enc("q"))), "prepare", "COM_STMT_PREPARE")
        self.ok(self.execute(p.stmt_id, (), [(self.enc(s), "VAR_STRING", False, self.enc(s))]), "ok", "COM_STMT_EXECUTE")
        sql, attrs = self.last()
        self.same(list(attrs)[0], s, "attribute name of COM_STMT_EXECUTE")
        self.same(attrs[s], s, "attribute value of COM_STMT_EXECUTE")
        self.c.silent(wire.com_close(p.stmt_id))

    def prepsql(self, s):
        text = "SELECT '" + s.replace("'", "").replace('"', "").replace("\\", "") + "' FROM t WHERE a = ?"
        self.app.result = None
        p = self.ok(self.cmd(wire.com_prepare(self.enc(text))), "prepare", "COM_STMT_PREPARE")
        check(p.num_params == 1, "COM_STMT_PREPARE: %d parameters", p.num_params)
        self.ok(self.execute(p.stmt_id, [(self.enc(""), "LONGLONG", False, 5)]), "ok", "COM_STMT_EXECUTE")
        self.same(self.last()[0], text[:-1] + "5", "COM_STMT_PREPARE")
        self.c.silent(wire.com_close(p.stmt_id))

    def literal(self, sql, what):
        check(sql.startswith("a ") and sql.endswith(" b"), "%s: the application got %r", what, sql[:20] + sql[-20:])
        lit = sql[2:-2]
        check(lit[0] == "'" == lit[-1], "%s: the application got the literal %r", what, lit[:20])
        out, i, body = [], 0, lit[1:-1]
        while i < len(body):
            if body[i] == "'":
                check(body[i + 1:i + 2] == "'", "%s: quote in %r", what, body[:20])
                i += 1
            elif body[i] == "\\":
                i += 1
                out.append({"n": "\n", "t": "\t", "r": "\r", "0": "\0", "b": "\b", "Z": "\x1a"}.get(body[i], body[i]))
                i += 1
                continue
            out.append(body[i])
            i += 1
        return "".join(out)

    def param(self, s):
        self.app.result = None
        p = self.ok(self.cmd(wire.com_prepare(self.enc("a ? b"))), "prepare", "COM_STMT_PREPARE")
        for ty in ("VAR_STRING", "STRING", "VARCHAR", "BLOB"):
            self.ok(self.execute(p.stmt_id, [(self.enc(""), ty, False, self.enc(s))]), "ok", "COM_STMT_EXECUTE")
            self.same(self.literal(self.last()[0], "parameter"), s, "parameter (%s)" % ty)
        self.c.silent(wire.com_close(p.stmt_id))

    def longdata(self, s):
        self.app.result = None
        p = self.ok(self.cmd(wire.com_prepare(self.enc("a ? b"))), "prepare", "COM_STMT_PREPARE")
        b = self.enc(s)
        n = max(1, len(b) // 3 | 1)      # pieces end inside characters
        for i in range(0, len(b), n):
            self.c.silent(wire.com_long_data(p.stmt_id, 0, b[i:i + n]))
        self.ok(self.execute(p.stmt_id, [(self.enc(""), "VAR_STRING", False, Ellipsis)]), "ok", "COM_STMT_EXECUTE")
        self.same(self.literal(self.last()[0], "long data"), s, "long data")
        self.c.silent(wire.com_close(p.stmt_id))

    def uses(self):
        return [e for e in self.w.log if e[1] == "use"]

    def initdb(self, s):
        self.ok(self.cmd(wire.com_init_db(self.enc(s))), "ok", "COM_INIT_DB")
        self.same(self.uses()[-1][2], s, "COM_INIT_DB")

    def nul_free(self, s):
        if self.client in WIDE:
            return "".join(c for c in s if 0 not in self.enc(c))
        return s

    def changeuser(self, s, cid=None):
        if self.client in WIDE:
            return
        n = len(self.w.ip.users)
        r = self.c.change_user(user=s, db=s, charset=cid or IDS[self.client][0], codec=CODEC[self.client])
        check(isinstance(r, wire.OK), "COM_CHANGE_USER (%s): %s", self.client, r)
        self.same(self.w.ip.users[n], s, "user of COM_CHANGE_USER")
        self.same(self.w.sessions[-1].database, s, "database of COM_CHANGE_USER")

    def login(self, s):
        if self.client in WIDE:
            return
        n = len(self.w.ip.users)
        for cid in IDS[self.client][:1]:
            c = self.w.connect()
            r = c.login(user=s, db=s, charset=cid, codec=CODEC[self.client], caps=F)
            check(isinstance(r, wire.OK), "login (%s): %s", self.client, r)
            self.same(self.w.ip.users[-1], s, "user of the handshake")
            self.same(self.w.sessions[-1].database, s, "database of the handshake")
            c.eof()
            self.w.run()
            self.w.sessions.pop()

    def fieldlist(self, s):
        s = self.nul_free(s).replace("`", "")
        if not s:
            return
        self.app.result = ([("f", "t", "YES", "", None, "")], ["Field", "Type", "Null", "Key", "Default", "Extra"])
        r = self.ok(self.cmd(wire.com_field_list(self.enc(s))), "fields", "COM_FIELD_LIST")
        sql = self.last()[0]
        check(s in sql, "COM_FIELD_LIST (%s): the table %r... isn't in %r...", self.client, s[:10], sql[:40])
        if self.results_of(s) == s:
            self.names(r.cols[0], "f", "COM_FIELD_LIST", s)
        self.ctx.transition()

    def results_of(self, s):
        """The part of s the results character set has."""
        if self.results == self.client:
            return s
        out = []
        for c in s:
            try:
                if c.encode(CODEC[self.results]).decode(CODEC[self.results]) == c and not (self.results == "latin1" and "\x80" <= c < "\xa0"):
                    out.append(c)
            except UnicodeError:
                pass
        return "".join(out)

    def fieldname(self, s):
        s = self.results_of(s)
        self.app.result = ([(s, "t", "YES", "", s, ""), ("x", "t", "YES", "", None, "")], ["Field", "Type", "Null", "Key", "Default", "Extra"])
        r = self.ok(self.cmd(wire.com_field_list(self.enc("t") if self.client not in WIDE else self.enc("ā"))), "fields", "COM_FIELD_LIST")
        check(len(r.cols) == 2, "COM_FIELD_LIST: %d fields", len(r.cols))
        self.same(decode(r.cols[0].name, self.results), s, "field name")
        self.names(r.cols[0], s, "field name")
        d = r.cols[0].default
        if d:
            check(s in (maybe(d, self.results), maybe(d, charset_of(r.cols[0]))), "the default %r of a field arrives as %r (results %s)", s[:20], d[:60], self.results)
        self.app.got.clear()

    def names(self, col, name, what, table=None):
        """The other names of the column packet"""
        if col.org_name:
            self.same(decode(col.org_name, self.results), name, "original name after " + what)
        for x in (col.schema, col.table, col.org_table):
            t = maybe(x, self.results)
            check(t is not None and (table is None or t in ("", table)), "%s: a name of the column packet is %r, not %r in %s", what, bytes(x)[:60], table, self.results)

    def celltext(self, s, binary=False, cs=None):
        css = [cs] if cs else [self.client]
        for cs in css:
            cols = [ResultColumn("c", ty, CharacterSet[cs]) for ty in STRTYPES]
            self.app.result = lambda: ResultSet([[s] * len(cols)], cols)
            if binary:
                p = self.ok(self.cmd(wire.com_prepare(self.enc("q"))), "prepare", "COM_STMT_PREPARE")
                r = self.execute(p.stmt_id)
                self.c.silent(wire.com_close(p.stmt_id))
            else:
                r = self.cmd(wire.com_query(self.enc("q"), self.c.caps))
            self.ok(r, "rows", "result in %s" % cs)
            self.app.got.clear()
            for col, v, ty in zip(r.cols, r.rows[0], STRTYPES):
                check(charset_of(col) == cs, "the %s column in %s is declared as %s", ty.name, cs, charset_of(col))
                self.same(decode(v, cs), s, "%s cell in %s" % (ty.name, cs))

    def cellbin(self, s):
        self.celltext(s, True)

    def inferred(self, s):
        for kind in ("query", "execute"):
            self.app.result = lambda: ([(s, None), (None, s)], ["a", "b"])
            if kind == "execute":
                p = self.ok(self.cmd(wire.com_prepare(self.enc("q"))), "prepare", "COM_STMT_PREPARE")
                r = self.execute(p.stmt_id)
                self.c.silent(wire.com_close(p.stmt_id))
            else:
                r = self.cmd(wire.com_query(self.enc("q"), self.c.caps))
            self.ok(r, "rows", "inferred result")
            self.app.got.clear()
            for j in (0, 1):
                self.same(decode(r.rows[j][j], charset_of(r.cols[j])), s, "cell")

    def colname(self, s):
        s = self.results_of(s)
        for kind in ("query", "execute", "typed"):
            self.app.result = lambda: ResultSet([[1]], [ResultColumn(s, ColumnType.LONGLONG)]) if kind == "typed" else ([(1,)], [s])
            if kind == "execute":
                p = self.ok(self.cmd(wire.com_prepare(self.enc("q"))), "prepare", "COM_STMT_PREPARE")
                r = self.execute(p.stmt_id)
                self.c.silent(wire.com_close(p.stmt_id))
            else:
                r = self.cmd(wire.com_query(self.enc("q"), self.c.caps))
            self.ok(r, "rows", "column name")
            self.app.got.clear()
            self.same(decode(r.cols[0].name, self.results), s, "column name")
            self.names(r.cols[0], s, "column name")

    def error(self, s):
        s = self.results_of(s)
        for exc in (MysqlError(s, code=1234), ValueError(s)):
            self.app.result = exc
            r = self.ok(self.cmd(wire.com_query(self.enc("q"), self.c.caps)), "err", "error")
            self.same(decode(r.err.msg, self.results), s, "error message")
        self.app.got.clear()


STRTYPES = [ColumnType.VARCHAR, ColumnType.VAR_STRING, ColumnType.STRING, ColumnType.BLOB, ColumnType.TINY_BLOB, ColumnType.MEDIUM_BLOB, ColumnType.LONG_BLOB,
            ColumnType.ENUM, ColumnType.SET, ColumnType.JSON]


def world(cls=RecBase):
    ip = IP()
    w = World(session=cls, app=App(), identity_provider=ip)
    w.ip = ip
    return w


def connect(w, cs):
    """A connection whose client and results character sets are cs"""
    c = w.login(caps=F, charset=IDS[cs][0] if cs not in WIDE else 255)
    s = w.sessions[-1]
    for v in ("character_set_client", "character_set_results", "character_set_connection"):
        s.variables.set(v, cs)
    return c


# ---- histories of switches ---------------------------------------------------------------------------
SWITCH = [("names", "latin1"), ("names", "utf8mb4"), ("names", "sjis"), ("names", "utf16"), ("names", "cp1251"), ("names", "gbk"), ("charset", "latin1"), ("charset", "big5"),
          ("client", "koi8r"), ("client", "utf8"), ("results", "sjis"), ("results", "ascii"), ("results", "utf32"), ("change", "latin1"), ("change", "sjis"), ("change", "utf8mb4"),
          ("bogus", None), ("default", None)]
PROBE = {"latin1": "éÿ§", "utf8mb4": "é😀ソ", "utf8": "éソа", "sjis": "ソ表~ァ", "utf16": "é😀ソ", "cp1251": "Яы№", "gbk": "啊縗俓", "big5": "功許蓋", "koi8r": "Яыё─", "ascii": "az~", "utf32": "é😀",
         "ucs2": "éソ"}


def cases(tier):
    th = tier == "thorough"
    out = []
    for cs in CODEC:
        for ch in CHANNELS:
            out.append(dict(k="rep", cs=cs, ch=ch, full=th))
        out.append(dict(k="bytes", cs=cs))
    for cs in list(CODEC) + list(OTHER_IDS):
        out.append(dict(k="ids", cs=cs))
    for cs in CODEC:
        out.append(dict(k="select", cs=cs))
    for n in range(1, 5 if th else 4):
        for first in itertools.product(range(len(SWITCH)), repeat=max(0, n - 1) if n < 4 else 2):
            out.append(dict(k="switch", n=n, first=list(first)))
    for cs in ("utf8mb4", "latin1", "sjis") + (("utf16", "gbk", "koi8r") if th else ()):
        for ch in CHANNELS:
            sizes = [17, 31, 33, 64, 65, 81, 129, 193, 255, 257, 511, 513, 767, 1025, 4097, 20000, 66000]
            if ch in ("sql", "attr", "param", "longdata", "prepsql", "celltext", "cellbin", "execattr", "inferred"):
                sizes += [140000, 2**20 + 3] + ([2**22 + 1, 2**24 + 9] if th else [])
            out.append(dict(k="long", cs=cs, ch=ch, sizes=sizes))
    out.append(dict(k="unencodable"))
    out.append(dict(k="cross"))
    return out


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


def k_rep(case, ctx):
    cs, ch = case["cs"], case["ch"]
    w = world()
    try:
        c = connect(w, cs)
        chan = Chan(ctx, w, cs, cs, c)
        chunks = repertoire(cs, case["full"])
        for i, s in enumerate(chunks):
            getattr(chan, ch)(s)
            ctx.state((cs, ch, i))
            w.log.clear()
        # each character of the ends of the repertoire alone, and the empty string
        small = chunks[0][:140] + chunks[-1][-20:] if not case["full"] else "".join(chunks)[:1200]
        for s in small:
            if ch not in ("changeuser", "login") or s >= " ":
                getattr(chan, ch)(s)
            w.log.clear()
        ctx.outcome((cs, ch, len(chunks)))
        ctx.trace()
    finally:
        w.close()


def k_long(case, ctx):
    """Long strings arrive whole."""
    cs, ch = case["cs"], case["ch"]
    w = world()
    try:
        c = connect(w, cs)
        chan = Chan(ctx, w, cs, cs, c)
        for n in case["sizes"]:
            unit = PROBE[cs].replace("'", "")
            s = "".join(unit + "%x" % i for i in range(n // len(unit) + 1))[:n]
            getattr(chan, ch)(s)
            ctx.state((cs, ch, n))
            w.log.clear()
        ctx.outcome((cs, ch))
        ctx.trace()
    finally:
        w.close()


def k_bytes(case, ctx):
    """Results that are bytes aren't transcoded; every code unit boundary of params split over long data."""
    cs = case["cs"]
    w = world()
    try:
        c = connect(w, cs)
        chan = Chan(ctx, w, cs, cs, c)
        raw = bytes(range(256))
        w.app.result = lambda: ResultSet([[raw]], [ResultColumn("c", ColumnType.BLOB, CharacterSet[cs])])
        r = chan.ok(chan.cmd(wire.com_query(chan.enc("q"), c.caps)), "rows", "bytes")
        check(bytes(r.rows[0][0]) == raw, "bytes in a %s column arrived as %r", cs, r.rows[0][0])
        w.app.got.clear()
        s = repertoire(cs, False)[-1][-3:]
        p = chan.ok(chan.cmd(wire.com_prepare(chan.enc("a ? b"))), "prepare", "prepare")
        b = chan.enc(s)
        for cut in range(len(b) + 1):
            for cut2 in range(cut, len(b) + 1):
                for piece in (b[:cut], b[cut:cut2], b[cut2:]):
                    c.silent(wire.com_long_data(p.stmt_id, 0, piece))
                w.app.result = None
                chan.ok(chan.execute(p.stmt_id, [(b"", "VAR_STRING", False, Ellipsis)]), "ok", "execute")
                chan.same(chan.literal(chan.last()[0], "long data"), s, "long data")
                ctx.state((cs, cut, cut2))
        ctx.trace()
    finally:
        w.close()


def k_ids(case, ctx):
    """Every collation id of the handshake and of COM_CHANGE_USER selects its character set."""
    cs = case["cs"]
    for how in ("login", "change"):
        for cid in IDS.get(cs) or OTHER_IDS[cs]:
            w = world()
            try:
                c = w.connect()
                c.handshake()
                if how == "login":
                    try:
                        r = c.login(charset=cid, caps=F)
                    except wire.ProtocolViolation:
                        # a refusal that looks like one of before the capabilities were negotiated
                        check(cs in OTHER_IDS or cs in WIDE, "the answer to a login with collation %d (%s) is malformed", cid, cs)
                        continue
                else:
                    r = c.login(charset=255, caps=F)
                    check(isinstance(r, wire.OK), "login: %s", r)
                    if cs in WIDE:
                        continue
                    r = c.change_user(charset=cid)
                ctx.outcome((cs, how, type(r).__name__))
                if cs in OTHER_IDS or cs in WIDE:
                    if isinstance(r, wire.OK):
                        r = c.query("SELECT 1")
                        check(r.kind in ("ok", "rows"), "after %s with collation %d (%s): %s", how, cid, cs, r)
                    continue
                check(isinstance(r, wire.OK), "%s with collation %d (%s): %s", how, cid, cs, r)
                chan = Chan(ctx, w, cs, "utf8mb4", c)
                s = repertoire(cs, False)[0][-60:]
                for ch in ("sql", "attr", "attrname", "prepsql", "param", "initdb", "fieldlist", "longdata", "execattr"):
                    getattr(chan, ch)(s)
                    ctx.state((how, cid, ch))
                if cid < 256:
                    got = w.sessions[-1].variables.get("character_set_client")
                    check(got in (cs, "utf8mb3" if cs == "utf8" else cs), "character_set_client is %r after %s with collation %d (%s)", got, how, cid, cs)
                chan.changeuser(s, cid)
                chan.sql(s)
            finally:
                w.close()
    ctx.trace()


def k_select(case, ctx):
    """The character set is selected by statements, in every spelling, on the SQL layer."""
    cs = case["cs"]
    for sql, names in (("SET NAMES %s", True), ("SET NAMES '%s'", True), ("SET CHARACTER SET %s", True), ("SET CHARSET '%s'", True), ("SET character_set_client = '%s'", False),
                       ("SET @@session.character_set_client = '%s', character_set_results = '%s'", True), ("SET NAMES '%s' COLLATE 'utf8mb4_bin'", True), ("set names %s", True)):
        w = world(RecSession)
        try:
            c = w.login(caps=F)
            w.app.result = lambda: ([(1,)], ["a"])
            r = c.query(sql.replace("%s", cs))
            check(r.kind == "ok", "%r: %s", sql.replace("%s", cs), r)
            s = "".join(x for x in repertoire(cs, False)[0][-40:] if x not in "'\"\\`\x7f" and x.isprintable())
            probe(ctx, w, c, cs, cs if names else "utf8mb4", s, "after %r" % sql.replace("%s", cs))
            ctx.state((cs, sql))
        finally:
            w.close()
    ctx.trace()


def probe(ctx, w, c, client, results, s, where, few=False):
    """All channels on the SQL layer, in the character sets client and results (a str, or a list of candidates)."""
    app = w.app
    e = CODEC[client]
    ctx.transition()
    rs = "".join(x for x in s if ok_in(x, results)) + "z"

    def res(b, want, what):
        try:
            got = bytes(b).decode(CODEC[results])
        except UnicodeError:
            got = bytes(b)
        check(got == want, "%s: %s %r (client %s, results %s) arrived as %r", where, what, want, client, results, got)

    app.got.clear()
    app.result = lambda: ([(s,)], [rs])
    text = "SELECT '%s' AS a FROM t" % s
    r = c.cmd(wire.com_query(text.encode(e), c.caps, [("ä".encode(e) if ok_in("ä", client) else "n".encode(e), "VAR_STRING", False, s.encode(e))]))
    check(r.kind == "rows", "%s: %r (client %s, results %s): %s", where, text, client, results, r)
    check(app.got and app.got[0] == (text, {"ä" if ok_in("ä", client) else "n": s}), "%s: %r (client %s) reached the application as %r", where, text, client, app.got)
    res(r.cols[0].name, rs, "column name")
    if r.cols[0].org_name:
        res(r.cols[0].org_name, rs, "original column name")
    check(bytes(r.rows[0][0]).decode(CODEC[charset_of(r.cols[0])]) == s, "%s: cell %r arrived as %r", where, s, r.rows[0][0])
    # static query: column name from the text
    app.result = MysqlError("e" + rs, code=1234)
    r = c.cmd(wire.com_query(text.encode(e), c.caps))
    check(r.kind == "err" and r.err.code == 1234, "%s: error: %s", where, r)
    res(r.err.msg, "e" + rs, "error message")
    if few:
        return
    r = c.cmd(wire.com_query(("SELECT '%s' AS a" % s).encode(e), c.caps))
    check(r.kind == "rows" and r.rows and bytes(r.rows[0][0]).decode(CODEC[charset_of(r.cols[0])]) == s, "%s: SELECT '%s' (client %s): %s", where, s, client, r)
    app.got.clear()
    app.result = lambda: ([(s,)], [rs])
    p = c.cmd(wire.com_prepare("SELECT ? FROM t".encode(e)))
    check(p.kind == "prepare", "%s: prepare: %s", where, p)
    r = c.cmd(wire.com_execute(p.stmt_id, [(b"", "VAR_STRING", False, s.encode(e))], c.caps))
    check(r.kind == "rows", "%s: execute: %s", where, r)
    check(app.got[0][0] in ("SELECT '%s' FROM t" % s, "SELECT '%s' FROM t" % s.replace("\\", "\\\\")), "%s: the application got %r", where, app.got)
    check(bytes(r.rows[0][0]).decode(CODEC[charset_of(r.cols[0])]) == s, "%s: cell %r arrived as %r", where, s, r.rows[0][0])
    res(r.cols[0].name, rs, "column name")
    c.silent(wire.com_close(p.stmt_id))
    r = c.cmd(wire.com_init_db(s.encode(e)))
    check(r.kind == "ok" and w.sessions[-1].database == s, "%s: COM_INIT_DB %r selected %r", where, s, w.sessions[-1].database)
    r = c.cmd(wire.com_query("SELECT DATABASE()".encode(e), c.caps))
    check(r.kind == "rows" and r.rows and bytes(r.rows[0][0]).decode(CODEC[charset_of(r.cols[0])]) == s, "%s: SELECT DATABASE(): %s", where, r)
    if ok_in("`", client) and client not in ("utf32",):
        r = c.cmd(wire.com_query(("SELECT 1 AS `%s`" % rs).encode(e, "replace"), c.caps)) if all(ok_in(x, client) for x in rs) else None
        if r is not None:
            check(r.kind == "rows", "%s: SELECT 1 AS `%s`: %s", where, rs, r)
            res(r.cols[0].name, rs, "alias")


_okc = {}


def ok_in(x, cs):
    k = x, cs
    if k not in _okc:
        try:
            _okc[k] = x.encode(CODEC[cs]).decode(CODEC[cs]) == x and not (cs == "latin1" and "\x80" <= x < "\xa0")
        except UnicodeError:
            _okc[k] = False
    return _okc[k]


def k_switch(case, ctx):
    n, first = case["n"], case["first"]
    for rest in itertools.product(range(len(SWITCH)), repeat=n - len(first)):
        idx = tuple(first) + rest
        w = world(RecSession)
        try:
            c = w.login(caps=F)
            client = results = "utf8mb4"
            # a statement prepared before the switches keeps its text
            p = c.cmd(wire.com_prepare("SELECT 'éソ', ? FROM t".encode()))
            check(p.kind == "prepare", "prepare: %s", p)
            hist = []
            for j, i in enumerate(idx):
                kind, cs = SWITCH[i]
                hist.append(SWITCH[i])
                e = CODEC[client]
                w.app.result = lambda: ([(1,)], ["a"])

                def run(sql):
                    r = c.cmd(wire.com_query(sql.encode(e), c.caps))
                    check(r.kind == "ok", "after %s: %r answered with %s", hist, sql, r)
                if kind == "names":
                    run("SET NAMES %s" % cs)
                    client = results = cs
                elif kind == "charset":
                    run("SET CHARACTER SET '%s'" % cs)
                    client = results = cs
                elif kind == "client":
                    run("SET character_set_client = '%s'" % cs)
                    client = cs
                elif kind == "results":
                    run("SET SESSION character_set_results = '%s'" % cs)
                    results = cs
                elif kind == "default":
                    run("SET NAMES DEFAULT")
                    client = results = "utf8mb4"
                elif kind == "bogus":
                    r = c.cmd(wire.com_query("SET NAMES bogus".encode(e), c.caps))
                    check(r.kind == "err", "after %s: SET NAMES bogus answered with %s", hist, r)
                elif kind == "change":
                    if client in WIDE or results in WIDE:
                        # user names would end at the NUL bytes
                        continue
                    r = c.change_user(user="u", charset=IDS[cs][0])
                    check(isinstance(r, wire.OK), "after %s: COM_CHANGE_USER: %s", hist, r)
                    client = cs
                    p = None
                    e = CODEC[client]
                    r = c.cmd(wire.com_query("SELECT @@character_set_results".encode(e), c.caps))
                    check(r.kind == "rows", "%s", r)
                    now = r.rows[0][0].decode()
                    check(now in (results, cs), "after %s: character_set_results is %s", hist, now)
                    results = now
                if j < n - 1 and ((sum(idx) + j) % 2 or n == 4):
                    continue
                s = PROBE[client]
                probe(ctx, w, c, client, results, s, "after %s" % hist, few=n == 3 and sum(idx) % 3 or n == 4 and sum(idx) % 16)
                if p is not None:
                    w.app.got.clear()
                    w.app.result = lambda: ([(1,)], ["a"])
                    r = c.cmd(wire.com_execute(p.stmt_id, [(b"", "VAR_STRING", False, s.encode(CODEC[client]))], c.caps))
                    check(r.kind == "rows" and w.app.got[0][0] in ("SELECT 'éソ', '%s' FROM t" % s, "SELECT 'éソ', '%s' FROM t" % s.replace("\\", "\\\\")),
                          "after %s: the statement prepared before reached the application as %s", hist, w.app.got)
            ctx.state(idx)
            if n < 3 or sum(idx) % (4 if n == 3 else 32) == 0:
                # other connections have their own character sets
                c2 = w.login(caps=F)
                probe(ctx, w, c2, "utf8mb4", "utf8mb4", PROBE["utf8mb4"], "other connection after %s" % hist, few=True)
        finally:
            w.close()
    ctx.trace()


def k_unencodable(case, ctx):
    """Characters the results character set lacks don't break the connection."""
    for cs in CODEC:
        for s in ("😀", "é", "ソ", "\x81", "\ud800", "a😀b"):
            if ok_in(s, cs) if s != "\ud800" else False:
                continue
            w = world()
            try:
                c = connect(w, cs)
                chan = Chan(ctx, w, cs, cs, c)
                w.app.result = MysqlError("x" + s, code=1234)
                r = chan.cmd(wire.com_query(chan.enc("q"), c.caps))
                check(r.kind == "err" and r.err.code == 1234, "an error with %r in %s arrived as %s", s, cs, r)
                for res in (([(1,)], [s]), ([(s,)], ["a"]), (lambda: ResultSet([[s]], [ResultColumn("a", ColumnType.VARCHAR, CharacterSet[cs])])),
                            (lambda: ResultSet([["a"], [s]], [ResultColumn("a", ColumnType.VARCHAR, CharacterSet[cs])]))):
                    w.app.result = res
                    r = chan.cmd(wire.com_query(chan.enc("q"), c.caps))
                    check(r.kind in ("rows", "err"), "%r in %s: %s", s, cs, r)
                w.app.result = None
                w.app.got.clear()
                chan.ok(chan.cmd(wire.com_query(chan.enc("q"), c.caps)), "ok", "after unencodable results")
                ctx.state((cs, s))
            finally:
                w.close()
    # bytes that aren't valid in the client character set: an error, and the connection goes on
    for cs in ("utf8mb4", "ascii", "sjis", "gbk", "big5", "euckr", "utf16", "utf32", "gb18030"):
        w = world()
        try:
            c = connect(w, cs)
            chan = Chan(ctx, w, cs, cs, c)
            for bad in (b"\xff\xfe\xfd", b"\x80", b"a\xc3", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xd8\x00", b"a"):
                try:
                    bad.decode(CODEC[cs])
                    continue
                except UnicodeError:
                    pass
                for payload in (b"\x03" + (b"\0\1" if c.caps & wire.QUERY_ATTRIBUTES else b"") + bad, b"\x16" + bad, b"\x02" + bad):
                    w.app.got.clear()
                    n = len(w.log)
                    r = chan.cmd(payload)
                    check(r.kind == "err", "invalid %s bytes %r answered with %s", cs, bad, r)
                    check(not w.app.got, "invalid %s bytes %r reached the application as %r", cs, bad, w.app.got)
                chan.sql("ok")
                ctx.state((cs, bad))
        finally:
            w.close()
    ctx.trace()


def k_cross(case, ctx):
    """Cells in every column character set under every results character set."""
    w = world()
    try:
        conns = {rs: connect(w, rs) for rs in CODEC}
        for rs, c in conns.items():
            chan = Chan(ctx, w, rs, rs, c)
            for cs in CODEC:
                s = repertoire(cs, False)[-1][-30:]
                chan.celltext(s, False, cs)
                chan.celltext(s, True, cs)
                ctx.state((rs, cs))
        ctx.trace()
    finally:
        w.close()
