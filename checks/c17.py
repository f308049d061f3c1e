"""C17: query attributes reach the application exactly as sent."""
import itertools
import struct

from harness import wire
from harness.world import World, RecBase, RecSession, Violation, check

from mysql_mimic.errors import MysqlError
from mysql_mimic.types import Capabilities

ID = "C17"
LEVEL = "model_checking"
GC_EVERY = 20
RULE = ("one execution = a connection (capability negotiated or not, charset) and a sequence of COM_QUERY / COM_STMT_EXECUTE carrying "
        "attributes; every application call must receive exactly the SQL text and the mapping the client encoded (value and type), and "
        "nothing of other statements")
BOUNDS = {
    "quick": "18 value types x boundary values x signedness x {query, execute with 0..2 parameters}; all pairs of 29 and triples of 11 values; "
             "all NULL bitmaps of <=8 attributes and of <=6 parameters+attributes in every split, single and all-but-one NULLs around "
             "every byte boundary up to 65; counts 0..40, 100..110, 240..300; name/value lengths around every length-encoding boundary; "
             "all pairs of 24 names; every first byte and every pair of 9 special first bytes of the SQL with and without the capability; "
             "all histories of <=3 of 17 commands; 9 charsets",
    "thorough": "all pairs of all values; triples of 29; bitmaps of <=12; counts 0..1100 and 65534..65537; values of 2^24 bytes; histories of "
                "<=4 of 17 commands; all pairs of first bytes",
}
ASSUMPTIONS = ["of two attributes with the same name either one may be delivered",
               "types without documented support as attributes (dates, decimals) may be refused with an error"]
QA = wire.QUERY_ATTRIBUTES
F = wire.FULL_CAPS
NOQA = F & ~QA


# ---- values ------------------------------------------------------------------------------------------
STRT = ["VARCHAR", "VAR_STRING", "STRING", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB", "BLOB"]
INTT = {"TINY": 1, "SHORT": 2, "YEAR": 2, "LONG": 4, "INT24": 4, "LONGLONG": 8}
STRV = ["", "a", "0", "NULL", "it's \"q\" \\ `b` ?", "\x00", "\u00e9\u4e2d\U0001F600", "%s", "\x01\x00", " x\r\n\t "]


def int_values(t, uns):
    b = 8 * INTT[t]
    if t == "INT24":
        return ([0, 1, (1 << 23), (1 << 24) - 1] if uns else [0, 1, -1, (1 << 23) - 1, -(1 << 23)]) + ([(1 << 32) - 1] if uns else [])
    if uns:
        return [0, 1, (1 << b - 1) - 1, 1 << b - 1, (1 << b - 1) + 1, (1 << b) - 2, (1 << b) - 1] + ([256, 0x0102] if b > 8 else [0x7f])
    return [0, 1, -1, (1 << b - 1) - 1, (1 << b - 1) - 2, -(1 << b - 1), -(1 << b - 1) + 1] + ([256, -256, 0x0102] if b > 8 else [])


FLOATS = {"FLOAT": [0.0, -0.0, 1.5, -2.25, 0.1, 3.4028234663852886e38, 1.401298464324817e-45, 16777217.0],
          "DOUBLE": [0.0, -0.0, 1.5, -2.25, 0.1, 1.7976931348623157e308, 5e-324, 9007199254740993.0, -1e-300]}


def all_values():
    out = []
    for t in STRT:
        out += [(t, False, v) for v in STRV]
        out += [(t, True, "u")]
    for t in INTT:
        for uns in (False, True):
            out += [(t, uns, v) for v in int_values(t, uns)]
    out += [("BOOL", u, v) for u in (False, True) for v in (0, 1)]
    for t, vs in FLOATS.items():
        out += [(t, u, v) for v in vs for u in (False, True)]
    out += [("NULL", False, None), ("NULL", True, None)]
    for t in STRT + list(INTT) + ["BOOL", "FLOAT", "DOUBLE"]:
        out += [(t, False, None)]
    out += [(t, True, None) for t in INTT]
    return out


ALL = all_values()
REP = [("VAR_STRING", False, ""), ("VAR_STRING", False, "a"), ("STRING", False, "0"), ("BLOB", False, "\u00e9\u4e2d"), ("VARCHAR", False, "\x00\x01"),
       ("LONG_BLOB", False, "it's"), ("TINY", False, -1), ("TINY", True, 255), ("TINY", False, 127), ("TINY", True, 128), ("SHORT", False, -32768),
       ("SHORT", True, 65535), ("YEAR", True, 2155), ("YEAR", False, -1), ("LONG", False, -2147483648), ("LONG", True, 4294967295), ("INT24", True, 16777215),
       ("INT24", False, -8388608), ("LONGLONG", False, -1 << 63), ("LONGLONG", True, (1 << 64) - 1), ("LONGLONG", True, 1 << 63), ("BOOL", False, 1),
       ("FLOAT", False, 0.1), ("DOUBLE", False, 0.1), ("DOUBLE", True, -0.0), ("NULL", False, None), ("VAR_STRING", False, None),
       ("LONGLONG", True, None), ("DOUBLE", False, None)]
FEW = [0, 3, 7, 6, 11, 14, 19, 22, 23, 25, 26]


def entry(name, v, codec="utf8"):
    """(name str, (type, unsigned, value)) -> wire 4-tuple"""
    t, u, x = v
    if x is None and t == "NULL":
        return name.encode(codec), t, u, None
    return name.encode(codec), t, u, x.encode(codec) if isinstance(x, str) else x


def expect_value(v):
    t, u, x = v
    if t == "FLOAT" and x is not None:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    return x


def same(want, got):
    if want is None or got is None:
        return want is None and got is None
    if isinstance(want, float):
        return type(got) is float and struct.pack("<d", want) == struct.pack("<d", got)
    if isinstance(want, int):
        return isinstance(got, int) and want == got and (not isinstance(got, bool) or want in (0, 1))
    return type(got) is str and want == got


def same_mapping(pairs, got):
    """pairs: [(name, value spec)]"""
    want = {}
    for n, v in pairs:
        want.setdefault(n, []).append(expect_value(v))
    if not isinstance(got, dict) or set(want) != set(got):
        return False
    return all(any(same(w, got[n]) for w in want[n]) for n in want)


# ---- application and driver ------------------------------------------------------------------------------
class AppA:
    mutate = False
    fail = False
    many = False

    def __init__(self):
        self.calls = []

    def query(self, s, e, sql, attrs):
        self.calls.append((sql, dict(attrs)))
        if self.mutate:
            attrs["leak"] = "mutated"
            for k in list(attrs):
                attrs[k] = "leak"
        if self.fail:
            raise MysqlError("boom", code=1234)
        return ([("x",), ("y",)], ["m"]) if self.many else ([("x",)], ["m"])


class Sys:
    def __init__(self, session=RecBase, charset=255, caps=F, extra=0, codec="utf8", **kw):
        self.app = AppA()
        self.codec = codec
        self.w = World(session=session, app=self.app, **kw)
        self.c = self.client(caps, charset, extra)

    def client(self, caps=F, charset=255, extra=0):
        c = self.w.connect()
        r = c.login(caps=caps, charset=charset, extra_caps=extra, codec=self.codec)
        check(isinstance(r, wire.OK), "login failed: %s", r)
        return c

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.w.close()

    def seen(self):
        out, self.app.calls = self.app.calls, []
        return out

    def expect(self, r, sql, pairs, what, kind=("rows",)):
        got = self.seen()
        show = lambda x: repr(x)[:600]                                                  # noqa: E731
        check(r.kind in kind, "%s: answered with %s", what, r)
        check(len(got) == 1, "%s: the application was called %d times", what, len(got))
        check(got[0][0] == sql, "%s: the application received the SQL text %s instead of %s", what, show(got[0][0]), show(sql))
        check(same_mapping(pairs, got[0][1]), "%s: the application received the attributes %s instead of %s", what, show(got[0][1]), show(pairs))

    def query(self, sql, pairs, what=None, c=None, kind=("rows",)):
        c = c or self.c
        r = c.query(sql.encode(self.codec), [entry(n, v, self.codec) for n, v in pairs])
        self.expect(r, sql, pairs if c.caps & QA else [], what or "COM_QUERY with %r" % (pairs,), kind)

    def execute(self, st, params, pairs, sql, what=None, c=None, kind=("rows",), **kw):
        """params: [(text of the literal, value spec)]"""
        c = c or self.c
        p = [entry("", v, self.codec) for v in params]
        r = c.execute(st, p, attrs=[entry(n, v, self.codec) for n, v in pairs] if c.caps & QA else (), **kw)
        self.expect(r, sql, pairs if c.caps & QA else [], what or "COM_STMT_EXECUTE of %r with the parameters %r and the attributes %r" % (sql, params, pairs), kind)
        return r


PARAMS = [("'p'", ("VAR_STRING", False, "p")), ("-5", ("LONG", False, -5)), ("NULL", ("VAR_STRING", False, None)),
          ("18446744073709551615", ("LONGLONG", True, (1 << 64) - 1)), ("200", ("TINY", True, 200)), ("''", ("BLOB", False, ""))]


def stmt(m, off=0):
    """(template, params, expected SQL) with m parameters"""
    ps = [PARAMS[(i + off) % len(PARAMS)] for i in range(m)]
    t = "SELECT " + ", ".join(["a"] + ["?"] * m) + " FROM t"
    s = "SELECT " + ", ".join(["a"] + [x[0] for x in ps]) + " FROM t"
    return t, [x[1] for x in ps], s


class Stmts:
    """Statements prepared once per connection, by parameter count."""

    def __init__(self, sys, c=None):
        self.s, self.c, self.ids = sys, c or sys.c, {}

    def run(self, m, pairs, off=0, **kw):
        t, ps, sql = stmt(m, off)
        if m not in self.ids:
            r = self.c.prepare(t)
            check(r.kind == "prepare" and r.num_params == m, "PREPARE of %r: %s", t, r)
            self.ids[m] = r.stmt_id
        self.s.execute(self.ids[m], ps, pairs, sql, c=self.c, **kw)


# ---- kinds ----------------------------------------------------------------------------------------------
def k_vals(case, ctx):
    """Every value of ALL[lo:hi], alone."""
    with Sys() as s:
        ps = Stmts(s)
        for v in ALL[case["lo"]:case["hi"]]:
            ctx.state(("val", v))
            for name in ("k", ""):
                s.query("SELECT 1", [(name, v)])
                for m in (0, 1, 2):
                    ps.run(m, [(name, v)])
                    ctx.transition()
            s.query("SELECT 1", [])
            ctx.outcome(v)


def k_pairs(case, ctx):
    vals = ALL if case.get("all") else REP
    a = vals[case["i"]]
    with Sys() as s:
        ps = Stmts(s)
        for b in vals:
            l = [("a", a), ("b", b)]
            s.query("SELECT 1 FROM t", l)
            for m in (0, 1):
                ps.run(m, l, off=1)
            ctx.transition(3)
            ctx.outcome((a, b))


def k_triples(case, ctx):
    vals = REP if case.get("all") else [REP[i] for i in FEW]
    a = vals[case["i"]]
    with Sys() as s:
        ps = Stmts(s)
        for b, d in itertools.product(vals, repeat=2):
            l = [("a", a), ("b", b), ("c", d)]
            s.query("SELECT 1", l)
            ps.run(2, l, off=3)
            ctx.transition(2)
            ctx.outcome((a, b, d))


TYPES = [("VAR_STRING", False, "v"), ("TINY", True, 200), ("LONGLONG", False, -3), ("DOUBLE", False, 2.5), ("SHORT", True, 40000)]


def nulled(n, bits, off=0):
    out = []
    for i in range(n):
        t, u, x = TYPES[(i + off) % 5]
        out.append(("n%d" % i, (t, u, None if bits >> i & 1 else (x + str(i) if t == "VAR_STRING" else x))))
    return out


def k_null(case, ctx):
    n = case["n"]
    with Sys() as s:
        for bits in range(case["lo"], case["hi"]):
            s.query("SELECT 1", nulled(n, bits))
            ctx.transition()
            ctx.state(("null", n, bits))


def lit(v):
    t, u, x = v
    return "NULL" if x is None else "'%s'" % x if isinstance(x, str) else str(x)


def run_split(s, ids, m, k, bits):
    total = nulled(m + k, bits)
    if m not in ids:
        r = s.c.prepare("SELECT " + ", ".join(["a"] + ["?"] * m) + " FROM t")
        check(r.kind == "prepare" and r.num_params == m, "PREPARE: %s", r)
        ids[m] = r.stmt_id
    params = [v for _, v in total[:m]]
    sql = "SELECT " + ", ".join(["a"] + [lit(v) for v in params]) + " FROM t"
    s.execute(ids[m], params, total[m:], sql)


def k_split(case, ctx):
    """Parameters and attributes in one block: every split, every NULL bitmap."""
    n = case["n"]
    with Sys() as s:
        ids = {}
        for m in range(n + 1):
            for bits in range(1 << n):
                run_split(s, ids, m, n - m, bits)
                ctx.transition()
                ctx.state(("split", m, n - m, bits))


def k_edge(case, ctx):
    """One NULL / all but one NULL, around the byte boundaries of the bitmap."""
    n = case["n"]
    with Sys() as s:
        ids = {}
        full = (1 << n) - 1
        pats = [0, full] + [1 << i for i in range(n)] + [full ^ 1 << i for i in range(n)]
        for bits in pats:
            s.query("SELECT 1", nulled(n, bits))
            for m in sorted({0, 1, n // 2, min(8, n), n - 1, n}):
                run_split(s, ids, m, n - m, bits)
            ctx.transition(7)
            ctx.state(("edge", n, bits))


def k_count(case, ctx):
    with Sys() as s:
        ids = {}
        for n in range(case["lo"], case["hi"]):
            l = [("a%d" % i, TYPES[i % 5] if i % 7 else ("LONG", False, None)) for i in range(n)]
            s.query("SELECT 1", l, "COM_QUERY with %d attributes" % n)
            for m in (0, 1, 3):
                t, ps, sql = stmt(m)
                if m not in ids:
                    ids[m] = s.c.prepare(t).stmt_id
                if n >= m:
                    s.execute(ids[m], ps, l[m:], sql, "COM_STMT_EXECUTE with %d parameters and %d attributes" % (m, n - m))
            ctx.transition(4)
            ctx.state(("count", n))


def k_len(case, ctx):
    n, where, t = case["n"], case["where"], case["t"]
    text = ("x\u00e9" * (n // 3 + 1)).encode()[:n].decode("utf8", "ignore")
    text += "y" * (n - len(text.encode()))
    with Sys() as s:
        ps = Stmts(s)
        e = (text, (t, False, "v")) if where == "name" else ("k", (t, False, text))
        for l in ([e], [("a", ("LONG", False, 5)), e], [e, ("z", ("TINY", True, 200))], [e, (text + "2", (t, False, None))]):
            what = "%s of %d bytes" % (where, n)
            s.query("SELECT 1", l, "COM_QUERY: " + what)
            if n < 1 << 20:
                ps.run(0, l, what=what)
                ps.run(2, l, what=what)
            ctx.transition(3)
        ctx.state(("len", n, where, t))


NAMES = ["", "a", "A", "b", "ab", " ", " a", "a ", "\x00", "a\x00", "\x00a", "\u00e9", "\u4e2d\u6587", "\U0001F600", "'", "`", "\"", "\\", "None", "k=v", "a.b",
         "_client_name", "mysql.trace", "0"]


def k_names(case, ctx):
    with Sys() as s:
        ps = Stmts(s)
        a = NAMES[case["i"]]
        for b in NAMES:
            for va, vb in ((("VAR_STRING", False, "1"), ("VAR_STRING", False, "2")), (("LONG", False, 1), ("VAR_STRING", False, None)), (("NULL", False, None), ("LONG", False, 0))):
                l = [(a, va), (b, vb)]
                s.query("SELECT 1", l)
                for m in (0, 1):
                    ps.run(m, l)
                ctx.transition(3)
            ctx.state(("names", a, b))


def k_pnames(case, ctx):
    """Statement parameters carrying names of their own are no attributes."""
    with Sys() as s:
        for m in (1, 2, 3):
            t, ps, sql = stmt(m)
            sid = s.c.prepare(t).stmt_id
            for names in itertools.product(["", "p", "k", "\u00e9"], repeat=m):
                for l in ([], [("k", ("VAR_STRING", False, "v"))], [("", ("LONG", False, 1)), ("p", ("NULL", False, None))]):
                    p = [entry(n, v) for n, v in zip(names, ps)]
                    r = s.c.execute(sid, p, attrs=[entry(n, v) for n, v in l])
                    s.expect(r, sql, l, "COM_STMT_EXECUTE with named parameters %r and the attributes %r" % (names, l))
                    ctx.transition()
                    ctx.state(("pnames", names, len(l)))


# -- the SQL text ---------------------------------------------------------------------------------------------
LISTS = [[], [("k", ("VAR_STRING", False, "v"))], [("", ("LONG", True, 4294967295)), ("n", ("VAR_STRING", False, None)), ("s", ("BLOB", False, "x"))]]
BLOCKS = [wire.com_query(b"", QA, [entry(n, v) for n, v in l])[1:] for l in LISTS]
FIRST = [0, 1, 2, 3, 8, 0xfb, 0xfc, 0xfd, 0xfe]


def texts(latin, case):
    tails = [b"SELECT 1", b"", b"\x01SELECT 1", b"\x00", b"\x01\x00\x01\xfd\x00\x01k\x01vSELECT 1"]
    if case["which"] == "first":
        for b in range(case["lo"], case["hi"]):
            for tl in tails:
                yield bytes([b]) + tl
    elif case["which"] == "second":
        bs = range(256) if case.get("all") else FIRST
        for b in bs:
            for d in (bs if latin else range(0, 128) if case.get("all") else [0, 1, 2, 3, 8, 0x20, 0x7f]):
                for tl in tails[:3]:
                    yield bytes([b, d]) + tl
    else:
        for b in BLOCKS:
            for tl in tails:
                yield b + tl
                yield b + b + tl
        for tl in [b"", b" ", b"\n\nSELECT 1\n", b"SELECT '\x00\x01\x02'", b"/* \x00 */ SELECT 1", b"SELECT 1;", b";", b"SELECT ?", b"SELECT '?' , ?", b"-- x\nSELECT 1"]:
            yield tl


def k_sql(case, ctx):
    latin = case["charset"] == 8
    codec = "latin1" if latin else "utf8"
    with Sys(charset=case["charset"], codec=codec, caps=F if case["qa"] else NOQA) as s:
        for raw in texts(latin, case):
            try:
                sql = raw.decode(codec)
            except UnicodeDecodeError:
                continue
            for l in LISTS if case["qa"] else [[]]:
                s.query(sql, l, "COM_QUERY %r with %r (capability %s)" % (sql[:40], l, "on" if case["qa"] else "off"))
                ctx.transition()
                ctx.state(("sql", case["qa"], case["charset"], raw, len(l)))


def k_caps(case, ctx):
    """Negotiation: offered by the server x requested by the client x set in the command anyway."""
    offered, requested = case["offered"], case["requested"]
    kw = {}
    if not offered:
        from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES as D
        kw["capabilities"] = D & ~Capabilities.CLIENT_QUERY_ATTRIBUTES
    caps = F if requested else NOQA
    with Sys(caps=caps, extra=QA if requested else 0, **kw) as s:
        negotiated = offered and requested
        check(bool(s.c.hs.caps & QA) == offered, "the server %s query attributes in its handshake", "does not offer" if offered else "offers")
        check(bool(s.c.caps & QA) == negotiated, "harness")
        ps = Stmts(s)
        for rnd in range(3):
            for l in LISTS:
                if l and not negotiated:
                    continue
                for sql in ["SELECT 1", "\x00SELECT 1", "\x00\x01SELECT 1", "\x01\x01SELECT 1", "\x02", "\x00"]:
                    s.query(sql, l)
                for m in range(4):
                    ps.run(m, l, off=rnd)
                    ps.run(m, l, off=rnd, cursor=True, kind=("cursor", "rows"))
                    s.c.cmd(wire.com_reset(ps.ids[m]), "ok")
                ctx.transition(10)
            ctx.state(("caps", offered, requested, rnd, case["after"]))
            if case["after"] == "change":
                r = s.c.change_user()
                check(isinstance(r, wire.OK), "change user: %s", r)
                ps = Stmts(s)
            elif case["after"] == "reset":
                check(s.c.cmd(wire.RESET_CONN if hasattr(wire, "RESET_CONN") else b"\x1f", "ok").kind == "ok", "reset connection")
                ps = Stmts(s)


def k_noflag(case, ctx):
    """Clients that negotiated the capability but do not set PARAMETER_COUNT_AVAILABLE."""
    with Sys() as s:
        for m in range(4):
            t, ps, sql = stmt(m)
            sid = s.c.prepare(t).stmt_id
            for l in LISTS if m else [[]]:
                for cursor in (0, 1):
                    allp = [entry("", v) for v in ps] + [entry(n, v) for n, v in l]
                    out = bytes([wire.EXECUTE]) + struct.pack("<IBI", sid, cursor, 1)
                    if m:
                        out += wire.lenenc(len(allp)) + wire.params_block(allp, True)
                    r = s.c.cmd(out)
                    s.expect(r, sql, l, "execution without PARAMETER_COUNT_AVAILABLE, %d parameters, %r" % (m, l), ("rows", "cursor"))
                    if r.kind == "cursor":
                        s.c.cmd(wire.com_reset(sid), "ok")
                    ctx.transition()
                    ctx.state(("noflag", m, len(l), cursor))


# -- refused types ------------------------------------------------------------------------------------------------
ODD = [("DECIMAL", b"\x041.50"), ("NEWDECIMAL", b"\x041.50"), ("DATE", b"\x04\xe4\x07\x01\x02"), ("DATETIME", b"\x04\xe4\x07\x01\x02"), ("TIMESTAMP", b"\x00"),
       ("TIME", b"\x00"), ("BIT", b"\x01\x01"), ("ENUM", b"\x01a"), ("SET", b"\x01a"), ("JSON", b"\x02{}"), ("GEOMETRY", b"\x00"), ("NEWDATE", b"\x00")]


def k_odd(case, ctx):
    """A type the server does not support: refused, or delivered; the neighbours are exact; the next statements are unaffected."""
    t, raw = ODD[case["i"]]
    code = wire.T[t]

    def block(n, at, null):
        bm = bytearray((n + 7) // 8)
        if null:
            bm[at // 8] |= 1 << at % 8
        b = bytes(bm) + b"\x01"
        for i in range(n):
            b += (bytes([code, 0]) if i == at else b"\x03\x00") + b"\x01" + b"abcdef"[i:i + 1]
        for i in range(n):
            if i != at:
                b += struct.pack("<i", 7 + i)
            elif not null:
                b += raw
        return b

    with Sys() as s:
        sid = s.c.prepare("SELECT a FROM t").stmt_id
        for n in (1, 2, 3):
            for at in range(n):
                for null in (False, True):
                    for cmd in ("q", "x"):
                        b = block(n, at, null)
                        if cmd == "q":
                            pkt = b"\x03" + wire.lenenc(n) + b"\x01" + b + b"SELECT a FROM t"
                        else:
                            pkt = bytes([wire.EXECUTE]) + struct.pack("<IBI", sid, 8, 1) + wire.lenenc(n) + b
                        r = s.c.cmd(pkt, "query" if cmd == "q" else None)
                        got = s.seen()
                        if r.kind == "err":
                            check(not got, "the statement was refused and executed")
                        else:
                            check(len(got) == 1 and got[0][0] == "SELECT a FROM t", "an attribute of type %s: %r", t, got)
                            a = got[0][1]
                            check(set(a) == {"abcdef"[i] for i in range(n)}, "an attribute of type %s: %r", t, a)
                            for i in range(n):
                                check(i == at or a["abcdef"[i]] == 7 + i, "an attribute of type %s: %r", t, a)
                            check(not null or a["abcdef"[at]] is None, "a NULL attribute of type %s: %r", t, a)
                        s.query("SELECT 1", LISTS[1])
                        s.execute(sid, [], [], "SELECT a FROM t")
                        ctx.transition()
                        ctx.state(("odd", t, n, at, null, cmd, r.kind))


def k_long(case, ctx):
    """Parameters sent by COM_STMT_SEND_LONG_DATA next to attributes."""
    with Sys() as s:
        for m in range(4):
            t, ps, sql = stmt(m)
            for mask in range(1 << m):
                for l in LISTS:
                    sid = s.c.prepare(t).stmt_id
                    want = ["a"]
                    params = []
                    for i, v in enumerate(ps):
                        if mask >> i & 1:
                            s.c.silent(wire.com_long_data(sid, i, b"L%d" % i))
                            want.append("'L%d'" % i)
                            params.append((b"", "BLOB", False, Ellipsis))
                        else:
                            want.append(lit(v))
                            params.append(entry("", v))
                    r = s.c.execute(sid, params, attrs=[entry(n, v) for n, v in l])
                    what = "long data for the parameters %s of %d with the attributes %r" % (bin(mask), m, l)
                    s.expect(r, "SELECT " + ", ".join(want) + " FROM t", l, what)
                    # the data is gone, and was never an attribute's
                    s.execute(sid, ps, l, sql, "re-execution after " + what)
                    # long data for an index that is no parameter: never an attribute's value
                    if l:
                        for idx in range(m, m + len(l) + 1):
                            s.c.silent(wire.com_long_data(sid, idx, b"evil"))
                            r = s.c.execute(sid, [entry("", v) for v in ps], attrs=[entry(n, v) for n, v in l])
                            if r.kind == "err":
                                check(not s.seen(), "refused and executed")
                            else:
                                s.expect(r, sql, l, "long data for parameter %d of %d" % (idx, m))
                            s.c.cmd(wire.com_reset(sid), "ok")
                    s.query("SELECT 1", l)
                    ctx.transition(3)
                    ctx.state(("long", m, mask, len(l)))


# -- histories -------------------------------------------------------------------------------------------------------
A = [("k", ("VAR_STRING", False, "v")), ("n", ("LONG", False, -1)), ("z", ("NULL", False, None))]
B = [("k", ("LONGLONG", True, 5)), ("b", ("VAR_STRING", False, "bb"))]
OPS = ["qA", "qB", "q0", "x0A", "x00", "x1A", "x1B", "x10", "y1B", "cA", "mut", "fail", "bad", "other", "ping", "reset", "change"]


class Hist:
    def __init__(self, s):
        self.s = s
        self.second = s.client(NOQA)
        self.prep()
        self.n = 0

    def prep(self):
        self.i0 = self.s.c.prepare("SELECT 'p0'").stmt_id
        self.i1 = self.s.c.prepare("SELECT ?, 'p1'").stmt_id
        self.j1 = self.s.c.prepare("SELECT 'y', ?").stmt_id

    def step(self, op):
        s, c = self.s, self.s.c
        self.n += 1
        v = ("LONG", False, self.n)
        if op[0] == "q":
            s.query("SELECT %d" % self.n, {"A": A, "B": B, "0": []}[op[1]])
        elif op[:2] == "x0":
            s.execute(self.i0, [], A if op[2] == "A" else [], "SELECT 'p0'")
        elif op[:2] == "x1":
            s.execute(self.i1, [v], {"A": A, "B": B, "0": []}[op[2]], "SELECT %d, 'p1'" % self.n)
        elif op == "y1B":
            s.execute(self.j1, [v], B, "SELECT 'y', %d" % self.n)
        elif op == "cA":
            r = s.execute(self.i1, [v], A, "SELECT %d, 'p1'" % self.n, cursor=True, kind=("cursor",))
            f = c.fetch(self.i1, 5, r.cols)
            check(f.kind == "fetch" and not s.seen(), "fetching called the application again: %s", f)
        elif op == "mut":
            s.app.mutate = True
            s.query("SELECT 'm'", A)
            s.execute(self.i1, [v], B, "SELECT %d, 'p1'" % self.n)
            s.query("SELECT 'm'", [])
            s.execute(self.i0, [], [], "SELECT 'p0'")
            s.app.mutate = False
        elif op == "fail":
            s.app.fail = True
            s.query("SELECT 'f'", A, kind=("err",))
            s.execute(self.i1, [v], B, "SELECT %d, 'p1'" % self.n, kind=("err",))
            s.app.fail = False
        elif op == "bad":
            r = c.cmd(b"\x03\x02\x01\x00\x01\x03\x00\x01k\x07\x00\x01d\x01\x00\x00\x00" + b"\x00SELECT 1", "query")
            check(r.kind != "err" or not s.seen(), "a refused statement was executed")
            s.app.calls = []
        elif op == "other":
            s.query("\x01\x01SELECT 'o'", [], c=self.second)
        elif op == "ping":
            c.ping()
        elif op == "reset":
            check(c.cmd(b"\x1f", "ok").kind == "ok", "reset connection")
            self.prep()
        elif op == "change":
            r = c.change_user()
            check(isinstance(r, wire.OK), "change user: %s", r)
            self.prep()


def k_hist(case, ctx):
    first = case["ops"]
    for rest in itertools.product(OPS, repeat=case["more"]):
        with Sys() as s:
            hs = Hist(s)
            for op in list(first) + list(rest):
                hs.step(op)
                ctx.transition()
            s.query("SELECT 'end'", [])
            s.query("SELECT 'end'", B)
            ctx.state(("hist", tuple(first) + rest))
            ctx.trace()


# -- Session: parsed statements ---------------------------------------------------------------------------------------
def k_session(case, ctx):
    texts_ = [["SELECT a FROM t"], ["SELECT a FROM t", "SELECT b FROM u"], ["SET @x = 1", "SELECT a FROM t"], ["SELECT 1", "SELECT a FROM t", "SHOW TABLES", "SELECT b FROM u"],
              ["SELECT /*+ SET_VAR(sql_mode='ANSI') */ a FROM t", "SELECT b FROM u"], ["INSERT INTO t VALUES (1)", "SELECT '?' FROM t"], ["USE db", "SELECT a FROM t"]]
    own = ("SELECT a", "SELECT b", "SELECT /*", "INSERT", "SELECT '?'")
    for stmts in texts_:
        sql = "; ".join(stmts)
        want_n = sum(x.startswith(own) for x in stmts)
        for l in LISTS + [A, B]:
            with Sys(session=RecSession, caps=F if case["qa"] else NOQA) as s:
                c = s.c
                pairs = l if case["qa"] else []
                for transport in ("query", "prepared", "query"):
                    if transport == "query":
                        r = c.query(sql, [entry(n, v) for n, v in pairs])
                    else:
                        sid = c.prepare(sql).stmt_id
                        r = c.execute(sid, [], attrs=[entry(n, v) for n, v in pairs])
                    check(r.kind != "err" or len(stmts) > 1, "%r: %s", sql, r)
                    hq = [x for x in s.w.log if x[1] == "handle_query"]
                    got = s.seen()
                    if r.kind != "err":
                        check(len(got) == want_n, "%r (%s): the application was called %d times instead of %d", sql, transport, len(got), want_n)
                    for _, a in got:
                        check(same_mapping(pairs, a), "%r (%s): the application received the attributes %r instead of %r", sql, transport, a, pairs)
                    check(len(hq) == 1 and hq[0][2] == sql and same_mapping(pairs, hq[0][3]), "%r (%s): handle_query was called with %r", sql, transport, hq)
                    s.w.log.clear()
                    ctx.transition()
                    ctx.state(("session", sql, transport, len(l), case["qa"]))
                # a bound parameter
                sid = c.prepare("SELECT a FROM t WHERE b = ? AND c = ?").stmt_id
                p = [entry("", ("LONG", False, 7)), entry("", ("VAR_STRING", False, "a?b"))]
                r = c.execute(sid, p, attrs=[entry(n, v) for n, v in pairs])
                got = s.seen()
                check(r.kind == "rows" and len(got) == 1 and same_mapping(pairs, got[0][1]) and got[0][0] == "SELECT a FROM t WHERE b = 7 AND c = 'a?b'",
                      "bound parameters with attributes %r: %r", pairs, got)


CHARSETS = [(8, "latin1", "\u00e9\u00ff"), (255, "utf8", "\U0001F600\u00e9"), (45, "utf8", "\U0001F600"), (33, "utf8", "\u4e2d"), (28, "gbk", "\u4e2d\u6587"),
            (95, "cp932", "\u65e5\u30bd"), (1, "big5", "\u4e2d\u529f"), (11, "ascii", "abc"), (51, "cp1251", "\u0416\u0451")]


def k_charset(case, ctx):
    cid, codec, text = CHARSETS[case["i"]]
    with Sys(charset=cid, codec=codec, session=RecBase) as s:
        ps = Stmts(s)
        for name in ("k", text, "k" + text + "0", ""):
            for v in [(t, False, x) for t in STRT for x in (text, "", "a" + text + "'", None)] + [("LONG", False, -1)]:
                for l in ([(name, v)], [("first", ("TINY", False, 1)), (name, v), ("last", ("VAR_STRING", False, text))]):
                    s.query("SELECT '%s'" % text, l)
                    for m in (0, 2):
                        ps.run(m, l)
                    ctx.transition(3)
                    ctx.state(("charset", cid, name, v, len(l)))
    # the charset selected later
    with Sys(session=RecSession) as s:
        name = {255: "utf8mb4", 8: "latin1", 45: "utf8mb4", 33: "utf8", 28: "gbk", 95: "cp932", 1: "big5", 11: "ascii", 51: "cp1251"}[cid]
        for sql in ("SET NAMES " + name, "SET character_set_client = '%s'" % name):
            r = s.c.query(sql)
            check(r.kind == "ok", "%s: %s", sql, r)
            s.codec = codec
            l = [(text, ("VAR_STRING", False, text)), ("k", ("BLOB", False, "x" + text))]
            s.query("SELECT a FROM t WHERE b = '%s'" % text, l)
            sid = s.c.prepare("SELECT a FROM t").stmt_id
            s.execute(sid, [], l, "SELECT a FROM t")
            s.codec = "utf8"
            r = s.c.query("SET NAMES utf8mb4")
            check(r.kind == "ok", "SET NAMES utf8mb4: %s", r)
            s.query("SELECT a FROM t", [("\u4e2d", ("VAR_STRING", False, "\u00e9"))])
            ctx.transition(4)


def k_two(case, ctx):
    """Two connections with different capabilities, commands in flight at the same time."""
    for session in (RecBase, RecSession):
        for ca, cb in itertools.product((F, NOQA), repeat=2):
            for order in itertools.permutations("ab"):
                for la, lb in itertools.product(LISTS, repeat=2):
                    with Sys(session=session, caps=ca) as s:
                        b = s.client(cb)
                        out = {"a": [], "b": []}

                        async def query(sess, e, sql, attrs):
                            who = "a" if "'qa'" in sql else "b"
                            await s.w.gate(who)
                            out[who].append((sql, dict(attrs)))
                            return [("x",)], ["m"]
                        s.app.query = query
                        cl = {"a": (s.c, la if ca & QA else [], "SELECT 'qa' FROM t"), "b": (b, lb if cb & QA else [], "SELECT 'qb' FROM t")}
                        for who in "ab":
                            c, l, sql = cl[who]
                            c.send(wire.com_query(sql, c.caps, [entry(n, v) for n, v in l]))
                        s.w.run()
                        for who in order:
                            s.w.release(who)
                            s.w.run()
                        for who in "ab":
                            c, l, sql = cl[who]
                            check(c.read("query").kind == "rows", "no rows")
                            check(len(out[who]) == 1 and out[who][0][0] == sql and same_mapping(l, out[who][0][1]),
                                  "two connections: %s received %r instead of %r, %r", who, out[who], sql, l)
                        ctx.transition(2)
                        ctx.state(("two", session.__name__, ca & QA, cb & QA, order, len(la), len(lb)))


def cases(tier):
    th = tier == "thorough"
    out = []
    out += [dict(k="vals", lo=i, hi=min(i + 12, len(ALL))) for i in range(0, len(ALL), 12)]
    out += [dict(k="pairs", i=i) for i in range(len(REP))]
    out += [dict(k="triples", i=i) for i in range(len(FEW))]
    out += [dict(k="null", n=n, lo=lo, hi=min(lo + 256, 1 << n)) for n in range(1, 13 if th else 9) for lo in range(0, 1 << n, 256)]
    out += [dict(k="split", n=n) for n in range(1, 10 if th else 7)]
    out += [dict(k="edge", n=n) for n in [7, 8, 9, 10, 14, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 63, 64, 65]]
    if th:
        out += [dict(k="edge", n=n) for n in range(7, 130) if n not in (7, 8, 9, 10, 14, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 63, 64, 65)]
    rng = [(i, i + 10) for i in range(0, 1100, 10)] + [(65534, 65538)] if th else [(0, 14), (14, 28), (28, 41), (100, 110)] + [(i, i + 5) for i in range(240, 301, 5)]
    out += [dict(k="count", lo=a, hi=b) for a, b in rng]
    lens = [0, 1, 2, 127, 128, 249, 250, 251, 252, 253, 254, 255, 256, 257, 511, 65534, 65535, 65536, 65537]
    for n in lens + ([1 << 20, (1 << 24) - 64, (1 << 24) - 1, 1 << 24] if th else [300000]):
        for t in (["VAR_STRING", "BLOB", "STRING"] if n < 1 << 20 else ["VAR_STRING"]):
            out += [dict(k="len", n=n, where=wh, t=t) for wh in ("name", "value")]
    out += [dict(k="names", i=i) for i in range(len(NAMES))]
    out += [dict(k="pnames")]
    for qa in (0, 1):
        for cs in (255, 8):
            out += [dict(k="sql", which="first", lo=lo, hi=lo + 32, charset=cs, qa=qa) for lo in range(0, 256, 32)]
            out += [dict(k="sql", which=wh, charset=cs, qa=qa) for wh in ("second", "blocks")]
            if th:
                out += [dict(k="sql", which="second", charset=cs, qa=qa, all=1)]
    out += [dict(k="caps", offered=o, requested=r, after=a) for o in (True, False) for r in (True, False) for a in ("none", "change", "reset")]
    out += [dict(k="noflag"), dict(k="long"), dict(k="two")]
    out += [dict(k="odd", i=i) for i in range(len(ODD))]
    out += [dict(k="session", qa=q) for q in (0, 1)]
    out += [dict(k="charset", i=i) for i in range(len(CHARSETS))]
    out += [dict(k="hist", ops=[], more=0)] + [dict(k="hist", ops=[a], more=0) for a in OPS]
    out += [dict(k="hist", ops=[a, b], more=1) for a in OPS for b in OPS]
    if th:
        out += [dict(k="hist", ops=[a, b, d], more=1) for a in OPS for b in OPS for d in OPS]
        out += [dict(k="pairs", i=i, all=1) for i in range(len(ALL))]
        out += [dict(k="triples", i=i, all=1) for i in range(len(REP))]
    return out


CASE_CPU = 120.0


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)
