"""C05: clients decode exactly the values the application returned."""
import datetime
import itertools
from datetime import date, timedelta
from decimal import Decimal
import struct

from harness import wire
from harness.world import World, RecBase, check
from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.charset import CharacterSet
from mysql_mimic.types import ColumnType

ID = "C05"
LEVEL = "model_checking"
RULE = ("one execution = one application result (columns x declaration x values x NULL pattern x row source) answered over "
        "text, binary and cursor protocol and decoded; state = (shape, declaration, source, protocol, value/NULL pattern)")
BOUNDS = {
    "quick": "25 types x full boundary domains x text/binary/cursor x {EOF, DEPRECATE_EOF} x typed/bare x 7 row sources; all NULL "
             "patterns of every shape with <=10 cells and 1..9 column single rows, weight<=2 patterns for 10..18,62..66 columns; "
             "all 3-name lists over 6 names; all string lengths at lenenc/packet boundaries; row counts 0..30 and around 10000; numeric timestamps",
    "thorough": "all NULL patterns of every shape with <=14 cells, 17-column single rows; all 4-name lists; 16 MiB cells; "
                "every string length 0..70000 stepped, every datetime/duration field boundary product",
}
ASSUMPTIONS = ["float columns are compared after rounding to binary32 in the binary protocol",
               "values are of a Python type natural for the column (no dict/set/aware datetimes)",
               "an untyped column whose first non-NULL lies beyond 1000 rows may be announced as a string column"]
MEM = 8


class A:
    pass


class Sess(RecBase):
    async def handle_query(self, sql, attrs):
        return self.world.app.make()


class AIter:
    def __init__(self, rows):
        self.it = iter(rows)

    def __aiter__(self):
        return self

    async def __anext__(self):
        try:
            return next(self.it)
        except StopIteration:
            raise StopAsyncIteration from None


class SyncOnly:
    """An iterable that is not a sequence."""

    def __init__(self, rows):
        self.rows = rows

    def __iter__(self):
        return iter(self.rows)


async def agen(rows):
    for r in rows:
        yield r


async def slow(rows):
    import asyncio
    for r in rows:
        await asyncio.sleep(1000)
        yield r
    await asyncio.sleep(1000)


async def susp(rows):
    import asyncio
    for r in rows:
        await asyncio.sleep(0)
        yield r


SOURCES = {
    "list": lambda rows, cols: (list(rows), cols),
    "tuple": lambda rows, cols: (tuple(tuple(r) for r in rows), tuple(cols)),
    "iter": lambda rows, cols: (SyncOnly(rows), cols),
    "gen": lambda rows, cols: ((r for r in rows), cols),
    "agen": lambda rows, cols: (agen(rows), cols),
    "susp": lambda rows, cols: (susp(rows), cols),
    "slow": lambda rows, cols: (slow(rows), cols),
    "aiter": lambda rows, cols: (AIter(rows), cols),
    "rs": lambda rows, cols: ResultSet(rows=list(rows), columns=cols),
    "rsa": lambda rows, cols: ResultSet(rows=agen(rows), columns=cols),
}
CAPS = {"full": wire.FULL_CAPS, "eof": wire.FULL_CAPS & ~(wire.DEPRECATE_EOF | wire.QUERY_ATTRIBUTES),
        "opt": wire.FULL_CAPS | wire.OPTIONAL_METADATA}

# ---- value domains ------------------------------------------------------------
def ints(bits):
    m = 1 << (bits - 1)
    return sorted({0, 1, -1, 2, -2, 9, 10, 99, -99, 127, -128, 100, m - 1, -m, m - 2, -m + 1, m // 2, -(m // 2)}
                  | {s * (1 << k) + d for k in range(0, bits - 1) for s in (1, -1) for d in (-1, 0, 1)
                     if -m <= s * (1 << k) + d < m} | {v for v in (250, 251, 252, 253, 254, 255, 256, 65535, 65536)
                                                       if v < m}) + [True, False]


FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 1 / 3, 2.5, 1e-5, 1e-4, 1e15, 1e16, 1e17, 1.5e22, -1e-7, 123456789.125,
          1e300, -1e-300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 2.0**53, 2.0**53 + 2, 16777217.0, 1, -3, 0, True, False]
F32 = [0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, -2.5, 1e-5, 1e10, 3.4e38, 1e-38, 1e-45, 16777216.0, 0.5, 123.456, 1, -3, 0, True, False]
STRS = ["", "a", "0", "NULL", "null", "1", " ", "  x ", "\0", "a\0b", "'", '"', "\\", "\n\r\t\x1a", "é", "♥", "漢字", "😀", "é" * 125,
        "é" * 126, "\u00fb", "\u00ff", "x" * 249, "x" * 250, "x" * 251, "x" * 252, "x" * 253, "x" * 254, "x" * 255, "x" * 256,
        "😀" * 63, "True", "None", "\ufeff", "\ufeffx", "a" * 65535, "a" * 65536, "b" * 70000]
BYTES = [b"", b"\0", b"\xfb", b"\xff", b"\xfe", bytes(range(256)), b"x" * 250, b"x" * 251, b"\xff" * 252, b"\0" * 300,
         b"\xfb" * 65535, b"\xfe" * 65536, b"\xc3\x28", b"'\\\"\n", b"a", b"\xfa" * 65537]
DATES = [date(y, m, d) for y, m, d in ((1, 1, 1), (9, 9, 9), (99, 12, 31), (255, 2, 1), (256, 1, 1), (999, 12, 31), (1000, 1, 1),
                                       (1899, 12, 31), (1969, 12, 31), (1970, 1, 1), (2000, 2, 29), (2024, 2, 29), (2021, 10, 5),
                                       (2038, 1, 19), (2100, 2, 28), (9999, 12, 31))]
TIMES = [(0, 0, 0, 0), (0, 0, 0, 1), (0, 0, 1, 0), (0, 1, 0, 0), (1, 0, 0, 0), (23, 59, 59, 999999), (12, 34, 56, 0), (0, 0, 0, 100000),
         (9, 9, 9, 9), (10, 0, 0, 10), (23, 0, 0, 0), (0, 59, 0, 0), (0, 0, 59, 0), (0, 0, 0, 65536), (11, 22, 33, 123456), (0, 0, 0, 999000)]
DATETIMES = [datetime.datetime(d.year, d.month, d.day, *t) for d in DATES for t in TIMES]
DAYS = [0, 1, 2, 6, 23, 24, 34, 35, 255, 256, 65535, 65536, 999999]


def durations():
    out = []
    for d in DAYS:
        for t in TIMES:
            x = timedelta(days=d, hours=t[0], minutes=t[1], seconds=t[2], microseconds=t[3])
            out += [x, -x]
    out += [timedelta(hours=838, minutes=59, seconds=59), -timedelta(hours=838, minutes=59, seconds=59), timedelta(hours=24),
            timedelta(hours=100), timedelta(hours=-100), timedelta.max, timedelta.min, timedelta(microseconds=-1),
            timedelta(seconds=86399), timedelta(seconds=-86399), timedelta(seconds=86400), timedelta(seconds=-86401)]
    return list(dict.fromkeys(out))


DECS = [Decimal(x) for x in ("0", "-0.00", "1.10", "-1.5", "123456789012345678901234567890.123456789", "0.000000000000001", "1E+5", "1E-10",
                             "99999999999999999999999999999999999999999999999999999999999999999")] + [0, 1, -5, 10**30, 1.5, -0.25, True, False]
SMALL_DATES = [datetime.datetime(d.year, d.month, d.day) for d in DATES]
STAMPS = [0, 1, 59, 3600, 86400, 10**9, 2**31, 2**33, 0.0, 0.5, 1e-6, 999999999.999999, 1e9 + 0.25, 1582934400.0, 4102444799.75]     # Unix time

DOMAIN = {
    "TINY": ints(8), "SHORT": ints(16), "INT24": ints(24), "LONG": ints(32), "LONGLONG": ints(64), "BOOL": [True, False, 0, 1],
    "YEAR": [1901, 1970, 1999, 2000, 2021, 2100, 2155, 0], "FLOAT": F32, "DOUBLE": FLOATS, "DECIMAL": DECS, "NEWDECIMAL": DECS,
    "DATE": DATES + [0, 86400, 1e9 // 86400 * 86400], "DATETIME": DATETIMES + DATES[:3] + STAMPS, "TIMESTAMP": DATETIMES + STAMPS, "TIME": durations(),
    "BIT": [b"\0", b"\x01", b"\xff" * 8, b"\x80\0", 0, 1, 2, 255, 256, 65535, 2**63, 2**64 - 1, True, False],
}
for _t in ("VARCHAR", "VAR_STRING", "STRING", "ENUM", "SET", "JSON"):
    DOMAIN[_t] = STRS + BYTES
for _t in ("TINY_BLOB", "BLOB", "MEDIUM_BLOB", "LONG_BLOB", "GEOMETRY"):
    DOMAIN[_t] = BYTES + STRS
INFER = ([True, False] + ints(64)[:-2] + [float(x) for x in FLOATS] + STRS + BYTES + DATES + DATETIMES[::7] + durations()[::5]
         + DECS[:9])
CHARSETS = {"utf8mb4": "utf-8", "latin1": "latin-1", "utf8": "utf-8", "ascii": "ascii", "cp1251": "cp1251", "gbk": "gbk",
            "greek": "iso8859-7", "latin2": "iso8859-2"}
CS_STRS = {"utf8mb4": STRS, "utf8": [s for s in STRS if "😀" not in s], "ascii": ["", "abc", "\0'\\\"~"],
           "latin1": ["é", "ÿ", "ü" * 251, "abc"], "cp1251": ["привет", "я" * 255, "abc"], "gbk": ["漢字", "abc", "中" * 126],
           "greek": ["αβγ", "ω" * 252], "latin2": ["łódź", "ž" * 251]}
NAMES = ["a", "b", "", "é♥", "A", "x" * 300]
# types inferred values may be announced as, by value type
STRINGISH = {"VARCHAR", "VAR_STRING", "STRING", "BLOB", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB"}


def natural(v, t):
    """May a column announced as t carry v without loss?"""
    if v is None:
        return True
    if isinstance(v, bool):
        return t in ("TINY", "BOOL", "SHORT", "INT24", "LONG", "LONGLONG")
    if isinstance(v, int):
        return t in ("TINY", "SHORT", "INT24", "LONG", "LONGLONG", "DECIMAL", "NEWDECIMAL")
    if isinstance(v, float):
        return t == "DOUBLE"
    if isinstance(v, datetime.datetime):
        return t in ("DATETIME", "TIMESTAMP")
    if isinstance(v, date):
        return t in ("DATE", "DATETIME", "TIMESTAMP")
    if isinstance(v, timedelta):
        return t == "TIME"
    return t in STRINGISH or (isinstance(v, Decimal) and t in ("DECIMAL", "NEWDECIMAL"))


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def same(v, raw, t, binary, codec):
    """Does the standard decoding of cell `raw` of a column announced as t give v?"""
    if v is None or raw is None:
        return v is raw
    got = wire.binary_to_py(raw, t) if binary else wire.text_to_py(raw, t)
    if isinstance(v, (int, float)) and t in ("DATE", "DATETIME", "TIMESTAMP"):
        v = datetime.datetime.fromtimestamp(v)
        if t == "DATE":
            v = v.date()
    if t == "BIT":
        return bytes(got) == v if isinstance(v, bytes) else int.from_bytes(got, "big") == int(v) and len(got) > 0
    if isinstance(v, (bool, int)) and t in wire._INT:
        return isinstance(got, int) and got == int(v)
    if isinstance(v, (int, float)) and t == "DOUBLE":
        return got == v and repr(float(got)) == repr(float(v))
    if isinstance(v, (int, float)) and t == "FLOAT":
        return got == v or got == f32(v)
    if t in ("DECIMAL", "NEWDECIMAL"):
        return Decimal(bytes(got).decode("ascii")) == (Decimal(repr(v)) if isinstance(v, float) else Decimal(v))
    if t == "DATE":
        return got == v
    if t in ("DATETIME", "TIMESTAMP"):
        return got == (v if isinstance(v, datetime.datetime) else datetime.datetime(v.year, v.month, v.day))
    if t == "TIME":
        return got == v
    if not isinstance(got, (bytes, bytearray, memoryview)):
        return False
    if isinstance(v, bytes):
        return bytes(got) == v
    return bytes(got).decode(codec) == (v if isinstance(v, str) else str(v))


# ---- cases ----------------------------------------------------------------------
def chunks(n, size):
    return [(lo, min(lo + size, n)) for lo in range(0, n, size)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for t in DOMAIN:
        for lo, hi in chunks(len(DOMAIN[t]), 24):
            for caps in CAPS:
                out.append(dict(k="cells", t=t, lo=lo, hi=hi, caps=caps))
    for lo, hi in chunks(len(INFER), 24):
        for caps in CAPS:
            out.append(dict(k="cells", t=None, lo=lo, hi=hi, caps=caps))
    for cs in CHARSETS:
        for t in ("VARCHAR", "STRING", "BLOB", "ENUM"):
            out.append(dict(k="charset", cs=cs, t=t))
    # NULL patterns
    cells = 14 if th else 10
    for ncols in range(1, cells + 1):
        for nrows in range(1, cells // ncols + 1):
            n = 1 << ncols * nrows
            for lo, hi in chunks(n, 128):
                for decl in ("typed", "bare"):
                    out.append(dict(k="nulls", nc=ncols, nr=nrows, lo=lo, hi=hi, decl=decl))
    if th:
        for lo, hi in chunks(1 << 17, 256):
            out.append(dict(k="nulls", nc=17, nr=1, lo=lo, hi=hi, decl="typed"))
    for nc in list(range(10, 19)) + [22, 23, 30, 31, 62, 63, 64, 65, 66, 250, 251, 252, 256, 300]:
        for decl in ("typed", "bare"):
            out.append(dict(k="wide", nc=nc, decl=decl))
    # type inference looks ahead
    for nc in (1, 2, 3):
        for firsts in itertools.product(range(0, 5), repeat=nc):
            out.append(dict(k="infer", firsts=list(firsts), n=4))
    for nc in (1, 2):
        for firsts in itertools.product((0, 1, 2, 99, 100, 101, 255, 256, 500, 998, 999), repeat=nc):
            out.append(dict(k="infer", firsts=list(firsts), n=1100, big=True))
    for first in (1000, 1001, 4096, 9999, 10000, 10001, 20000) if th else (1000, 1001, 10001):
        out.append(dict(k="infer", firsts=[first], n=first + 3, big=True, lax=True))
    # mixed types below an inferred column
    out.append(dict(k="mixed"))
    # names
    for n in range(0, 5 if th else 4):
        for combo in itertools.product(range(len(NAMES)), repeat=n):
            out.append(dict(k="names", names=list(combo)))
    for n in (5, 9, 17, 251, 300):
        out.append(dict(k="names", names=[0] * n))
        out.append(dict(k="names", names=[i % len(NAMES) for i in range(n)]))
    # sizes
    lens = sorted({b + d for b in (0, 250, 255, 256, 512, 4096, 32768, 65535, 65536, 131072) for d in range(-4, 5) if b + d >= 0})
    if th:
        lens = sorted(set(lens) | set(range(0, 2000)) | set(range(2000, 70000, 97)) | set(range(32700, 32900)) | set(range(65400, 65700)))
    for lo, hi in chunks(len(lens), 20):
        out.append(dict(k="sizes", lens=lens[lo:hi]))
    out.append(dict(k="sizes", lens=[2**24 - 1 - 9, 2**24 - 1 - 4, 2**24 - 1, 2**24]
                    if th else [2**24 - 5]))
    # row counts and order
    for n in list(range(0, 31)) + [99, 100, 101, 255, 256, 257, 9999, 10000, 10001, 20000, 20001] + ([99999] if th else []):
        for decl in ("typed", "bare"):
            out.append(dict(k="rows", n=n, decl=decl))
    return out


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


class Run:
    """One world; each result is sent over every protocol and decoded."""

    def __init__(self, ctx, caps="full", protos=("text", "binary", "cursor")):
        self.ctx, self.protos = ctx, protos
        self.w = World(session=Sess, app=A())
        self.w.app.make = lambda: None
        self.w.patient = True
        self.c = self.w.login(caps=CAPS[caps])
        self.capname = caps
        p = self.c.prepare("q")
        self.sid = p.stmt_id

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.w.close()

    def check(self, rows, decl, source="list", types=None, names=None, codecs=None, protos=None, what="", lax=False, key=None):
        """rows: list of sequences; decl: columns as handed to the server; types: announced type per column or None."""
        names = names if names is not None else [c.name if isinstance(c, ResultColumn) else str(c) for c in decl]
        for proto in protos or self.protos:
            self.w.app.make = lambda: SOURCES[source](rows, list(decl))
            where = f"{what} [{proto}, {source}, {self.capname}]"
            if proto == "text":
                res = self.c.query("q")
            else:
                res = self.c.execute(self.sid, cursor=proto == "cursor")
                if res.kind == "cursor":
                    cols, allrows = res.cols, []
                    for _ in range(len(rows) + 3):
                        f = self.c.fetch(self.sid, max(1, len(rows) // 2), cols)
                        check(f.kind == "fetch" and not f.failed, "%s: fetch answered %s", where, f)
                        allrows += f.rows
                        if f.term.status & wire.ST_LAST_ROW_SENT:
                            break
                    else:
                        check(False, "%s: cursor never ends", where)
                    res = wire.Result("rows", cols=cols, rows=allrows, term=f.term)
            self.ctx.transition()
            if not decl:
                check(res.kind == "ok", "%s: answered %s", where, res)
                continue
            check(res.kind == "rows" and not res.failed, "%s: answered %s", where, res)
            check([bytes(c.name).decode() for c in res.cols] == names, "%s: column names %s, expected %s", where,
                  [c.name for c in res.cols][:20], names[:20])
            check(len(res.rows) == len(rows), "%s: %d rows, expected %d", where, len(res.rows), len(rows))
            ann = [wire.TN[c.type] for c in res.cols]
            for i, c in enumerate(decl):
                if isinstance(c, ResultColumn):
                    check(ann[i] == c.type.name, "%s: column %d announced as %s, declared %s", where, i, ann[i], c.type.name)
                    check(res.cols[i].charset == int(c.character_set), "%s: column %d announced in charset %s", where, i, res.cols[i].charset)
            for rn, (row, got) in enumerate(zip(rows, res.rows)):
                check(len(got) == len(names), "%s: row %d has %d cells", where, rn, len(got))
                for cn, (v, g) in enumerate(zip(row, got)):
                    t = ann[cn]
                    if lax and t in STRINGISH:
                        ok = g is None if v is None else bytes(g).decode() == str(v)
                    else:
                        ok = (isinstance(decl[cn], ResultColumn) or natural(v, t)) and \
                            same(v, g, t, proto != "text", codecs[cn] if codecs else "utf-8")
                    check(ok, "%s: cell (%d,%d): %.80r decoded as %.80r (type %s)", where, rn, cn, v, g, t)
            self.ctx.trace()
            self.ctx.state((key or what, proto, source, self.capname, len(rows), tuple(ann) if len(ann) < 40 else len(ann)))
            self.ctx.outcome((proto, tuple(ann)[:8], len(rows), tuple(None if v is None else type(v).__name__ for v in rows[0][:8]) if rows else ()))


def col(t, name="c", cs=CharacterSet.utf8mb4):
    return ResultColumn(name, ColumnType[t], cs)


def k_cells(case, ctx):
    t = case["t"]
    vals = (DOMAIN[t] if t else INFER)[case["lo"]:case["hi"]]
    srcs = list(SOURCES)
    with Run(ctx, case["caps"]) as r:
        for i, v in enumerate(vals):
            decl = [col(t)] if t else ["c"]
            r.check([(v,)], decl, what=f"{t or 'inferred'} {v!r:.60}", key=(t, case["lo"] + i), source=srcs[i % 7] if not t else srcs[i % 9])
        # all of the slice in one result, surrounded by NULLs and other columns
        if t:
            rows = [[v, None if i % 3 else i, v] for i, v in enumerate(vals)]
            decl = [col(t, "v"), col("LONG", "n"), col(t, "v")]
            for s in srcs:
                r.check(rows, decl, source=s, what=f"{t} slice", protos=("text", "binary"))


def k_charset(case, ctx):
    cs, t = case["cs"], case["t"]
    with Run(ctx) as r:
        for s in CS_STRS[cs]:
            r.check([(s,), (None,), (s,)], [col(t, "c", CharacterSet[cs])], codecs=[CHARSETS[cs]], what=f"{t} {cs} {s!r:.40}", key=(t, cs, s))


# one representative per wire shape, so that neighbours shift when a NULL bit is wrong
KINDS = [("LONG", 305419896), ("VARCHAR", "value"), ("TINY", -7), ("DATETIME", datetime.datetime(2020, 1, 2, 3, 4, 5, 6)), ("DOUBLE", 1.5),
         ("TIME", timedelta(hours=-30, microseconds=5)), ("LONGLONG", -(2**40)), ("BLOB", b"\xfb\0\xff"), ("SHORT", 515), ("DATE", date(2021, 2, 3))]
BARE = [k for k in KINDS if k[0] not in ("LONG", "TINY", "SHORT")] + [("LONGLONG", 12345)]


def variant(v, i):
    if isinstance(v, int):
        return v + i % 100
    if isinstance(v, float):
        return v + i
    if isinstance(v, str):
        return v + str(i)
    if isinstance(v, bytes):
        return v + bytes([i % 256])
    return v + timedelta(days=i % 1000)


def k_nulls(case, ctx):
    nc, nr = case["nc"], case["nr"]
    kinds = KINDS if case["decl"] == "typed" else BARE
    full = [[variant(kinds[(c + nc) % len(kinds)][1], r) for c in range(nc)] for r in range(nr)]
    if case["decl"] == "typed":
        decl = [col(kinds[(c + nc) % len(kinds)][0], f"c{c}") for c in range(nc)]
    else:
        decl = [f"c{c}" for c in range(nc)]
    srcs = list(SOURCES)[:8]
    with Run(ctx, protos=("text", "binary")) as r:
        for mask in range(case["lo"], case["hi"]):
            rows = [[None if mask >> (ri * nc + ci) & 1 else full[ri][ci] for ci in range(nc)] for ri in range(nr)]
            r.check(rows, decl, source=srcs[mask % 7], what=f"{nr}x{nc} nulls {mask:b}", key=("nulls", case["decl"], nr, nc, mask))


def k_wide(case, ctx):
    nc = case["nc"]
    kinds = KINDS if case["decl"] == "typed" else BARE
    full = [variant(kinds[c % len(kinds)][1], c) for c in range(nc)]
    decl = [col(kinds[c % len(kinds)][0], f"c{c}") if case["decl"] == "typed" else f"c{c}" for c in range(nc)]
    if nc <= 18:
        sets = [s for k in (0, 1, 2) for s in itertools.combinations(range(nc), k)]
    else:
        pick = sorted({0, 1, 5, 6, 7, 8, 13, 14, 15, 16, nc - 9, nc - 8, nc - 7, nc - 3, nc - 2, nc - 1})
        sets = [()] + [(i,) for i in pick] + [(i, nc - 1) for i in pick]
    rows = []
    for s in sets:
        rows.append([None if i in s else v for i, v in enumerate(full)])
        rows.append([v if i in s else None for i, v in enumerate(full)])
    with Run(ctx, protos=("text", "binary")) as r:
        r.check(rows, decl, what=f"{nc} columns {case['decl']}", key=("wide", nc))
        for one in rows[:40]:
            if case["decl"] == "typed":
                r.check([one], decl, what=f"{nc} columns", key=("wide1", nc, tuple(v is None for v in one)))


def k_infer(case, ctx):
    n, firsts = case["n"], case["firsts"]
    rows = [[i * 10 + c if i >= f else None for c, f in enumerate(firsts)] for i in range(n)]
    # a row id column, so that dropped, repeated or reordered rows are visible
    rows = [[f"row{i}"] + r if i % 2 else [None] + r for i, r in enumerate(rows)]
    names = ["id"] + ["c"] * len(firsts)
    with Run(ctx, protos=("text", "binary", "cursor") if not case.get("big") else ("text", "binary")) as r:
        for s in list(SOURCES)[:8]:
            if case.get("big") and s in ("susp", "slow", "tuple"):
                continue
            if case.get("big") and s not in ("gen", "agen"):
                continue
            r.check(rows, names, source=s, what=f"infer {firsts} of {n}", lax=case.get("lax"), key=("infer", tuple(firsts), n))
        if not case.get("big"):
            mixed = ["id"] + [col("LONGLONG", "c") if i % 2 else "c" for i in range(len(firsts))]
            r.check(rows, mixed, source="agen", what=f"infer mixed {firsts}", key=("inferm", tuple(firsts)))


def k_mixed(case, ctx):
    with Run(ctx) as r:
        for vals in ([True, 5, -3, 127, -128, False, None, 2], [None, False, 1, 100], [5, True, False, -2**63, 2**63 - 1],
                     [1.5, 2, True, -3], ["x", "", None, "5"], ["s", b"raw", "é"], [b"b", "str", b""],
                     [date(2020, 1, 1), None, date(1, 1, 1)], [datetime.datetime(2020, 1, 1), date(2021, 1, 1), datetime.datetime(2020, 1, 1, 5)]):
            for s in list(SOURCES)[:8]:
                vv = [v for v in vals]
                # decoded as the announced type
                self_rows = [(v,) for v in vv]
                r_check_mixed(r, self_rows, s, vals)


def r_check_mixed(r, rows, s, vals):
    for proto in ("text", "binary"):
        r.w.app.make = lambda: SOURCES[s](rows, ["c"])
        res = r.c.query("q") if proto == "text" else r.c.execute(r.sid)
        check(res.kind == "rows" and not res.failed and len(res.rows) == len(rows), "mixed %s %s: answered %s", vals, proto, res)
        t = wire.TN[res.cols[0].type]
        for (v,), (g,) in zip(rows, res.rows):
            check(same(v, g, t, proto != "text", "utf-8"), "mixed %s [%s %s]: %r decoded as %r (type %s)", vals, proto, s, v, g, t)
        r.ctx.transition()
        r.ctx.state(("mixed", repr(vals), s, proto))


def k_names(case, ctx):
    names = [NAMES[i] for i in case["names"]]
    with Run(ctx) as r:
        rows = [[i * 1000 + j for j in range(len(names))] for i in range(2)]
        r.check(rows, names, what=f"names {names!r:.80}", key=("bare", tuple(case["names"])))
        r.check(rows, [col("LONG", n) for n in names], what=f"typed names {names!r:.80}", key=("typed", tuple(case["names"])))
        if len(names) > 1:
            mixed = [col("LONG", n) if i % 2 else n for i, n in enumerate(names)]
            r.check(rows, mixed, source="agen", what=f"mixed names {names!r:.80}", key=("mixed", tuple(case["names"])))
            r.check([[None] * len(names)] + rows, names, source="gen", what=f"names {names!r:.80}", key=("bare2", tuple(case["names"])))
            r.check([], names, source="gen", what=f"names {names!r:.80} without rows", key=("bare3", tuple(case["names"])))
        if names and len(names) < 5:
            r.check(rows, list(range(len(names))), names=[str(i) for i in range(len(names))], what="int names")


def k_sizes(case, ctx):
    with Run(ctx) as r:
        for n in case["lens"]:
            s = ("x" * (n - 1) + "y") if n else ""
            huge = n > 10**6
            rows = [(s, n), (s.encode(), n + 1)] if not huge else [(s, n)]
            if n < 70000:
                rows.append(("é" * (n // 2), n + 2))
            r.check(rows, [col("VARCHAR", "s"), col("LONG", "n")], what=f"size {n}", key=("size", n), source="agen",
                    protos=("text", "binary") if huge else None)
            if not huge:
                r.check(rows[:1], ["s", "n"], what=f"size {n} bare", key=("sizeb", n), protos=("text", "binary"))
                r.check([(s, s, n), (None, s, n)], [col("BLOB", "a"), col("STRING", "b"), col("LONG", "n")], what=f"size {n}", key=("size2", n),
                        protos=("text", "binary"))


def k_rows(case, ctx):
    n = case["n"]
    rows = [(i, None if i % 5 == 2 else f"v{i}") for i in range(n)]
    decl = [col("LONGLONG", "i"), col("VARCHAR", "s")] if case["decl"] == "typed" else ["i", "s"]
    if case["decl"] == "bare":
        rows = [(None, None)] * min(3, n) + rows[:max(0, n - 3)]
    with Run(ctx, protos=("text", "binary", "cursor")) as r:
        for s in SOURCES:
            if s.startswith("rs") and case["decl"] == "bare" or n > 1000 and s in ("tuple", "iter", "aiter", "susp", "slow"):
                continue
            r.check(rows, decl, source=s, what=f"{n} rows {case['decl']}", key=("rows", n, case["decl"]))
