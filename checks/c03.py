"""C03: every command gets exactly one complete, well-formed response."""
import itertools

from harness import wire
from harness.world import World, RecSession, App, Violation, check
from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.auth import IdentityProvider, NativePasswordAuthPlugin, User
from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
from mysql_mimic.errors import MysqlError, ErrorCode
from mysql_mimic.schema import BaseInfoSchema
from mysql_mimic.types import ColumnType, Capabilities

ID = "C03"
LEVEL = "model_checking"
RULE = ("one execution = capability set x command program (x application outcomes encoded in the commands); state = "
        "(capabilities, program prefix, abstract statement table); outcome = response shape per capability set")
BOUNDS = {"quick": "32 capability subsets x {none, all unsupported flags, optional metadata}: all programs of length 1; "
                   "length 2 on 32 subsets; length 3 over a reduced alphabet on 4 subsets; row counts around 256k; each command 1100 times in a row",
          "thorough": "length 3 full alphabet on 4 subsets, length 4 reduced; each command up to 20000 times in a row"}
ASSUMPTIONS = ["commands are sent in lockstep", "an ERR inside a row stream is its terminator"]

UNSUPPORTED = (wire.TRANSACTIONS | wire.MULTI_STATEMENTS | wire.MULTI_RESULTS | wire.PS_MULTI_RESULTS
               | wire.SESSION_TRACK | wire.OPTIONAL_METADATA | wire.FOUND_ROWS | wire.LONG_FLAG
               | 1 << 4 | 1 << 7 | 1 << 12 | 1 << 22 | 1 << 28 | 1 << 29 | 1 << 30 | 1 << 31)
OPTS = [wire.DEPRECATE_EOF, wire.QUERY_ATTRIBUTES, wire.CONNECT_WITH_DB, wire.CONNECT_ATTRS, wire.PLUGIN_AUTH_LENENC]


class AIter:
    def __init__(self, rows):
        self.rows = rows

    def __aiter__(self):
        self.it = iter(self.rows)
        return self

    async def __anext__(self):
        try:
            return next(self.it)
        except StopIteration:
            raise StopAsyncIteration from None


class AIterable:
    def __init__(self, rows):
        self.rows = rows

    def __aiter__(self):
        return AIter(self.rows).__aiter__()


COLS = ["a", "b"]
TCOLS = [ResultColumn("a", ColumnType.LONGLONG), ResultColumn("b", ColumnType.VARCHAR)]


def row(i, w=0):
    return (i, None if i % 3 == 2 else f"v{i}" + "x" * w)


def src_outcome(spec):
    """'g5' -> (factory result, expectation).  expectation: ('ok',) ('err',) ('rows', n) ('part', k)."""
    kind = spec[0]
    if spec == "none":
        return lambda: None, ("ok",)
    if spec == "zero":
        return lambda: ([], []), ("ok",)
    if spec == "zrs":
        return lambda: ResultSet([], []), ("ok",)
    if spec == "zagen":
        return lambda: (AIter([]), ()), ("ok",)
    if spec == "mys":
        def f():
            raise MysqlError("nope", ErrorCode.PARSE_ERROR)
        return f, ("err",)
    if spec == "exc":
        def f():
            raise ValueError("boom \u2665")
        return f, ("err",)
    if spec == "assert":
        def f():
            assert False
        return f, ("err",)
    if spec == "badtype":
        return lambda: 5, ("err",)
    if spec == "badtuple":
        return lambda: ([], [], []), ("err",)
    if spec == "sur":      # a value that cannot be encoded, in row 2
        return lambda: ([(0, "a"), (1, "\ud800"), (2, "b")], TCOLS), ("part", 1, None)
    if spec == "surname":
        return lambda: ([(1,)], ["\ud800"]), ("part", 0)
    if spec == "unsup":
        return lambda: ([(1,)], [ResultColumn("z", ColumnType.NEWDATE)]), ("any", 0, None)
    n, _, w = spec[1:].partition("w")
    w = int(w or 0)
    if n[-1] in "EM":      # fails after n rows
        exc = ValueError("mid") if n[-1] == "E" else MysqlError("mid", ErrorCode.UNKNOWN_ERROR)
        n = int(n[:-1])

        def gen():
            for i in range(n):
                yield row(i, w)
            raise exc

        async def agen():
            for i in range(n):
                yield row(i, w)
            raise exc
        src = {"g": gen, "a": agen, "p": gen}[kind]
        if kind == "p":    # inference has to look past the failing row
            return lambda: ((( None, None) for r in src()), COLS), ("err",)
        return lambda: (src(), TCOLS), ("part", n)
    n = int(n)

    def gen():
        for i in range(n):
            yield row(i, w)

    async def agen():
        for i in range(n):
            yield row(i, w)
    if kind == "r":
        return lambda: ([row(i, w) for i in range(n)], COLS), ("rows", n, w)
    if kind == "t":
        return lambda: ([row(i, w) for i in range(n)], TCOLS), ("rows", n, w)
    if kind == "s":
        return lambda: ResultSet(rows=[row(i, w) for i in range(n)], columns=TCOLS), ("rows", n, w)
    if kind == "g":
        return lambda: (gen(), TCOLS), ("rows", n, w)
    if kind == "a":
        return lambda: (agen(), COLS), ("rows", n, w)
    if kind == "i":
        return lambda: (AIter([row(i, w) for i in range(n)]), TCOLS), ("rows", n, w)
    if kind == "j":
        return lambda: (AIterable([row(i, w) for i in range(n)]), COLS), ("rows", n, w)
    raise KeyError(spec)


class Sess(RecSession):
    async def handle_query(self, sql, attrs):
        if sql.startswith("@"):
            self._rec("handle_query", sql, dict(attrs))
            spec = sql[1:].split()[0]
            if spec == "slow":
                await self.world.gate("slow")
                return [(1, "x")], TCOLS
            return src_outcome(spec)[0]()
        return await RecSession.handle_query(self, sql, attrs)


class Info(BaseInfoSchema):
    """Application-provided catalog: answers the column query of COM_FIELD_LIST without sqlglot's executor."""

    async def query(self, expression):
        sql = expression.sql()
        rows = []
        if "'t'" in sql:
            rows = [("a", "int", "YES", None, None, None), ("b", "text", "YES", None, "dflt", None),
                    ("c", "int", "NO", None, "x" * 300, None)]
            if "'a'" in sql:
                rows = rows[:1]
        elif "'boom'" in sql:
            raise ValueError("catalog unavailable")
        elif "'many'" in sql:
            rows = [(f"c{i}", "int", "YES", None, None, None) for i in range(300)]
        elif "'half'" in sql:
            async def gen():
                yield ("a", "int", "YES", None, None, None)
                raise MysqlError("catalog failed half-way")
            return gen(), [ResultColumn(n, ColumnType.VARCHAR) for n in
                           ("Field", "Type", "Null", "Key", "Default", "Extra")]
        return rows, ["Field", "Type", "Null", "Key", "Default", "Extra"]


class TheApp(App):
    mode = ""
    real = False

    def on_use(self, s, db):
        if db == "bad":
            raise ValueError("no such db")

    def on_reset(self, s):
        if self.mode == "reset":
            raise MysqlError("reset failed")

    def schema(self, s):
        if not self.real:
            return Info()
        return {"db": {"t": {"a": "int", "b": "text", "c": "int"}, "u": {"x": "int"}}}


class Provider(IdentityProvider):
    def __init__(self):
        self.p = [NativePasswordAuthPlugin()]

    def get_plugins(self):
        return self.p

    async def get_user(self, u):
        return User(u, None, "mysql_native_password") if u != "bad" else None


SRC = ["none", "zero", "zrs", "zagen", "mys", "exc", "assert", "badtype", "badtuple", "sur", "surname", "unsup",
       "r0", "t0", "g0", "a0", "r1", "t3", "s2", "g3", "a3", "i2", "j2", "g0E", "g2E", "a1M", "a0E", "g3M", "p0E", "p3M"]

# tokens
SIMPLE = ["ping", "debug", "resetconn", "initdb:db", "initdb:bad", "initdb:", "fl:t", "fl:nosuch", "fl:t:%", "fl:t:a", "fl:boom", "fl:half", "fl:many",
          "prep0", "prep1", "prep3", "prepbad", "ex", "exc", "exunk", "f0", "f1", "f2", "f9", "funk", "rst", "rstunk",
          "rstfail", "cl", "clunk", "ld", "ldunk", "cu", "cubad", "cureset", "unk:05", "unk:00", "unk:1b", "unk:ff",
          "unk:1d", "quit", "sql:SELECT 1", "sql:SET autocommit=1", "sql:SELEC", "sql:", "sql:;", "sql:SELECT 1; SELECT 2, 3",
          "sql:SHOW VARIABLES LIKE 'version%'", "sql:SELECT a FROM x", "sql:BEGIN", "sql:KILL 99999",
          "sql:SET nosuch=1", "sql:SHOW STATUS", "sql:SELECT @@nosuch", "qbad"]
ALPHA = SIMPLE + ["q:" + s for s in SRC] + ["px:" + s for s in SRC] + ["pc:" + s for s in SRC]
MID = ["ping", "initdb:db", "initdb:bad", "fl:t", "prep0", "prep1", "ex", "exc", "f1", "f9", "rst", "cl", "ld", "ldunk",
       "cu", "cureset", "unk:05", "sql:SELECT 1", "sql:SELEC", "q:none", "q:g3", "q:g2E", "q:r0", "px:a3", "px:exc",
       "px:g2E", "pc:g3", "pc:g2E", "pc:none", "resetconn", "qbad", "quit"]
RED = ["ping", "fl:t", "prep1", "ex", "exc", "f2", "rst", "cl", "ld", "cu", "q:g3", "q:g2E", "px:a3", "pc:g3", "quit"]


def capsets():
    for n in range(len(OPTS) + 1):
        for sub in itertools.combinations(OPTS, n):
            c = wire.BASE_CAPS
            for f in sub:
                c |= f
            yield c


SIZES = [0, 1, 2, 120, 240, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 505, 506, 507, 508, 509,
         510, 511, 512, 513, 514, 515, 516, 764, 765, 766, 767, 768, 769, 770, 1022, 1023, 1024, 1025]


def cases(tier):
    out = []
    all_caps = list(capsets())
    four = [wire.BASE_CAPS | a | b for a in (0, wire.DEPRECATE_EOF) for b in (0, wire.QUERY_ATTRIBUTES)]
    for caps in all_caps:
        for extra in (0, UNSUPPORTED):
            for t in ALPHA:
                out.append(dict(caps=caps, extra=extra, prog=[t]))
        for t in ("fl:t", "fl:nosuch", "fl:t:a", "sql:SHOW TABLES FROM db", "sql:SHOW COLUMNS FROM t"):
            out.append(dict(caps=caps, extra=0, real=1, prog=[t]))
        for t in ALPHA:
            out.append(dict(caps=caps, extra=wire.OPTIONAL_METADATA, opt=1, prog=[t]))
    for caps in all_caps:
        for extra in (0, UNSUPPORTED):
            if extra and caps not in four and tier == "quick":
                continue
            full = caps in four and not extra
            for a in (ALPHA if full else MID):
                for b in (SIMPLE if full else MID):
                    out.append(dict(caps=caps, extra=extra, prog=[a, b]))
    for caps in four:
        for p in itertools.product(RED, repeat=3):
            out.append(dict(caps=caps, extra=0, prog=list(p)))
        for p in itertools.product(RED, repeat=2):
            out.append(dict(caps=caps, extra=wire.OPTIONAL_METADATA, opt=1, prog=list(p)))
        for n in SIZES:
            for k in ("q:r", "q:g", "q:a", "px:g", "px:a", "px:r"):
                out.append(dict(caps=caps, extra=0, prog=[f"{k}{n}", "ping"]))
            for k in ("q:g", "px:g"):
                out.append(dict(caps=caps, extra=0, prog=[f"{k}{n}E", "ping"]))
            out.append(dict(caps=caps, extra=0, prog=[f"pc:g{n}", f"f{n}", f"f{n}", "ping"]))
            for w in (100, 130, 3000):
                out.append(dict(caps=caps, extra=0, prog=[f"q:g{n}w{w}", "ping"]))
                out.append(dict(caps=caps, extra=0, prog=[f"px:g{n}w{w}", "ping"]))
        for nc in (1, 2, 5, 6, 7, 14, 250, 251, 252, 253, 254, 255, 256, 300):
            for proto in ("q", "px", "pc"):
                out.append(dict(caps=caps, extra=0, wide=nc, prog=[proto + ":wide", "f3" if proto == "pc" else "ping",
                                                                   "ping"]))
        for np in (1, 2, 250, 251, 255, 256, 257, 1000):
            out.append(dict(caps=caps, extra=0, prog=[f"prep{np}", "ex", "ping", "cl"]))
    for caps in four:
        for T in (0.3, 1.5, 6, 11, 31, 61, 301, 601, 1801, 3601):
            out.append(dict(caps=caps | wire.CONNECT_WITH_DB, slow=T))
    # connections that live long
    for i, t in enumerate(ALPHA):
        if t not in ("quit", "cubad"):
            n = 1100 if tier == "quick" else 5000 if t.startswith(("prep", "px", "pc")) else 20000
            out.append(dict(caps=four[i % 4], extra=0, prog=[t], rep=n // 4 if t.startswith(("sql:", "fl:")) and t not in ("sql:SELECT 1", "fl:t") else n))
            out.append(dict(caps=four[(i + 1) % 4], extra=0, prog=[t, "q:g2E", "sql:SELECT 1"], rep=120))
    if tier == "thorough":
        for caps in four:
            for p in itertools.product(MID + ["q:r0", "px:zero", "q:sur", "px:sur"], repeat=3):
                out.append(dict(caps=caps, extra=0, prog=list(p)))
            for p in itertools.product(RED, repeat=4):
                out.append(dict(caps=caps, extra=0, prog=list(p)))
        for caps in all_caps:
            for a in ALPHA:
                for b in ALPHA:
                    out.append(dict(caps=caps, extra=0, prog=[a, b]))
    return out


class Stmt:
    def __init__(self, sid, spec, np):
        self.id, self.spec, self.np = sid, spec, np
        self.cursor = None      # (cols, remaining expectation)
        self.pos = 0


class Driver:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx

    def run(self):
        case = self.case
        app = TheApp()
        app.real = bool(case.get("real"))
        self.wide = case.get("wide")
        kw = {}
        if case.get("opt"):
            kw["capabilities"] = DEFAULT_SERVER_CAPABILITIES | Capabilities.CLIENT_OPTIONAL_RESULTSET_METADATA
        cls = Sess
        if self.wide:
            n = self.wide

            class Wide(Sess):
                async def handle_query(self, sql, attrs):
                    return [tuple(None if (i + j) % 3 == 0 else i for i in range(n)) for j in range(3)], \
                        [ResultColumn(f"c{i}", ColumnType.LONG) for i in range(n)]
            cls = Wide
        with World(cls, app=app, identity_provider=Provider(), **kw) as w:
            self.w, self.app = w, app
            self.c = c = w.connect()
            extra = case["extra"]
            caps = case["caps"]
            r = c.login("u", caps=caps | (extra if case.get("opt") else 0),
                        db="db" if caps & wire.CONNECT_WITH_DB else None,
                        attrs={b"k": b"v", b"_pid": b"1"}, extra_caps=extra)
            check(isinstance(r, wire.OK), "login refused: %r", r)
            if case.get("opt"):
                check(c.caps & wire.OPTIONAL_METADATA, "capability not negotiated")
            self.quiet("login")
            self.stmts = []
            self.odd = False
            self.db = "db" if caps & wire.CONNECT_WITH_DB else None
            done = False
            shape = []
            rep = case.get("rep", 1)
            for k, tok in enumerate(case["prog"] * rep):
                done, res = self.step(tok)
                self.ctx.transition()
                self.ctx.state((caps, extra, tuple(case["prog"][:k + 1]) if rep == 1 else (tok, k)))
                if rep == 1:
                    shape.append((tok, res.kind if res else None, len(res.cols) if res else 0,
                              len(res.rows) if res else 0, bool(res and res.failed)))
                self.quiet(tok)
                if done:
                    break
            if done:
                check(c.closed, "connection not closed after %s", tok)
            else:
                check(not c.closed, "connection closed after %s", tok)
                c.ping()
                self.quiet("final ping")
            self.ctx.trace()
            self.ctx.outcome((caps, extra, tuple(shape)))
            if len(shape) == 3 and shape[0][1] == "rows":
                self.ctx.sample(dict(case=case, shape=shape), cap=1)

    def quiet(self, what):
        self.w.settle(10)
        if self.c.unread():
            raise Violation(f"unsolicited bytes after {what}: {self.c.packets(False)!r}")

    def expect(self, res, exp, what):
        k = exp[0]
        got = res.kind
        if k == "ok":
            check(got == "ok", "%s: expected OK, got %r", what, res)
        elif k == "err":
            check(got == "err", "%s: expected ERR, got %r", what, res)
        elif k == "rows":
            check(got == "rows" and not res.failed, "%s: expected a result set, got %r", what, res)
            self.rows(res, exp, 0, what)
            check(len(res.rows) == exp[1], "%s: %d rows instead of %d", what, len(res.rows), exp[1])
        elif k == "part":
            check(res.failed, "%s: expected a failure, got %r", what, res)
            check(len(res.rows) <= exp[1], "%s: %d rows before the failure, at most %d exist", what, len(res.rows),
                  exp[1])
        elif k == "any":
            pass

    def rows(self, res, exp, start, what):
        if exp[2:] == (None,):
            return
        if self.wide:
            check(len(res.cols) == self.wide, "%s: %d columns", what, len(res.cols))
            return
        check([c.name for c in res.cols] == [b"a", b"b"], "%s: columns %r", what, res.cols)
        w = exp[2] if len(exp) > 2 else 0
        for i, r in enumerate(res.rows):
            a, b = row(start + i, w)
            check(int(r[0]) == a and r[1] == (b.encode() if b is not None else None), "%s: row %d is %r", what,
                  start + i, r)

    def outcome(self, spec):
        if spec == "wide":
            return ("rows", 3)
        return src_outcome(spec)[1]

    def step(self, tok):
        """-> (connection must be closed now, Result or None)"""
        c = self.c
        name, _, arg = tok.partition(":")
        if name == "ping":
            return False, c.ping()
        if name == "debug":
            return False, self.must(c.cmd(wire.COM_DEBUG), ("ok",), tok)
        if name == "resetconn":
            return False, self.must(c.cmd(wire.COM_RESET_CONNECTION), ("ok",), tok)
        if name == "initdb":
            self.odd = arg != "db"
            return False, self.must(c.cmd(wire.com_init_db(arg)), ("err",) if arg == "bad" else ("any",), tok)
        if name == "fl":
            t, _, pat = arg.partition(":")
            r = c.cmd(wire.com_field_list(t.encode(), pat.encode()))
            if r.kind == "err":
                check(t in ("boom", "half"), "%s failed: %r", tok, r)
            else:
                check(t != "boom", "%s: %r", tok, r)
                names = [x.name for x in r.cols]
                want = {"t": [b"a", b"b", b"c"], "many": [b"c%d" % i for i in range(300)]}.get(t, [])
                if t == "half":
                    check(r.failed and names in ([], [b"a"]), "%s: %r", tok, r)
                    return False, r
                if t == "t" and not pat and not self.app.real:
                    check([x.default or b"" for x in r.cols] == [b"", b"dflt", b"x" * 300], "%s: defaults %r", tok,
                          [x.default for x in r.cols])
                if pat == "a":
                    want = [b"a"] if want else []
                check((names == want or self.odd) and not r.failed, "%s: columns %r", tok, r)
            return False, r
        if name == "sql":
            r = c.query(arg)
            if arg in ("SELEC", "SET nosuch=1", "SELECT @@nosuch"):
                if arg != "SELEC":
                    self.must(r, ("err",), tok)
            elif arg == "SELECT 1":
                check(r.kind == "rows" and r.rows == [[b"1"]], "%s: %r", tok, r)
            elif arg.startswith("SELECT 1;"):
                check(r.kind == "rows" and r.rows == [[b"2", b"3"]], "%s: %r", tok, r)
            return False, r
        if name == "qbad":     # text that is not valid in the client character set
            return False, self.must(c.cmd(wire.com_query(b"SELECT '\xff\xfe'", c.caps), "query"), ("err",), tok)
        if name == "q":
            r = c.query("@" + arg)
            return False, self.must(r, self.outcome(arg), tok)
        if name in ("px", "pc"):
            s = self.prepare(arg, 0)
            return False, self.execute(s, name == "pc", tok)
        if name == "prepbad":
            return False, self.must(c.prepare(b"SELECT '\xff\xfe'"), ("err",), tok)
        if name.startswith("prep"):
            self.prepare("g3", int(name[4:]))
            return False, None
        if name in ("ex", "exc"):
            if not self.stmts:
                return False, self.must(c.execute(7), ("err",), tok)
            return False, self.execute(self.stmts[-1], name == "exc", tok)
        if name == "exunk":
            return False, self.must(c.execute(12345), ("err",), tok)
        if name == "funk":
            return False, self.must(c.fetch(12345, 3, []), ("err",), tok)
        if name[0] == "f" and name[1:].isdigit():
            n = int(name[1:])
            s = self.stmts[-1] if self.stmts else None
            if s is None or s.cursor is None:
                return False, self.must(c.fetch(s.id if s else 7, n, []), ("err",), tok)
            cols, exp = s.cursor
            r = c.fetch(s.id, n, cols)
            check(len(r.rows) <= n, "%s: %d rows", tok, len(r.rows))
            if r.kind == "err":
                check(exp[0] in ("part", "any"), "%s failed: %r", tok, r)
                s.cursor = None
                return False, r
            self.rows(r, exp, s.pos, tok)
            s.pos += len(r.rows)
            if exp[0] == "rows":
                check(not r.failed and s.pos <= exp[1], "%s: %r", tok, r)
            else:
                check(s.pos <= exp[1], "%s: %r", tok, r)
                if r.failed:
                    s.cursor = None
            return False, r
        if name == "rst":
            s = self.stmts[-1] if self.stmts else None
            r = c.cmd(wire.com_reset(s.id if s else 7))
            self.must(r, ("ok",) if s else ("err",), tok)
            if s:
                s.cursor = None
            return False, r
        if name == "rstunk":
            return False, self.must(c.cmd(wire.com_reset(999)), ("err",), tok)
        if name == "rstfail":
            s = self.stmts[-1] if self.stmts else self.prepare("g3", 0)
            self.app.mode = "reset"
            r = c.cmd(wire.com_reset(s.id))
            self.app.mode = ""
            check(r.kind in ("ok", "err"), "%s: %r", tok, r)
            s.cursor = None
            return False, r
        if name == "cl":
            c.silent(wire.com_close(self.stmts[-1].id if self.stmts else 7))
            if self.stmts:
                self.stmts.pop()
            return False, None
        if name == "clunk":
            c.silent(wire.com_close(0xFFFFFFFF))
            return False, None
        if name == "ld":
            c.silent(wire.com_long_data(self.stmts[-1].id if self.stmts else 7, 0, b"chunk"))
            return False, None
        if name == "ldunk":
            c.silent(wire.com_long_data(0xFFFFFFF0, 0, b"chunk"))
            return False, None
        if name == "cu":
            r = c.change_user("v", db="db")
            check(isinstance(r, wire.OK), "%s: %r", tok, r)
            self.odd = False
            return False, None
        if name == "cubad":
            r = c.change_user("bad", db="db")
            check(isinstance(r, wire.ERR), "%s: %r", tok, r)
            return True, None
        if name == "cureset":
            self.app.mode = "reset"
            r = c.change_user("v", db="db")
            self.app.mode = ""
            check(isinstance(r, (wire.OK, wire.ERR)), "%s: %r", tok, r)
            self.quiet(tok)
            return c.closed and isinstance(r, wire.ERR), None
        if name == "unk":
            return False, self.must(c.cmd(bytes.fromhex(arg) + b"xyz", "ok"), ("err",), tok)
        if name == "quit":
            c.send(wire.COM_QUIT)
            self.w.run()
            return True, None
        raise KeyError(tok)

    def must(self, res, exp, what):
        self.expect(res, exp, what)
        return res

    def prepare(self, spec, np):
        r = self.c.prepare(f"@{spec} " + ",".join("?" * np))
        check(r.kind == "prepare" and r.num_params == np, "prepare: %r", r)
        s = Stmt(r.stmt_id, spec, np)
        check(all(x.id != s.id for x in self.stmts), "statement id %d reused", s.id)
        self.stmts.append(s)
        return s

    def execute(self, s, cursor, tok):
        exp = self.outcome(s.spec)
        r = self.c.execute(s.id, [(b"", "LONG", False, 1)] * s.np, cursor=cursor)
        s.cursor, s.pos = None, 0
        if cursor and exp[0] in ("rows", "part", "any"):
            if exp[0] in ("part", "any") and r.failed:
                return r
            # the server may also ignore the cursor request and send the rows at once
            if r.kind == "cursor":
                if not self.wide:
                    check(len(r.cols) in (1, 2), "%s: columns %r", tok, r.cols)
                s.cursor = (r.cols, exp)
                return r
        return self.must(r, exp, tok)


class SlowProvider(Provider):
    async def get_user(self, u):
        import asyncio
        await asyncio.sleep(self.T)
        return await Provider.get_user(self, u)


def run_slow(case, ctx):
    """Every callback of the application, every row, and the client between two commands take time T."""
    import asyncio
    T = case["slow"]

    async def rest(*a):
        await asyncio.sleep(T)

    async def rows(n, fail=False):
        for i in range(n):
            await asyncio.sleep(T)
            yield (i, f"v{i}") if i else (None, None)
        await asyncio.sleep(T)
        if fail:
            raise MysqlError("failed half-way")

    class Slow(App):
        on_init = on_reset = on_use = on_close = rest

        async def query(self, s, e, sql, attrs):
            await asyncio.sleep(T)
            what = sql.split("#")[1]
            if what == "err":
                raise MysqlError("failed")
            return {"none": None, "names": (rows(3), ["a", "b"]), "typed": (rows(3), TCOLS), "empty": (rows(0), TCOLS),
                    "half": (rows(2, True), TCOLS)}[what]

        async def schema(self, s):
            await asyncio.sleep(T)
            return {"db": {"t": {"a": "int", "b": "text"}}}

    prov = SlowProvider()
    prov.T = T
    with World(RecSession, app=Slow(), identity_provider=prov) as w:
        w.patient = True
        c = w.login(caps=case["caps"], db="db")

        def step(r, kind, n=0):
            check(r.kind == kind, "answered %r instead of %s when everything takes %s s", r, kind, T)
            if kind in ("rows", "fetch") and n is not None:
                check(not r.failed and len(r.rows) == n, "answered %r when everything takes %s s", r, T)
            check(not c.closed, "connection closed")
            w.settle(T)
            if c.unread():
                raise Violation(f"unsolicited bytes: {c.packets(False)!r}")
            ctx.transition()
            ctx.state((case["caps"], T, r.kind, n))
            return r
        for _ in range(2):
            for what, kind, n in (("none", "ok", 0), ("names", "rows", 3), ("typed", "rows", 3), ("empty", "rows", 0),
                                  ("err", "err", 0), ("half", "rows", None)):
                r = step(c.query(f"SELECT a FROM x #{what}#"), kind, n)
                check(what != "half" or r.failed and len(r.rows) <= 2, "a failing row source answered with %r", r)
                p = step(c.prepare(f"SELECT b FROM x #{what}#"), "prepare")
                r = step(c.execute(p.stmt_id), kind, n)
                check(what != "half" or r.failed and len(r.rows) <= 2, "a failing row source answered with %r", r)
                r = c.execute(p.stmt_id, cursor=True)
                if r.kind == "cursor":
                    got = 0
                    for k in (1, 0, 1, 5):
                        f = c.fetch(p.stmt_id, k, r.cols)
                        check(f.kind == "err" or f.failed if what == "half" and k == 5 else f.kind == "fetch" and not f.failed,
                              "fetch answered %r", f)
                        got += len(f.rows)
                    check(n is None or got == n, "%d rows fetched, not %s", got, n)
                else:
                    step(r, kind, n)
                step(c.cmd(wire.com_reset(p.stmt_id)), "ok")
                c.silent(wire.com_close(p.stmt_id))
            step(c.cmd(wire.com_init_db(b"db")), "ok")
            step(c.query("USE db"), "ok")
            step(c.query("SHOW TABLES"), "rows", 1)
            step(c.cmd(wire.com_field_list(b"t", b"%")), "fields")
            step(c.ping(), "ok")
            r = c.change_user("v", db="db")
            check(isinstance(r, wire.OK), "COM_CHANGE_USER answered with %r when everything takes %s s", r, T)
        n = len(w.calls("close"))
        c.send(wire.COM_QUIT)
        w.run()
        check(c.closed and not c.unread(), "the connection isn't closed")
        check((n, len(w.calls("close"))) == (0, 1), "session closed %d times", len(w.calls("close")))
        check(not w.cut_closes, "close() interrupted")
        ctx.trace()
        ctx.outcome(repr(case))


def run_case(case, ctx):
    if "slow" in case:
        return run_slow(case, ctx)
    Driver(case, ctx).run()
