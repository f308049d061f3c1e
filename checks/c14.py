"""C14: system variables form a typed, scoped store that clients cannot corrupt."""
import datetime as dt
import itertools
import re

from harness import wire
from harness.world import World, RecSession, check

from mysql_mimic.errors import MysqlError
from mysql_mimic.variables import GlobalVariables, SessionVariables, SYSTEM_VARIABLES

ID = "C14"
LEVEL = "model_checking"
GC_EVERY = 10
RULE = ("one execution = (statement history, transport); after every statement every variable, read with SHOW VARIABLES and @@, must have the value of "
        "a reference store (dict of typed values); during a statement with hints the application must see the store overlaid with its assignments")
BOUNDS = {
    "quick": "every variable x 33-75 values, and x 13 spellings x 2 transports x 9-17 values, each followed by reads of all variables; all histories of 2 statements over 46 and of 3 over 14 kinds; "
             "all hint lists of <=3 assignments over 11 x 11 statement forms x 5 endings; 30 time zones x 5 ways of selecting them x 12 clock functions",
    "thorough": "all histories of 3 statements over 46 and of 4 over 14 kinds; all pairs of values per variable, all spellings by two transports; hint lists of <=3 in nested pairs",
}
ASSUMPTIONS = ["values of the wrong type are either coerced as stated in `expected` or rejected; a rejected SET changes nothing (the assignments preceding the "
               "rejected one in the same statement may remain)",
               "names of unknown or read-only variables in hints either fail the statement or are ignored",
               "clock functions are compared with the wall clock (interval around the command)"]
F = wire.FULL_CAPS
READONLY = ["version", "external_user", "license", "performance_schema", "system_time_zone", "version_comment"]
BOOLS = ["autocommit", "sql_auto_is_null", "transaction_read_only"]
INTS = ["auto_increment_increment", "interactive_timeout", "lower_case_table_names", "max_allowed_packet", "max_execution_time", "net_buffer_length",
        "net_write_timeout", "sql_select_limit", "wait_timeout"]
CHARSETS = ["character_set_client", "character_set_connection", "character_set_database", "character_set_results", "character_set_server"]
COLLS = ["collation_connection", "collation_database", "collation_server"]
STRS = ["init_connect", "sql_mode", "transaction_isolation", "event_scheduler", "default_storage_engine", "default_tmp_storage_engine"]
ALL = sorted(READONLY + BOOLS + INTS + CHARSETS + COLLS + STRS + ["time_zone"])
ERR = "ERR"         # the statement fails, nothing changes
TRUES = ("1", "True", "ON", "true", "TRUE")
FALSES = ("0", "False", "OFF", "false", "FALSE")


def kind_of(name):
    for k, names in (("ro", READONLY), ("bool", BOOLS), ("int", INTS), ("charset", CHARSETS), ("coll", COLLS), ("tz", ["time_zone"])):
        if name in names:
            return k
    return "str"


# literal -> python value
LITERALS = {"0": 0, "1": 1, "7": 7, "TRUE": True, "FALSE": False, "true": True, "False": False, "ON": True, "OFF": False, "on": True, "Off": False, "1.5": 1.5,
            "4294967296": 1 << 32, "18446744073709551615": (1 << 64) - 1, "'x'": "x", "''": "", "'ON'": "ON", "'OFF'": "OFF", "'on'": "on", "'off'": "off",
            "'true'": "true", "'false'": "false", "'0'": "0", "'1'": "1", "'12'": "12", "'abc'": "abc", "'1.5'": "1.5", "\"dq\"": "dq", "'it''s'": "it's",
            "'a\\\\b'": "a\\b", "'a\\nb'": "a\nb", "'%_'": "%_", "'é😀'": "é😀", "'NULL'": "NULL", "'DEFAULT'": "DEFAULT", "'" + "z" * 300 + "'": "z" * 300,
            "NULL": None, "null": None, "DEFAULT": None, "Default": None, "-1": -1, "'a b'": "a b", "'-1'": "-1", "1e3": 1000.0}
CSNAMES = ["latin1", "utf8", "utf8mb4", "big5", "cp1251", "ascii", "gbk", "UTF8MB4", "Latin1", "utf8mb3", "binary", "dec8", "bogus", "utf-8", "utf_8_sig", "hex", "rot13",
           "swe7", "keybcs2", "armscii8", "geostd8", "utf8mb4_general_ci", "idna", "punycode", "unicode_escape", "base64", "raw_unicode_escape", "utf7"]
COLLNAMES = ["latin1_swedish_ci", "utf8mb4_bin", "big5_chinese_ci", "bogus", "UTF8MB4_BIN", "utf8mb4", "binary"]
ZONES = ["UTC", "utc", "+00:00", "-00:00", "+05:30", "-11:45", "+12:00", "+13:59", "-13:59", "+14:00", "-00:30", "+01:00", "-05:00"]
BADZONES = ["whoops", "", "+5", "+5:00", "5:00", "+05:30x", "+99:99", "+24:00", "-24:00", "+05:60", "Europe/Paris", "SYSTEM", "+05:30\n", " +05:30", "+0530", "UTC+1", "Z",
            "٠٥:٣٠", "+٠٥:٣٠", "GMT"]


FEW = ["1", "'0'", "OFF", "'on'", "DEFAULT", "NULL", "7", "'12'", "'x'", "'latin1'", "'UTF8MB4'", "'bogus'", "'dec8'", "'utf8mb4_bin'", "'+05:30'", "'+99:99'", "'whoops'"]


def show(v):
    """All renderings of a typed value."""
    if v is None:
        return {None}
    if v is True:
        return set(TRUES)
    if v is False:
        return set(FALSES)
    return {str(v)}


def expected(name, default, value):
    """-> (set of acceptable renderings, whether rejecting is acceptable, whether accepting is)"""
    k = kind_of(name)
    if k == "ro":
        return set(), True, False
    if value is None:
        return show(default), False, True
    if k == "bool":
        if isinstance(value, str):
            if value.upper() in ("ON", "TRUE", "1"):
                return set(TRUES), value.upper() != "ON", True
            if value.upper() in ("OFF", "FALSE", "0"):
                return set(FALSES), value.upper() != "OFF", True
            if value == "":
                return set(FALSES), True, True
            return set(TRUES), True, True
        return show(bool(value)), value not in (0, 1), True
    if k == "int":
        if isinstance(value, bool):
            return show(int(value)), True, True
        if isinstance(value, int):
            return show(value) | ({"0"} if value < 0 else set()), value < 0, True
        if isinstance(value, float):
            return {str(int(value)), str(round(value))}, True, True
        if re.fullmatch(r"-?\d+", value):
            return {value} | ({"0"} if value[0] == "-" else set()), True, True
        return set(), True, False
    # strings
    if isinstance(value, bool):
        vals = set(TRUES if value else FALSES)
        return vals, k != "str" or name != "event_scheduler", True
    s = {str(value)}
    if isinstance(value, float) and value == int(value):
        s |= {str(int(value)), "1e3"}
    if k == "str":
        return s, not isinstance(value, str), True
    if k in ("charset", "coll"):
        s |= {str(value).lower()}
        if value == "utf8mb3":
            s.add("utf8")
        good = value in ("latin1", "utf8", "utf8mb4", "big5", "cp1251", "ascii", "gbk") if k == "charset" else \
            value in ("latin1_swedish_ci", "utf8mb4_bin", "big5_chinese_ci")
        return s, not good, True
    if k == "tz":
        return s, value not in ZONES[2:11] + ["UTC", "+01:00", "-05:00"] or value == "-00:00", True
    return s, True, True


class AppV:
    def __init__(self):
        self.seen = []
        self.want_all = False

    def query(self, s, e, sql, attrs):
        text = e.sql(dialect="mysql")
        vals = {n: s.variables.get(n) for n in ALL}
        self.seen.append((text, vals))
        if "boomrow" in text:
            async def rows():
                yield (1,)
                raise MysqlError("boom", code=1234)
            return rows(), ["m"]
        if "boompy" in text:
            raise RuntimeError("boom")
        if "boom" in text:
            raise MysqlError("boom", code=1234)
        if "waitgate" in text:
            async def wait():
                await s.world.gate("q")
                return [(1,)], ["m"]
            return wait()
        return [("app",)], ["m"]

    def schema(self, s):
        return {"db1": {"t": {"a": "INT"}}}


def text_of(b):
    return None if b is None else bytes(b).decode("utf-8", "surrogateescape")


class Run:
    """Reference store of one session."""

    def __init__(self, ctx, like=None):
        """like: run to share the world with, as another session"""
        self.ctx = ctx
        if like:
            like.c.t.feed_eof()
            like.w.run()
            like.w.clients.clear()
            like.w.log.clear()
            for x in ("app", "w", "bystander", "base", "default", "defaults"):
                setattr(self, x, getattr(like, x))
            self.c = self.w.login(caps=F)
            self.store = dict(self.defaults)
            return
        self.app = AppV()
        self.w = World(app=self.app)
        self.bystander = self.w.login(user="o", caps=F)
        self.c = self.w.login(caps=F)
        self.base = self.read_all(self.bystander)
        self.default = {}
        for n in ALL:
            check(n in self.base, "SHOW VARIABLES doesn't list %s", n)
            v = self.base[n]
            k = kind_of(n)
            self.default[n] = None if v is None else (v in TRUES) if k == "bool" else int(v) if k == "int" else v
        self.store = {n: show(v) for n, v in self.default.items()}
        self.store["external_user"] = {"u"}
        self.defaults = dict(self.store)
        self.verify("at the start")

    def close(self):
        self.w.close()

    def q(self, sql, transport="query", conn=None):
        c = conn or self.c
        self.ctx.transition()
        if transport == "query":
            return c.query(sql)
        p = c.prepare(sql)
        if p.kind == "err":
            return p
        r = c.execute(p.stmt_id)
        if r.kind == "rows":
            r.rows = [[None if v is None else str(wire.binary_to_py(v, col.type)).encode() if not isinstance(wire.binary_to_py(v, col.type), bytes)
                       else wire.binary_to_py(v, col.type) for v, col in zip(row, r.cols)] for row in r.rows]
        c.silent(wire.com_close(p.stmt_id))
        return r

    def read_all(self, conn=None, form="SHOW VARIABLES"):
        r = self.q(form, conn=conn)
        check(r.kind == "rows", "%s answered with %s", form, r)
        names = [text_of(row[0]) for row in r.rows]
        check(len(set(names)) == len(names), "%s lists a variable twice: %s", form, names)
        return {text_of(row[0]): text_of(row[1]) for row in r.rows}

    def verify(self, where, full=False):
        """All variables have the values of the store."""
        got = self.read_all()
        for n in ALL:
            check(got.get(n) in self.store[n], "%s: SHOW VARIABLES gives %s = %r, expected %s", where, n, got.get(n), sorted(self.store[n], key=str))
            self.store[n] = self.same(n, got[n])
        if full:
            for form in ("@@%s", "@@SESSION.%s") if full is True else (full,):
                r = self.q("SELECT " + ", ".join(form % n for n in ALL))
                check(r.kind == "rows" and len(r.rows) == 1, "%s: reading all variables as %s answered with %s", where, form, r)
                for n, v in zip(ALL, r.rows[0]):
                    check(text_of(v) in self.store[n], "%s: SELECT %s gives %r, expected %s", where, form % n, text_of(v), sorted(self.store[n], key=str))

    def same(self, n, v):
        """renderings of the value v"""
        if kind_of(n) == "str":
            return {v}
        if v is not None and self.store[n] & set(TRUES) and v in TRUES and (kind_of(n) == "bool" or len(self.store[n]) > 1):
            return set(TRUES)
        if v is not None and v in FALSES and (kind_of(n) == "bool" or n == "performance_schema" or len(self.store[n]) > 1):
            return set(FALSES)
        return {v}

    def alive(self, where):
        r = self.q("SELECT 1")
        check(r.kind == "rows" and r.rows == [[b"1"]], "%s: SELECT 1 answered with %s", where, r)
        r = self.q("SELECT a FROM t", "execute")
        check(r.kind == "rows" and r.rows == [[b"app"]], "%s: a query of the application answered with %s", where, r)
        r = self.q("SELECT boom FROM t")
        check(r.kind == "err" and r.err.code == 1234, "%s: an application error arrived as %s", where, r)
        r = self.q("SHOW DATABASES")
        check(r.kind == "rows" and [b"db1"] in [list(map(bytes, x)) for x in r.rows], "%s: SHOW DATABASES answered with %s", where, r)

    def bystanders(self, where):
        got = self.read_all(self.bystander)
        check(got == self.base, "%s: variables of another session changed: %s", where,
              {n: (self.base.get(n), got.get(n)) for n in set(got) | set(self.base) if got.get(n) != self.base.get(n)})

    def assign(self, name, value, sql, transport="query"):
        """One statement assigning value to name."""
        r = self.q(sql, transport)
        acc, may_fail, may_pass = expected(name, self.default[name], value)
        if r.kind == "err":
            check(may_fail, "%r was rejected: %s", sql, r.err)
        else:
            check(r.kind == "ok", "%r answered with %s", sql, r)
            check(may_pass, "%r was accepted", sql)
            self.store[name] = acc
        return r

    def reset_var(self, name):
        if kind_of(name) != "ro":
            self.q("SET %s = DEFAULT" % name)
            self.store[name] = self.defaults[name]


SPELL = ["SET {n} = {v}", "SET SESSION {n} = {v}", "SET LOCAL {n} = {v}", "SET @@{n} = {v}", "SET @@SESSION.{n} = {v}", "SET @@LOCAL.{n} = {v}", "set {N} = {v}",
         "SET @@session.{N} = {v}", "SET `{n}` = {v}", "SET session `{n}` = {v}", "/* c */ SET  {n}={v} ;", "SET Session {Nn} = {v}", "SET\n@@Local.{n}\n=\n{v}"]
# other scopes: any answer, nothing changes in this session; ':=' and other forms may be rejected
OTHER = ["SET GLOBAL {n} = {v}", "SET @@GLOBAL.{n} = {v}", "SET PERSIST {n} = {v}", "SET @@PERSIST_ONLY.{n} = {v}", "SET @{n} = {v}", "SET global {N} = {v}", "SET @@global.{n} = {v}"]
READS = ["SELECT @@{n}", "SELECT @@SESSION.{n}", "SELECT @@local.{n}", "select @@{N}", "SELECT @@session.{N} AS x", "SELECT 1, @@{n}", "SELECT @@`{n}`", "SELECT @@{n} LIMIT 1"]


def values_of(name):
    out = [(l, v) for l, v in LITERALS.items()]
    k = kind_of(name)
    if k in ("charset", "ro"):
        out += [("'%s'" % c, c) for c in CSNAMES] + [("DEFAULT", None)]
    if k in ("coll", "ro"):
        out += [("'%s'" % c, c) for c in COLLNAMES]
    if k in ("tz", "ro"):
        out += [("'%s'" % z.replace("\n", "\\n"), z) for z in ZONES + BADZONES]
    if k in ("charset",):
        # identifiers that aren't strings
        out = [x for x in out if x[1] is None or x[0] not in ("'é😀'",)] + [("'é😀'", "é😀")]
    return out


def fill(s, n, v=""):
    return s.replace("{n}", n).replace("{N}", n.upper()).replace("{Nn}", n.title()).replace("{v}", v)


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in ALL:
        for s in range(len(SPELL)):
            out.append(dict(k="single", n=n, s=s, tr="query", full=th or s == 0))
            if th or s < 2:
                out.append(dict(k="single", n=n, s=s, tr="execute", full=th))
        out.append(dict(k="other", n=n))
        out.append(dict(k="reads", n=n))
        if th:
            for i in range(len(values_of(n))):
                out.append(dict(k="pair", n=n, i=i))
    out += [dict(k="copy", n=n) for n in ALL]
    out += [dict(k="names", lo=lo, hi=lo + 8, few=not th and lo >= 40) for lo in range(0, len(NAMES), 8)]
    out += [dict(k="trans"), dict(k="unknown"), dict(k="version"), dict(k="custom")]
    full = range(len(STMTS))
    for f in full:
        out.append(dict(k="hist", n=2, first=[f], al="full"))
    for f in itertools.product(full if th else range(len(SHORT)), repeat=2):
        out.append(dict(k="hist", n=3, first=list(f), al="full" if th else "short"))
    if th:
        for f in itertools.product(range(len(SHORT)), repeat=2):
            out.append(dict(k="hist", n=4, first=list(f), al="short"))
    for form in range(len(FORMS)):
        for end in range(len(ENDS)):
            for n in (1, 2, 3):
                for first in range(len(HINTS)) if n == 3 else [None]:
                    if not th and (n == 3 and ((form + end) % 6 or form in (4, 9)) or n > 1 and form == 7 and end):
                        continue
                    out.append(dict(k="hints", form=form, end=end, n=n, first=first))
    for form in range(len(NESTED)):
        for n in (1, 2) if th else (1,):
            for first in range(len(HINTS)) if n == 2 else [None]:
                out.append(dict(k="nested", form=form, n=n, first=first))
    out += [dict(k="killhint", i=i) for i in range(len(HINTS))]
    for w in range(len(TZWAYS)):
        out.append(dict(k="clock", w=w))
    return out


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


def k_single(case, ctx):
    name, sp = case["n"], SPELL[case["s"]]
    run = Run(ctx)
    try:
        more = [("'" + "q" * 70000 + "'", "q" * 70000)] if case["s"] == 0 and case["tr"] == "query" else []
        for lit, val in values_of(name) + more:
            if not case["full"] and lit not in FEW:
                continue
            sql = fill(sp, name, lit)
            r = run.assign(name, val, sql, case["tr"])
            run.verify("after %r" % sql)
            if case["s"] == 0:
                run.alive("after %r" % sql)
            if case["s"] == 0:
                run.verify("after %r" % sql, full="@@%s")
            ctx.state((name, lit, case["s"], case["tr"], r.kind))
            ctx.outcome((kind_of(name), type(val).__name__, r.kind))
        run.bystanders("after assigning %s" % name)
        run.reset_var(name)
        run.verify("after SET %s = DEFAULT" % name, full=True)
        late = run.w.login(caps=F, user="u2")
        got = run.read_all(late)
        want = dict(run.base, external_user="u2")
        check(got == want, "a new session's variables %s differ from the defaults %s", got, want)
        ctx.trace()
    finally:
        run.close()


def k_pair(case, ctx):
    """Every pair of values, the first one given by case."""
    name = case["n"]
    vals = values_of(name)
    run = Run(ctx)
    try:
        l1, v1 = vals[case["i"]]
        for l2, v2 in vals:
            run.assign(name, v1, fill(SPELL[0], name, l1))
            run.assign(name, v2, fill(SPELL[3], name, l2))
            run.verify("after SET %s = %s, then %s" % (name, l1, l2))
            ctx.state((name, l1, l2))
        run.alive("at the end")
        ctx.trace()
    finally:
        run.close()


def k_other(case, ctx):
    name = case["n"]
    run = Run(ctx)
    try:
        for sp in OTHER:
            for lit in ("'x'", "1", "DEFAULT", "'latin1'", "'+05:00'"):
                sql = fill(sp, name, lit)
                r = run.q(sql)
                check(r.kind in ("ok", "err"), "%r answered with %s", sql, r)
                run.verify("after %r" % sql)
                ctx.state((name, sp, lit, r.kind))
        run.alive("after other scopes")
        run.bystanders("after SET GLOBAL")
        ctx.trace()
    finally:
        run.close()


def k_reads(case, ctx):
    """All forms of reading agree, and the application sees the value in the place of the variable."""
    name = case["n"]
    k = kind_of(name)
    vals = {"bool": [("1", 1), ("0", 0)], "int": [("7", 7), ("0", 0)], "charset": [("'latin1'", "latin1")], "coll": [("'utf8mb4_bin'", "utf8mb4_bin")],
            "tz": [("'+05:30'", "+05:30")], "ro": [], "str": [("'x'", "x"), ("'it''s \\\\ \"'", "it's \\ \"")]}[k]
    run = Run(ctx)
    try:
        for lit, val in [(None, None)] + vals:
            if lit is not None:
                run.assign(name, val, "SET %s = %s" % (name, lit))
            run.verify("after SET %s = %s" % (name, lit), full=True)
            want = run.store[name]
            for form in READS:
                for tr in ("query", "execute"):
                    sql = fill(form, name)
                    r = run.q(sql, tr)
                    check(r.kind == "rows" and len(r.rows) == 1 and text_of(r.rows[0][-1]) in want, "%r (%s) after SET %s = %s gives %s, expected %s", sql, tr, name, lit,
                          r.kind == "rows" and r.rows or r, want)
                    ctx.state((name, lit, form, tr))
            for form in ("SHOW VARIABLES", "SHOW SESSION VARIABLES", "SHOW LOCAL VARIABLES", "show variables like '{n}'", "SHOW VARIABLES LIKE '{N}'"):
                if "LOCAL" in form and run.q(fill(form, name)).kind == "err":
                    continue
                if "{N}" in form:
                    continue
                got = run.read_all(form=fill(form, name))
                check(got.get(name) in want, "%r gives %r, expected %s", fill(form, name), got.get(name), want)
            # the application gets the value as a literal
            run.app.seen.clear()
            r = run.q("SELECT a, @@%s AS q FROM t WHERE b = @@session.%s" % (name, name))
            check(r.kind == "rows" and len(run.app.seen) == 1, "query with @@%s: %s", name, r)
            text = run.app.seen[0][0]
            check("@@" not in text, "the application got %r", text)
            m = re.fullmatch(r"SELECT a, (.*) AS q FROM t WHERE b = (.*)", text, re.S)
            check(m and m.group(1) == m.group(2), "the application got %r", text)
            check(literal(m.group(1)) in want, "the application got %s for @@%s, expected %s", m.group(1), name, want)
        ctx.trace()
    finally:
        run.close()


def literal(s):
    if s.upper() == "NULL":
        return None
    if s[0] == "'":
        return s[1:-1].replace("''", "'").replace("\\\\", "\\").replace('\\"', '"')
    return s


def k_copy(case, ctx):
    """SET x = @@y"""
    name = case["n"]
    run = Run(ctx)
    try:
        for other in ALL:
            for form in ("SET {n} = @@%s", "SET @@session.{n} = @@SESSION.%s"):
                sql = fill(form, name) % other
                r = run.q(sql)
                v = sorted(run.store[other], key=str)[0]
                if kind_of(other) == "bool" or other == "performance_schema":
                    v = run.store[other] == set(TRUES)
                elif v is not None and kind_of(other) == "int":
                    v = int(v)
                acc, may_fail, may_pass = expected(name, run.default[name], v)
                if r.kind == "err":
                    check(may_fail, "%r was rejected: %s", sql, r.err)
                else:
                    check(r.kind == "ok" and may_pass, "%r answered with %s", sql, r)
                    run.store[name] = acc
                run.verify("after %r" % sql)
                ctx.state((name, other, form, r.kind))
        for fn, v in (("DATABASE()", None), ("VERSION()", run.default["version"]), ("CURRENT_USER()", "u"), ("USER()", "u")):
            r = run.q("SET %s = %s" % (name, fn))
            acc, may_fail, may_pass = expected(name, run.default[name], v)
            if r.kind == "ok":
                check(may_pass, "SET %s = %s was accepted", name, fn)
                run.store[name] = acc
            run.verify("after SET %s = %s" % (name, fn))
        run.alive("at the end")
        ctx.trace()
    finally:
        run.close()


def _coll(cs):
    return {"utf8mb4": {"utf8mb4_general_ci", "utf8mb4_0900_ai_ci"}, "utf8": {"utf8_general_ci"}, "latin1": {"latin1_swedish_ci"}, "big5": {"big5_chinese_ci"},
            "cp1251": {"cp1251_general_ci"}, "ascii": {"ascii_general_ci"}, "gbk": {"gbk_chinese_ci"}}[cs]


GOOD = ["utf8mb4", "utf8", "latin1", "big5", "cp1251", "ascii", "gbk"]
NAMES = []
for _q in ("{c}", "'{c}'", "\"{c}\""):
    for _c in GOOD:
        NAMES += [("SET NAMES " + _q.format(c=_c), ("names", _c, None)), ("SET NAMES " + _q.format(c=_c) + " COLLATE utf8mb4_bin", ("names", _c, "utf8mb4_bin")),
                  ("SET CHARACTER SET " + _q.format(c=_c), ("charset", _c)), ("SET CHARSET " + _q.format(c=_c), ("charset", _c)),
                  ("set names " + _q.format(c=_c) + " collate 'big5_chinese_ci'", ("names", _c, "big5_chinese_ci"))]
NAMES += [("SET NAMES DEFAULT", ("names", None, None)), ("set names default", ("names", None, None)), ("SET CHARACTER SET DEFAULT", ("charset", None)),
          ("SET CHARSET default", ("charset", None))]
for _c in CSNAMES:
    if _c not in GOOD and _c not in ("utf-8",):
        NAMES += [("SET NAMES '%s'" % _c, ("bad", _c)), ("SET NAMES %s" % _c, ("bad", _c)), ("SET CHARACTER SET '%s'" % _c, ("bad", _c)), ("SET NAMES '%s' COLLATE utf8mb4_bin" % _c, ("bad", _c))]
NAMES += [("SET NAMES latin1 COLLATE bogus", ("bad", "latin1")), ("SET NAMES 'latin1' COLLATE 'x'", ("bad", "latin1")), ("SET NAMES ''", ("bad", "")), ("SET NAMES 1", ("bad", "1")),
          ("SET NAMES", ("bad", "")), ("SET NAMES NULL", ("bad", "")), ("SET NAMES 'utf8", ("bad", ""))]
CHVARS = ["character_set_client", "character_set_connection", "character_set_results"]


def apply_names(run, what, r, sql, where=""):
    if what[0] == "bad":
        # rejected without a trace, or accepted
        if r.kind == "ok":
            for n in CHVARS + ["collation_connection"]:
                run.store[n] = run.store[n] | {what[1], what[1].lower(), "bogus", "x", "utf8mb4_bin"} | ({"utf8"} if what[1] == "utf8mb3" else set()) | \
                    {text_of(v) for v in run.q("SELECT @@" + n).rows[0]}
        return
    check(r.kind == "ok", "%r%s answered with %s", sql, where, r)
    if what[0] == "names":
        _, cs, coll = what
        for n in CHVARS:
            run.store[n] = {cs} if cs else run.defaults[n]
        run.store["collation_connection"] = {coll} if coll else _coll(cs) if cs else run.defaults["collation_connection"]
    else:
        cs = what[1]
        for n in CHVARS:
            run.store[n] = {cs} if cs else run.defaults[n]
        run.store["character_set_connection"] = run.store["character_set_database"] | (set() if cs else run.defaults["character_set_connection"])
        run.store["collation_connection"] = run.store["collation_connection"] | run.store["collation_database"]


def k_names(case, ctx):
    for sql, what in NAMES[case["lo"]:case["hi"]]:
        for pre in (None, "SET NAMES big5") if case["few"] else (None, "SET NAMES big5", "SET CHARACTER SET cp1251", "SET character_set_database = 'latin1'", "SET collation_connection = 'latin1_swedish_ci', autocommit = 0"):
            run = Run(ctx)
            try:
                if pre and pre.startswith("SET NAMES"):
                    apply_names(run, ("names", "big5", None), run.q(pre), pre)
                elif pre and pre.startswith("SET CHARACTER"):
                    apply_names(run, ("charset", "cp1251"), run.q(pre), pre)
                elif pre and "autocommit" in pre:
                    check(run.q(pre).kind == "ok", "%r", pre)
                    run.store["collation_connection"] = {"latin1_swedish_ci"}
                    run.store["autocommit"] = set(FALSES)
                elif pre:
                    run.assign("character_set_database", "latin1", pre)
                run.verify("after %r" % pre)
                r = run.q(sql)
                apply_names(run, what, r, sql, " after %r" % pre)
                run.verify("after %r, %r" % (pre, sql), full="@@%s")
                run.alive("after %r, %r" % (pre, sql))
                r = run.q("SET NAMES DEFAULT")
                apply_names(run, ("names", None, None), r, "SET NAMES DEFAULT")
                run.verify("after %r, SET NAMES DEFAULT" % sql)
                run.bystanders("after %r" % sql)
                ctx.state((sql, pre, r.kind))
            finally:
                run.close()
    ctx.trace()


ISO = ["READ UNCOMMITTED", "READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE"]


def trans_stmts():
    out = []
    for scope in ("", "SESSION ", "GLOBAL ", "LOCAL ", "session "):
        for i in [None] + ISO:
            for a in [None, "READ ONLY", "READ WRITE"]:
                if not i and not a:
                    continue
                parts = [x for x in ("ISOLATION LEVEL " + i if i else None, a) if x]
                out.append((scope, "SET %sTRANSACTION %s" % (scope, ", ".join(parts)), i, a))
                if i and a:
                    out.append((scope, "SET %sTRANSACTION %s" % (scope, ", ".join(parts[::-1])), i, a))
                    out.append((scope, ("set %stransaction %s" % (scope, ",".join(parts))).lower(), i, a))
    return out


def k_trans(case, ctx):
    run = Run(ctx)
    try:
        stmts = trans_stmts()
        for pos, (scope, sql, i, a) in enumerate(stmts + stmts[::-1]):
            r = run.q(sql)
            apply_trans(run, scope, r, sql, i, a)
            run.verify("after %r" % sql)
            ctx.state((sql, r.kind, pos))
        for sql in ("SET TRANSACTION", "SET TRANSACTION READ FOO", "SET TRANSACTION ISOLATION LEVEL x", "SET TRANSACTION READ ONLY, FOO", "SET TRANSACTION READ ONLY READ WRITE"):
            r = run.q(sql)
            if r.kind == "ok" and "READ ONLY READ WRITE" in sql:
                run.store["transaction_read_only"] = set(TRUES) | set(FALSES)
            run.verify("after %r" % sql)
        run.bystanders("after SET TRANSACTION")
        run.alive("after SET TRANSACTION")
        ctx.trace()
    finally:
        run.close()


def apply_trans(run, scope, r, sql, i, a):
    if scope.strip().upper() in ("GLOBAL", "LOCAL"):
        check(r.kind in ("ok", "err"), "%r answered with %s", sql, r)
        if scope.strip().upper() == "GLOBAL" or r.kind == "err":
            return
    if r.kind == "err" and i == "READ UNCOMMITTED":
        return      # unknown to the parser
    check(r.kind == "ok", "%r answered with %s", sql, r)
    if i:
        run.store["transaction_isolation"] = {i.upper().replace(" ", "-")}
    if a:
        run.store["transaction_read_only"] = set(TRUES if a.upper() == "READ ONLY" else FALSES)


def k_unknown(case, ctx):
    """Unknown names are errors in every form, and change nothing."""
    run = Run(ctx)
    try:
        for n in ("nosuch", "sql_mod", "sql_mode2", "", "_", "sql mode", "values", "schema", "autocommit.x", "version_", "é", "NULL", "set", "get", "__class__"):
            for sp in SPELL + OTHER + READS + ["SHOW VARIABLES LIKE '{n}'"]:
                sql = fill(sp, n if re.fullmatch(r"\w+", n) or "." in n else "`%s`" % n, "'x'").replace("``", "`")
                if "SHOW" in sql:
                    r = run.q("SHOW VARIABLES LIKE '%s'" % n.replace("_", "\\\\_"))
                    check(r.kind == "err" or r.rows == [] or n == "", "SHOW VARIABLES LIKE %r gives %s", n, r.rows)
                    continue
                r = run.q(sql)
                check(r.kind == "err", "%r answered with %s", sql, r)
                run.verify("after %r" % sql)
                ctx.state((n, sp))
        for sql in ("SET sql_mode = 'a', nosuch = 1", "SET autocommit = 0, version = 'x'", "SET sql_mode = 'b', max_execution_time = 'abc'",
                    "SET nosuch = 1, sql_mode = 'x'", "SET version = 'x', autocommit = 0", "SET character_set_client = 'bogus', sql_mode = 'x'",
                    "SET sql_mode = 'x', sql_mode = nonsense(1)", "SET sql_mode = 'x', @a = 1", "SET sql_mode = 'x', GLOBAL autocommit = 0", "SET autocommit = 0, NAMES bogus"):
            r = run.q(sql)
            check(r.kind == "err", "%r answered with %s", sql, r)
            keep = dict(run.store)
            for n, vals in (("sql_mode", {"a", "b", "x"}), ("autocommit", set(FALSES))):
                if n in sql:
                    run.store[n] = run.store[n] | vals
            run.verify("after %r" % sql)
            run.alive("after %r" % sql)
            run.q("SET sql_mode = DEFAULT, autocommit = DEFAULT")
            run.store = keep
            run.store["sql_mode"], run.store["autocommit"] = run.defaults["sql_mode"], run.defaults["autocommit"]
            run.verify("after SET .. = DEFAULT")
            ctx.state(sql)
        run.alive("at the end")
        run.bystanders("at the end")
        ctx.trace()
    finally:
        run.close()


# ---- histories ----------------------------------------------------------------------------------------
# (sql, effect); effect: {name: renderings} | callable(run, r)
def S(sql, **eff):
    return sql, {n: show(v) for n, v in eff.items()}


def D(sql, *names):
    return sql, list(names)


STMTS = [
    S("SET sql_mode = 'm1'", sql_mode="m1"), S("SET SESSION sql_mode = 'm2', autocommit = 0", sql_mode="m2", autocommit=False),
    D("SET @@sql_mode = DEFAULT", "sql_mode"), S("SET @@LOCAL.autocommit = OFF", autocommit=False), D("SET autocommit = NULL", "autocommit"),
    S("SET max_execution_time = 5", max_execution_time=5), S("SET max_execution_time = '6', sql_select_limit = 9", max_execution_time=6, sql_select_limit=9),
    D("SET LOCAL sql_select_limit = DEFAULT, max_execution_time = DEFAULT", "sql_select_limit", "max_execution_time"),
    ("SET NAMES latin1", ("names", "latin1", None)), ("SET NAMES DEFAULT", ("names", None, None)), ("SET CHARACTER SET big5", ("charset", "big5")),
    ("SET NAMES utf8 COLLATE utf8mb4_bin", ("names", "utf8", "utf8mb4_bin")), ("SET CHARACTER SET DEFAULT", ("charset", None)),
    S("SET character_set_database = 'cp1251'", character_set_database="cp1251"),
    S("SET TRANSACTION READ ONLY", transaction_read_only=True), S("SET SESSION TRANSACTION ISOLATION LEVEL SERIALIZABLE, READ WRITE", transaction_isolation="SERIALIZABLE", transaction_read_only=False),
    D("SET transaction_isolation = DEFAULT, transaction_read_only = DEFAULT", "transaction_isolation", "transaction_read_only"),
    S("SET time_zone = '+05:30'", time_zone="+05:30"), D("SET time_zone = DEFAULT", "time_zone"), ("SET time_zone = 'bogus'", "err"),
    ("SET version = '1'", "err"), ("SET nosuch = 1", "err"), ("SET external_user = DEFAULT", "err"), ("SET license = NULL", "err"), ("SET GLOBAL sql_mode = 'g'", "any"),
    ("SET @x = 1", "any"), ("SET NAMES bogus", "err"), ("SET sql_mode = @@version_comment", {"sql_mode": "=version_comment"}), ("SET init_connect = @@sql_mode", {"init_connect": "=sql_mode"}),
    ("SET max_execution_time = 'abc'", "err"),
    ("SELECT /*+ SET_VAR(sql_mode = 'h') */ @@sql_mode", "hint"), ("SELECT /*+ SET_VAR(sql_mode = 'h', autocommit = 0, time_zone = '+01:00') */ a FROM t", "hint"),
    ("SELECT /*+ SET_VAR(sql_mode = 'h') SET_VAR(character_set_client = 'big5') */ boom FROM t", "hint"), ("SELECT /*+ SET_VAR(sql_mode = 'h', version = 'x') */ 1", "hint"),
    ("SELECT /*+ SET_VAR(autocommit = 1, nosuch = 'x') */ 1", "hint"), ("SELECT /*+ SET_VAR(sql_mode = DEFAULT) */ a FROM (SELECT /*+ SET_VAR(autocommit = 0) */ 1) q", "hint"),
    ("SELECT /*+ SET_VAR(character_set_results = 'latin1', max_execution_time = 'abc') */ 1", "hint"), ("INSERT /*+ SET_VAR(sql_mode = 'i') */ INTO t VALUES (1)", "hint"),
    ("SELECT /*+ SET_VAR(sql_select_limit = 1) */ table_name FROM information_schema.tables", "hint"), ("SELECT /*+ SET_VAR(sql_mode = 'h') */ boomrow FROM t", "hint"),
    ("BEGIN", "any"), ("USE db1", "any"), ("SELECT a FROM t", "any"), ("SHOW TABLES FROM db1", "any"), ("SELECT syntax error from", "any"), ("COMMIT", "any"),
]
SHORT = [1, 2, 6, 7, 8, 10, 13, 15, 17, 20, 28, 31, 32, 33]


def apply(run, stmt, r, sql):
    eff = stmt[1]
    if eff == "err":
        check(r.kind == "err", "%r answered with %s", sql, r)
    elif eff in ("any", "hint"):
        pass
    elif isinstance(eff, tuple):
        apply_names(run, eff, r, sql)
    elif isinstance(eff, list):
        check(r.kind == "ok", "%r answered with %s", sql, r)
        for n in eff:
            run.store[n] = run.defaults[n]
    else:
        check(r.kind == "ok", "%r answered with %s", sql, r)
        for n, vals in eff.items():
            run.store[n] = set(run.store[vals[1:]]) if isinstance(vals, str) else vals


def k_hist(case, ctx):
    al = STMTS if case["al"] == "full" else [STMTS[i] for i in SHORT]
    first = case["first"]
    n = case["n"]
    run = Run(ctx)
    try:
        for rest in itertools.product(range(len(al)), repeat=n - len(first)):
            idx = tuple(first) + rest
            texts = [al[i][0] for i in idx]
            run = Run(ctx, like=run)
            snaps = []
            failed = False
            for j, i in enumerate(idx):
                r = run.q(texts[j], "execute" if (sum(idx) + j) % 4 == 3 else "query")
                apply(run, al[i], r, texts[j])
                if j == n - 1:
                    run.verify("after %r" % texts, full="@@%s" if n == 2 else False)
                if not failed:
                    snaps = dict(run.store)
                    failed = r.kind == "err"
            if n == 2 or sum(idx) % 5 == 0:
                run.alive("after %r" % texts)
            ctx.state((case["al"], idx))
            if (n == 2 or sum(idx) % 3 == 0) and not any("syntax" in t for t in texts):
                # in one text: up to the first statement that fails
                run = Run(ctx, like=run)
                r = run.q("; ".join(texts))
                check((r.kind == "err") == failed, "%r answered with %s, one at a time they %s", texts, r, "fail" if failed else "succeed")
                run.store = snaps
                run.verify("after %r" % "; ".join(texts))
                ctx.state((case["al"], idx, "multi"))
        run.bystanders("at the end")
        ctx.trace()
    finally:
        run.close()


# ---- hints ---------------------------------------------------------------------------------------------
# (text of the assignment, name, value or "bad")
HINTS = [("sql_mode = 'h1'", "sql_mode", "h1"), ("SQL_MODE='h2'", "sql_mode", "h2"), ("autocommit=0", "autocommit", False), ("max_execution_time = 77", "max_execution_time", 77),
         ("time_zone='+05:00'", "time_zone", "+05:00"), ("sql_select_limit=3", "sql_select_limit", 3), ("version='9'", "version", "bad"), ("nosuch=1", "nosuch", "bad"),
         ("max_execution_time='abc'", "max_execution_time", "bad"), ("transaction_read_only = TRUE", "transaction_read_only", True), ("init_connect = DEFAULT", "init_connect", None)]
FORMS = ["SELECT /*+ {h} */ {e} FROM t", "SELECT /*+ {h} */ @@sql_mode, @@autocommit, @@max_execution_time, @@time_zone, @@sql_select_limit, @@transaction_read_only, @@init_connect",
         "SELECT * FROM (SELECT /*+ {h} */ {e} FROM t) q", "INSERT /*+ {h} */ INTO t VALUES ('{e}')", "REPLACE /*+ {h} */ INTO t VALUES ('{e}')",
         "SELECT {e} FROM t UNION SELECT /*+ {h} */ 1 FROM t", "WITH c AS (SELECT /*+ {h} */ {e} FROM t) SELECT * FROM c",
         "SELECT /*+ {h} */ table_name FROM information_schema.tables WHERE table_name = '{e}'", "SELECT a FROM t WHERE a IN (SELECT /*+ {h} */ {e} FROM t)",
         "EXPLAIN SELECT /*+ {h} */ {e} FROM t", "INSERT INTO t SELECT /*+ {h} */ {e} FROM t"]
ENDS = ["a", "boom", "boompy", "boomrow", "syntax(("]
WRAP = ["SET_VAR({0})", "SET_VAR({0}) SET_VAR({1})", "SET_VAR({0}, {1})", "NO_ICP(t) SET_VAR({0}) BKA(t)", "set_var({0})", "SET_VAR({0}) SET_VAR({1}) SET_VAR({2})",
        "SET_VAR({0}, {1}) SET_VAR({2})", "SET_VAR({0}, {1}, {2})", "SET_VAR({0}) NO_ICP(t) SET_VAR({1})"]
WRAPS = {1: [0, 3, 4], 2: [1, 2, 8], 3: [5, 6, 7]}


def hint_expect(run, combos):
    """combos: list of lists of HINTS (outermost first) -> (may_fail, must, overlay {name: set of renderings})"""
    overlay = {}
    bad = False
    for level in combos:
        here = {}
        for _, n, v in level:
            if v == "bad":
                bad = True
                if n == "version" or n == "nosuch":
                    continue
                here.setdefault(n, set()).update(run.store[n])
                continue
            vals = show(v) if v is not None else run.defaults[n]
            if n in here:
                here[n] = here[n] | vals        # the same variable twice in a hint: either
            else:
                here[n] = set(vals)
        for n, vals in here.items():
            overlay.setdefault(n, vals)      # outer hints win
    return bad, overlay


def run_hint(run, sql, bad, overlay, end, ctx, static=False):
    if sql.startswith(("REPLACE", "EXPLAIN")):
        # the parser may treat these as opaque texts: hints may be ignored
        overlay = {n: vals | run.store[n] for n, vals in overlay.items()}
    run.app.seen.clear()
    before = {n: set(v) for n, v in run.store.items()}
    r = run.q(sql)
    check(len(run.app.seen) <= 1, "%r called the application %d times", sql, len(run.app.seen))
    for text, vals in run.app.seen:
        for n in ALL:
            want = overlay.get(n, before[n])
            got = vals[n]
            ok = show(got) & want
            check(ok, "during %r the variable %s is %r, expected %s", sql, n, got, sorted(want, key=str))
            if kind_of(n) == "int":
                check(got is None or type(got) is int, "during %r the variable %s is %r", sql, n, got)
        check("SET_VAR" not in text.upper() or "SET_VAR" not in sql, "the application got %r for %r", text, sql) if False else None
    if static and r.kind == "rows":
        names = ["sql_mode", "autocommit", "max_execution_time", "time_zone", "sql_select_limit", "transaction_read_only", "init_connect"]
        for n, v in zip(names, r.rows[0]):
            want = overlay.get(n, before[n])
            check(text_of(v) in want, "%r: @@%s is %r, expected %s", sql, n, text_of(v), sorted(want, key=str))
    if not bad and end in ("a",) or static and not bad:
        check(r.kind in ("rows", "ok") or r.kind == "err" and "Unsupported" in str(r.err), "%r answered with %s", sql, r)
    ctx.outcome(("hint", r.kind, len(run.app.seen), bad, end))
    run.verify("after %r" % sql)
    return r


def k_hints(case, ctx):
    form, end, n = FORMS[case["form"]], ENDS[case["end"]], case["n"]
    run = Run(ctx)
    try:
        # non-default previous values
        firsts = [case["first"]] if case["first"] is not None else range(len(HINTS))
        for first in firsts:
            for pre in (False, True):
                if pre:
                    r = run.q("SET sql_mode = 'p', autocommit = 1, max_execution_time = 4, time_zone = '-02:00', sql_select_limit = 8, init_connect = 'i'")
                    check(r.kind == "ok", "SET answered with %s", r)
                    run.store.update(sql_mode={"p"}, autocommit=set(TRUES), max_execution_time={"4"}, time_zone={"-02:00"}, sql_select_limit={"8"}, init_connect={"i"})
                else:
                    r = run.q("SET sql_mode = DEFAULT, autocommit = DEFAULT, max_execution_time = DEFAULT, time_zone = DEFAULT, sql_select_limit = DEFAULT, init_connect = DEFAULT")
                    check(r.kind == "ok", "SET answered with %s", r)
                    for x in ("sql_mode", "autocommit", "max_execution_time", "time_zone", "sql_select_limit", "init_connect"):
                        run.store[x] = run.defaults[x]
                for rest in itertools.product(range(len(HINTS)), repeat=n - 1):
                    idx = (first,) + rest
                    if n == 3 and (sum(idx) % 2) != pre:
                        continue
                    hs = [HINTS[i] for i in idx]
                    for w in WRAPS[n] if n < 3 else [WRAPS[n][sum(idx) % 3]]:
                        sql = form.replace("{h}", WRAP[w].format(*[h[0] for h in hs])).replace("{e}", end)
                        bad, overlay = hint_expect(run, [hs])
                        run_hint(run, sql, bad, overlay, end, ctx, static=case["form"] == 1)
                        ctx.state((case["form"], end, idx, w, pre))
        run.alive("after hints")
        run.bystanders("after hints")
        ctx.trace()
    finally:
        run.close()


NESTED = ["SELECT /*+ {h0} */ {e} FROM (SELECT /*+ {h1} */ a FROM t) q", "SELECT /*+ {h0} */ {e} FROM t WHERE a = (SELECT /*+ {h1} */ b FROM t LIMIT 1)",
          "SELECT /*+ {h0} */ {e}, (SELECT /*+ {h1} */ b FROM t) FROM t", "INSERT /*+ {h0} */ INTO t SELECT /*+ {h1} */ {e} FROM t",
          "SELECT a FROM (SELECT /*+ {h0} */ a FROM (SELECT /*+ {h1} */ {e} FROM t) q) p"]


def k_nested(case, ctx):
    form, n = NESTED[case["form"]], case["n"]
    run = Run(ctx)
    try:
        outer = itertools.product(range(len(HINTS)), repeat=n) if case["first"] is None else [(case["first"],) + x for x in itertools.product(range(len(HINTS)), repeat=n - 1)]
        for o in outer:
            for i in itertools.product(range(len(HINTS)), repeat=n):
                h0, h1 = [HINTS[x] for x in o], [HINTS[x] for x in i]
                e = ENDS[(sum(o) + sum(i)) % 4]
                sql = form.replace("{h0}", "SET_VAR(%s)" % ", ".join(h[0] for h in h0)).replace("{h1}", " ".join("SET_VAR(%s)" % h[0] for h in h1)).replace("{e}", e)
                bad, overlay = hint_expect(run, [h0, h1])
                run_hint(run, sql, bad, overlay, e, ctx)
                ctx.state((case["form"], o, i))
        run.alive("after hints")
        ctx.trace()
    finally:
        run.close()


def k_killhint(case, ctx):
    """A statement with hints ended by KILL QUERY."""
    h = HINTS[case["i"]]
    for prep in (False, True):
        run = Run(ctx)
        try:
            bad, overlay = hint_expect(run, [[h]])
            sql = "SELECT /*+ SET_VAR(%s, event_scheduler = 'q') */ waitgate FROM t" % h[0]
            overlay["event_scheduler"] = {"q"}
            c = run.c
            if prep:
                p = c.prepare(sql)
                c.send(wire.com_execute(p.stmt_id, [], caps=c.caps) if False else wire.com_execute(p.stmt_id))
            else:
                c.send(wire.com_query(sql, c.caps))
            run.w.run()
            if not run.w.waiting("q"):
                check(bad, "%r didn't reach the application", sql)
                c.read("query") if not prep else c.read("execute")
                run.verify("after %r" % sql)
                continue
            text, vals = run.app.seen[-1]
            for n in ALL:
                want = overlay.get(n, run.store[n])
                check(show(vals[n]) & want, "during %r the variable %s is %r, expected %s", sql, n, vals[n], want)
            run.bystanders("during %r" % sql)
            r = run.q("KILL QUERY %d" % c.hs.connection_id, conn=run.bystander)
            check(r.kind == "ok", "KILL QUERY answered with %s", r)
            run.w.run()
            r = c.read("query" if not prep else "execute")
            check(r.kind == "err", "killed statement answered with %s", r)
            run.verify("after the killed %r" % sql)
            run.alive("after the killed %r" % sql)
            ctx.state((case["i"], prep))
        finally:
            run.close()
    ctx.trace()


# ---- clock ---------------------------------------------------------------------------------------------
TZWAYS = ["set", "session", "hint", "multi", "prepared", "hintapp", "multihint"]
CLOCK = {"NOW()": "t", "CURRENT_TIMESTAMP": "t", "CURRENT_TIMESTAMP()": "t", "LOCALTIME()": "t", "LOCALTIMESTAMP()": "t", "CURDATE()": "d", "CURRENT_DATE": "d", "CURRENT_DATE()": "d",
         "CURTIME()": "h", "CURRENT_TIME": "h", "CURRENT_TIME()": "h", "now()": "t"}


def offset(z):
    if z.upper() == "UTC":
        return dt.timedelta()
    s = -1 if z[0] == "-" else 1
    return s * dt.timedelta(hours=int(z[1:3]), minutes=int(z[4:6]))


def utcnow():
    return dt.datetime.now(dt.timezone.utc).replace(tzinfo=None)


def clock_ok(kind, cell, lo, hi):
    lo = lo.replace(microsecond=0)
    if kind == "t":
        return lo <= dt.datetime.fromisoformat(cell[:19]) <= hi
    if kind == "d":
        return lo.date() <= dt.date.fromisoformat(cell) <= hi.date()
    for d in (lo.date(), hi.date()):
        if lo <= dt.datetime.combine(d, dt.time.fromisoformat(cell[:8])) <= hi:
            return True
    return False


def k_clock(case, ctx):
    way = TZWAYS[case["w"]]
    fns = list(CLOCK)
    sel = ", ".join(fns)
    run = Run(ctx)
    try:
        for z in ZONES + BADZONES + ["UTC"]:
            zs = z.replace("\n", "\\n")
            good = z in ZONES
            lo = utcnow()
            if way == "set":
                r0 = run.q("SET time_zone = '%s'" % zs)
                r = run.q("SELECT " + sel)
            elif way == "session":
                r0 = run.q("SET autocommit = 1, SESSION time_zone = '%s'" % zs)
                r = run.q("SELECT %s" % sel, "execute")
            elif way == "hint":
                r0 = r = run.q("SELECT /*+ SET_VAR(time_zone='%s') */ %s" % (zs, sel))
            elif way == "multi":
                r0 = r = run.q("SELECT NOW(); SET time_zone = '%s'; SELECT %s" % (zs, sel))
            elif way == "prepared":
                p = run.c.prepare("SELECT " + sel)
                check(p.kind == "prepare", "prepare: %s", p)
                r0 = run.q("SET @@time_zone = '%s'" % zs)
                r = run.c.execute(p.stmt_id)
                if r.kind == "rows":
                    r.rows = [[wire.binary_to_py(v, c.type) for v, c in zip(row, r.cols)] for row in r.rows]
                run.c.silent(wire.com_close(p.stmt_id))
            elif way == "hintapp":
                run.app.seen.clear()
                r0 = r = run.q("SELECT /*+ SET_VAR(time_zone='%s') */ %s FROM t" % (zs, sel))
            else:
                r0 = r = run.q("SELECT /*+ SET_VAR(time_zone='%s') */ NOW(); SELECT NOW(); SELECT /*+ SET_VAR(time_zone='%s') */ %s" % (zs, zs, sel))
            hi = utcnow()
            seen = list(run.app.seen)
            if r0.kind == "err":
                check(z not in ZONES[2:11] + ["UTC", "-05:00"] or z in ("-00:00",), "time zone %r was rejected: %s", z, r0.err)
                run.alive("after rejecting time zone %r" % z)
                run.q("SELECT 1")
            elif good:
                run.alive("after selecting time zone %r" % z)
                off = offset(z)
                if way == "hintapp":
                    check(len(seen) == 1, "%s: the application wasn't called", r)
                    m = re.findall(r"'([^']*)'", seen[0][0])
                    check(len(m) >= len(fns), "the application got %r", seen[0][0])
                    cells = m[:len(fns)]
                else:
                    check(r.kind == "rows" and len(r.rows) == 1, "clock functions in time zone %r (%s): %s", z, way, r)
                    cells = [x if isinstance(x, str) else text_of(x) for x in r.rows[0]]
                for fn, cell in zip(fns, cells):
                    check(clock_ok(CLOCK[fn], cell, lo + off, hi + off), "%s in time zone %r (%s) is %r, it's between %s and %s there", fn, z, way, cell, lo + off, hi + off)
                    ctx.state((way, z, fn))
            else:
                run.alive("after selecting time zone %r" % z)
                r = run.q("SELECT NOW()")
                check(r.kind == "rows", "after selecting time zone %r: NOW() answered with %s", z, r)
            if way in ("hint", "hintapp", "multihint"):
                lo = utcnow()
                r = run.q("SELECT NOW()")
                check(r.kind == "rows" and clock_ok("t", text_of(r.rows[0][0]), lo, utcnow()), "NOW() after the hint is %s, the time zone is UTC", r.rows)
            else:
                cur = run.read_all()["time_zone"]
                check(cur == z or r0.kind == "err" and cur != z or cur == z.upper(), "time_zone is %r after selecting %r", cur, z)
        r = run.q("SET time_zone = DEFAULT")
        lo = utcnow()
        r = run.q("SELECT NOW()")
        check(r.kind == "rows" and clock_ok("t", text_of(r.rows[0][0]), lo, utcnow()), "NOW() is %s in the default time zone", r.rows)
        run.bystanders("after changing the time zone")
        ctx.trace()
    finally:
        run.close()


# ---- application-defined stores ---------------------------------------------------------------------------
def k_version(case, ctx):
    """The handshake announces the session's version."""
    for ver in ("8.0.29", "5.7.1-log", "9", "é1", "", "8.0.33-x" * 8):
        for how in ("global", "session", "both"):
            def factory():
                s = RecSession(w)
                schema = dict(SYSTEM_VARIABLES)
                if how != "session":
                    schema["version"] = (str, ver, False)
                s.variables = SessionVariables(GlobalVariables(schema))
                if how != "global":
                    s.variables.set("version", ver + ("s" if how == "both" else ""), force=True)
                return s
            want = ver + ("s" if how == "both" else "")
            app = AppV()
            w = World(app=app, session_factory=factory)
            try:
                c = w.login(caps=F)
                check(bytes(c.hs.version) == want.encode(), "the handshake announces %r, version is %r", c.hs.version, want)
                for sql in ("SELECT @@version", "SELECT VERSION()", "SELECT @@session.version", "select version()"):
                    for round_ in range(2):
                        r = c.query(sql)
                        ctx.transition()
                        check(r.kind == "rows" and text_of(r.rows[0][0]) == want, "%s is %s, the handshake announced %r", sql, r, want)
                        for bad in ("SET version = 'x'", "SET SESSION version = DEFAULT", "SET @@version = NULL", "SELECT /*+ SET_VAR(version = 'x') */ 1",
                                    "SELECT /*+ SET_VAR(version = DEFAULT) */ a FROM t", "SET autocommit = 0, version = 'x'"):
                            r2 = c.query(bad)
                            check(r2.kind == "err" or "SET_VAR" in bad, "%r answered with %s", bad, r2)
                ctx.state((ver, how))
            finally:
                w.close()
    ctx.trace()


def k_custom(case, ctx):
    """Variables the application adds, whose types aren't idempotent."""
    def listed(v):
        return [x.strip() for x in v.split(",")]

    def doubled(v):
        return int(v) * 2

    def factory():
        s = RecSession(w)
        schema = dict(SYSTEM_VARIABLES)
        schema.update(my_list=(listed, ["d"], True), my_double=(doubled, 1, True), my_ro=(str, "r", False), my_float=(float, 0.5, True), my_str=(str, "s", True))
        s.variables = SessionVariables(GlobalVariables(schema))
        return s

    for pre in ("", "SET my_list = 'a, b', my_double = 3, my_float = '2.5', my_str = 'x'"):
        for hint in ("my_list = 'z'", "my_double = 5", "my_list = 'z', my_double = 5", "my_double = 5, my_ro = 'x'", "my_float = 7, my_list = 'q', my_str = 'y'", "my_str = 'y', my_float = 'abc'",
                     "my_list = DEFAULT", "my_double = DEFAULT, my_list = 'k'"):
            for end in ENDS:
                app = AppV()
                w = World(app=app, session_factory=factory)
                try:
                    c = w.login(caps=F)
                    if pre:
                        r = c.query(pre)
                        check(r.kind == "ok", "%r answered with %s", pre, r)

                    def snapshot():
                        r = c.query("SHOW VARIABLES")
                        check(r.kind == "rows", "SHOW VARIABLES: %s", r)
                        return [(text_of(a), text_of(b)) for a, b in r.rows]
                    before = snapshot()
                    d = dict(before)
                    if pre:
                        check((d["my_list"], d["my_double"], d["my_float"], d["my_str"]) == ("['a', 'b']", "6", "2.5", "x"), "after %r: %s", pre, d)
                    sql = "SELECT /*+ SET_VAR(%s) */ %s FROM t" % (hint, end)
                    c.query(sql)
                    ctx.transition()
                    after = snapshot()
                    check(after == before, "%r changed %s", sql, [x for x in zip(before, after) if x[0] != x[1]])
                    ctx.state((pre, hint, end))
                finally:
                    w.close()
    ctx.trace()
