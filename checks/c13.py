"""C13: the application sees exactly the statements it must handle, once, in order."""
import itertools

from harness import wire
from harness.world import World, Violation, check

from mysql_mimic.errors import MysqlError

ID = "C13"
LEVEL = "model_checking"
GC_EVERY = 10
RULE = ("one execution = (default database, statement list, transport) sent to a server; the application must be called for exactly the "
        "application statements, in order, each once, with the whole text, the attributes and the default database of the moment; the "
        "response must be the one of the last statement; statements after a failing one must not run")
BOUNDS = {
    "quick": "every statement form alone x 5 default databases x 3 transports; 25 query shapes over 1 and 38 over 2 and 3 over 3 table "
             "references, each one of 8 (user, catalog, unqualified, quoted ...) x 5 default databases; all lists of <=2 statements over 26 "
             "and of 3 over 13 kinds; all pairs of 16 texts hard to split x 8 separators; all histories of <=3 database selections over 13",
    "thorough": "statement lists of 3 over 26 and of 4 over 13 kinds; shapes over 3 references; histories of <=4 selections; "
                "every statement form in every decoration",
}
ASSUMPTIONS = ["FROM-less SELECTs with GROUP BY, HAVING, INTO or locking clauses, UNIONs of FROM-less SELECTs and `EXPLAIN tbl` may be answered by either side (once)",
               "texts the SQL parser rejects are answered with an error", "/*! */ is a comment"]
F = wire.FULL_CAPS
ATTR = [(b"k", "VAR_STRING", False, b"v1"), (b"n", "LONGLONG", False, 7)]
ATTRS = {"k": "v1", "n": 7}
DBS = [None, "db1", "information_schema", "INFORMATION_SCHEMA", "mysql"]
CATALOG = {"information_schema", "mysql"}
SCHEMA = {"db1": {"t": {"a": "INT"}, "tables": {"a": "INT"}}, "db2": {"t": {"a": "INT"}, "tables": {"b": "INT"}}}


class AppX:
    def __init__(self):
        self.calls = []
        self.uses = []

    def schema(self, s):
        return SCHEMA

    def on_use(self, s, db):
        self.uses.append(db)

    def query(self, s, e, sql, attrs):
        self.calls.append((e.sql(dialect="mysql"), sql, dict(attrs), s.database))
        if "boom" in e.sql():
            raise MysqlError("boom", code=1234)
        if "nores" in e.sql():
            return None
        if "nocols" in e.sql():
            return [], []
        if "norows" in e.sql():
            return [], ["m"]
        if "asyncrows" in e.sql():
            async def rows():
                yield ("r%d" % len(self.calls),)
            return rows(), ["m"]
        return [("r%d" % len(self.calls),)], ["m"]


# ---- statements -------------------------------------------------------------------------------------
# (text, expectation); expectation: "app" | "ok" | "any" (the library answers: OK, rows or an error) | "rows" | list of rows | "either" |
# "none" (no statement) | "fail" (application error) | ("use", db)
BUILTIN = [
    ("SET sql_mode = 'm'", "ok"), ("SET @@session.sql_mode = 'x'", "ok"), ("SET NAMES utf8mb4", "ok"), ("SET CHARACTER SET utf8mb4", "ok"),
    ("SET SESSION TRANSACTION READ ONLY", "ok"), ("SET TRANSACTION ISOLATION LEVEL SERIALIZABLE", "ok"), ("SET autocommit = 1, sql_mode = 'b'", "ok"),
    ("SET LOCAL sql_mode = DEFAULT", "ok"), ("SET @a = 1", "any"), ("SET GLOBAL sql_mode = 'x'", "any"), ("SET @a := 1", "any"), ("SET ROLE x", "any"),
    ("SET x", "any"), ("SET", "any"), ("SET PASSWORD = 'a'", "any"), ("SET sql_mode = (SELECT a FROM t)", "any"), ("SET sql_mode := 'x'", "any"),
    ("SET nosuch = 1", "any"), ("SET RESOURCE GROUP x", "any"), ("SET DEFAULT ROLE x TO y", "any"), ("SET version = 'x'", "any"),
    ("SET sql_mode = CONCAT('a', 'b')", "any"),
    ("USE db2", ("use", "db2")), ("USE `db2`", ("use", "db2")), ("USE `a b`", ("use", "a b")), ("USE mysql", ("use", "mysql")),
    ("KILL QUERY {id}", "kill"), ("KILL 999999999", "any"), ("KILL CONNECTION 999999999", "any"), ("KILL 'a'", "any"),
    ("SHOW DATABASES", "rows"), ("SHOW SCHEMAS", "rows"), ("SHOW TABLES FROM db1", "rows"), ("SHOW FULL TABLES FROM db1 LIKE 't%'", "rows"),
    ("SHOW COLUMNS FROM t FROM db1", "rows"), ("SHOW FULL COLUMNS FROM t FROM db1", "rows"), ("SHOW INDEX FROM t", "rows"), ("SHOW VARIABLES", "rows"),
    ("SHOW GLOBAL VARIABLES LIKE 'x'", "rows"), ("SHOW STATUS", "rows"), ("SHOW WARNINGS", "rows"), ("SHOW ERRORS", "rows"),
    ("SHOW TABLES", "any"), ("SHOW PROCESSLIST", "any"), ("SHOW ENGINES", "any"), ("SHOW CREATE TABLE t", "any"), ("SHOW FIELDS FROM t", "any"),
    ("SHOW KEYS FROM t", "any"), ("SHOW INDEXES FROM t", "any"), ("SHOW FOO", "any"), ("SHOW EXTENDED TABLES", "any"), ("SHOW COUNT(*) WARNINGS", "any"),
    ("SHOW CREATE USER x", "any"), ("SHOW COLLATION", "any"), ("SHOW CHARACTER SET", "any"), ("SHOW GRANTS", "any"), ("SHOW TABLE STATUS", "any"),
    ("SHOW PLUGINS", "any"), ("SHOW TRIGGERS", "any"), ("SHOW", "any"),
    ("DESCRIBE t", "any"), ("DESC t", "any"), ("DESCRIBE db1.t", "any"), ("DESC `t`", "any"), ("DESCRIBE `tables`", "any"), ("DESC `a b`", "any"),
    ("BEGIN", "ok"), ("BEGIN WORK", "ok"), ("START TRANSACTION", "ok"), ("START TRANSACTION READ ONLY", "ok"), ("COMMIT", "ok"), ("COMMIT WORK", "ok"),
    ("COMMIT AND CHAIN", "ok"), ("ROLLBACK", "ok"), ("ROLLBACK WORK", "ok"), ("ROLLBACK TO SAVEPOINT s", "ok"), ("ROLLBACK AND CHAIN", "ok"),
]
FROMLESS = [
    ("SELECT 1", [("1",)]), ("SELECT 1 + 2 * 3", [("7",)]), ("SELECT 'a', NULL, -1, 1.5", [("a", None, "-1", "1.5")]), ("SELECT DATABASE()", "rows"),
    ("SELECT @@sql_mode", "rows"), ("SELECT @@version, USER()", "rows"), ("SELECT CONNECTION_ID()", "rows"), ("SELECT NOW()", "rows"),
    ("SELECT 1 LIMIT 1", [("1",)]), ("SELECT 1 LIMIT 0", []), ("SELECT DISTINCT 1", [("1",)]), ("SELECT 1 WHERE 1 = 1", [("1",)]),
    ("SELECT 1 WHERE 1 = 0", []), ("SELECT 1 ORDER BY 1", [("1",)]), ("SELECT 1 AS a ORDER BY a DESC LIMIT 1", [("1",)]), ("SELECT 1 LIMIT 1 OFFSET 1", []),
    ("SELECT 1 LIMIT 0, 1", [("1",)]), ("SELECT 1 LIMIT 5, 1", []), ("SELECT CASE WHEN 1 THEN 2 ELSE 3 END AS x", [("2",)]), ("SELECT ALL 1", [("1",)]),
    ("SELECT 'FROM t'", [("FROM t",)]), ("SELECT 1 AS `from`", [("1",)]), ("SELECT /* FROM t */ 1", [("1",)]), ("SELECT ';'", [(";",)]),
    ("SELECT COUNT(*)", "any"), ("SELECT FOO(1)", "any"), ("SELECT (SELECT 1)", "any"), ("SELECT EXISTS(SELECT 1)", "any"),
    ("WITH c AS (SELECT 1) SELECT 2", [("2",)]), ("SELECT SLEEP(0)", "any"), ("SELECT a", "any"), ("SELECT CURRENT_DATE, CURRENT_TIMESTAMP()", "rows"),
    ("SELECT CURRENT_USER", "rows"), ("SELECT @@session.sql_mode AS m, 1", "rows"), ("SELECT 1 IN (1, 2)", "rows"),
    ("SELECT 1 UNION SELECT 2", "either"), ("(SELECT 1)", "either"), ("SELECT 1 HAVING 1", "either"), ("SELECT 1 FOR UPDATE", "either"),
    ("SELECT 1 GROUP BY 1", "either"), ("SELECT 1 INTO @x", "either"), ("SELECT 1 FROM DUAL", "either"), ("EXPLAIN t", "either"),
]
APP = [(t, "app") for t in [
    "INSERT INTO t VALUES (1) /* {m} */", "INSERT INTO t SELECT a AS {m} FROM db1.t", "INSERT INTO t SELECT table_name AS {m} FROM information_schema.tables",
    "INSERT INTO t (a) VALUES ({m})", "REPLACE INTO t VALUES ('{m}')", "UPDATE t SET a = '{m}'", "UPDATE information_schema.tables SET a = '{m}'",
    "DELETE FROM t WHERE a = '{m}'", "DELETE FROM information_schema.tables WHERE a = '{m}'", "CREATE TABLE {m} (a INT)",
    "CREATE TABLE {m} AS SELECT table_name FROM information_schema.tables", "CREATE TABLE {m} AS SELECT 1", "CREATE VIEW {m} AS SELECT 1", "DROP TABLE {m}", "TRUNCATE {m}",
    "ALTER TABLE {m} ADD b INT", "CREATE DATABASE {m}", "DROP DATABASE {m}", "CALL {m}()", "CALL foo('{m}')", "LOCK TABLES {m} READ", "UNLOCK TABLES", "ANALYZE TABLE {m}",
    "OPTIMIZE TABLE {m}", "GRANT SELECT ON x TO {m}", "PREPARE {m} FROM 'select 1'", "EXECUTE {m}", "CREATE USER {m}", "CREATE INDEX {m} ON t (a)",
    "EXPLAIN SELECT {m} FROM t", "EXPLAIN SELECT {m} FROM information_schema.tables", "EXPLAIN FORMAT=JSON SELECT {m} FROM t", "EXPLAIN ANALYZE SELECT {m} FROM t",
    "EXPLAIN INSERT INTO t VALUES ('{m}')", "EXPLAIN UPDATE t SET a = '{m}'", "EXPLAIN DELETE FROM t WHERE a = '{m}'", "EXPLAIN SELECT '{m}'",
    "EXPLAIN WITH c AS (SELECT {m} FROM t) SELECT * FROM c", "EXPLAIN (SELECT {m} FROM t)",
    "DESCRIBE SELECT {m} FROM t", "DESC SELECT {m} FROM t", "DESC SELECT {m} FROM t UNION SELECT a FROM t", "DESCRIBE SELECT {m} FROM information_schema.tables",
    "DESCRIBE WITH c AS (SELECT {m} FROM t) SELECT * FROM c", "DESC (SELECT {m} FROM t)", "DESCRIBE SELECT '{m}'",
    "SELECT * FROM (SELECT 1 AS {m}) q", "WITH c AS (SELECT 1 AS {m}) SELECT * FROM c", "VALUES ROW('{m}')", "SELECT '{m}' FROM JSON_TABLE('[]', '$[*]' COLUMNS(a INT PATH '$')) j",
    "WITH t AS (SELECT 1 AS {m}) SELECT * FROM t", "WITH tables AS (SELECT 1 AS {m}) SELECT * FROM tables", "WITH tables AS (SELECT a AS {m} FROM db1.t) SELECT * FROM tables",
    "WITH `user` AS (SELECT a AS {m} FROM db1.t) SELECT * FROM `USER`",
    "WITH RECURSIVE c AS (SELECT 1 AS {m} UNION ALL SELECT {m} + 1 FROM c WHERE {m} < 5) SELECT * FROM c",
    "SELECT * FROM (WITH tables AS (SELECT 1 AS {m}) SELECT * FROM tables) q", "SELECT 1 AS {m} FROM db1.t WHERE a IN (SELECT 2)",
    "SELECT {m}, 'USE db2; KILL 5; SET x = 1' FROM db1.t", "SELECT NOW() AS {m}, DATABASE() FROM db1.t", "SELECT /*+ SET_VAR(sql_mode='q') */ {m} FROM db1.t",
    "SELECT `set`, `show`, `use` AS {m} FROM db1.`kill`", "SELECT {m} FROM db1.information_schema", "SELECT {m} FROM db1.`information_schema.tables`",
    "SELECT {m} FROM db1.t AS information_schema", "SELECT information_schema.{m} FROM db1.t AS information_schema", "SELECT {m} FROM `information_schema `.t",
    "SELECT {m} FROM mysqlx.user", "SELECT {m} FROM information_schema2.tables",
]] + [("SELECT {m} FROM information_schema.tables, db1.t WHERE boom = 1", "fail"), ("INSERT INTO boom VALUES ('{m}')", "fail"),
     ("INSERT INTO nores VALUES ('{m}')", "app-ok"), ("SELECT {m} FROM db1.nores", "app-ok"), ("UPDATE nocols SET a = '{m}'", "app-ok"),
     ("SELECT {m} FROM db1.norows", "app-empty"), ("SELECT {m} FROM db1.asyncrows", "app")]
EMPTY = [(t, "none") for t in ["", ";", ";;", " ", "-- c", "/* c */", "# c", "/* SELECT 1 FROM t */", "-- SELECT 1 FROM t", ";/* c */;", "\n"]]
CATQ = [("SELECT table_name FROM information_schema.tables WHERE table_schema = 'db1' ORDER BY table_name", [("t",), ("tables",)]),
        ("SELECT table_name FROM INFORMATION_SCHEMA.TABLES WHERE table_schema = 'db2' AND table_name = 't'", [("t",)]),
        ("WITH c AS (SELECT table_name FROM information_schema.tables WHERE table_schema = 'db1') SELECT * FROM c ORDER BY table_name", [("t",), ("tables",)]),
        ("SELECT COUNT(*) FROM information_schema.schemata", "rows"), ("SELECT user FROM mysql.user", []),
        ("SELECT q.table_name FROM (SELECT table_name FROM information_schema.tables WHERE table_schema = 'db1') AS q ORDER BY q.table_name", [("t",), ("tables",)]),
        ("SELECT t.table_name FROM information_schema.tables AS t JOIN information_schema.columns AS c ON t.table_name = c.table_name AND "
         "t.table_schema = c.table_schema WHERE t.table_schema = 'db1' ORDER BY 1", "rows")]

REFS = {"U": "t", "Q": "db1.t", "C": "information_schema.tables", "M": "mysql.user", "UC": "tables", "QX": "`db2`.`tables`", "CU": "INFORMATION_SCHEMA.`COLUMNS`",
        "MQ": "`Mysql`.`user`"}
SHAPES = {1: [
    "SELECT {m} FROM {0}", "SELECT {m} FROM {0} AS q WHERE 1 = 1 LIMIT 3", "SELECT (SELECT {m} FROM {0} LIMIT 1)", "SELECT EXISTS(SELECT {m} FROM {0})",
    "SELECT 1 IN (SELECT {m} FROM {0})", "SELECT * FROM (SELECT {m} FROM {0}) q", "WITH c AS (SELECT {m} FROM {0}) SELECT * FROM c",
    "WITH c AS (SELECT {m} FROM {0}) SELECT 2", "(SELECT {m} FROM {0})", "SELECT {m} FROM {0} FOR UPDATE",
    "SELECT DISTINCT {m} FROM {0} GROUP BY {m} HAVING {m} > 1 ORDER BY {m}", "SELECT COUNT(*) AS {m} FROM {0}", "SELECT {m} FROM {0} UNION SELECT 1",
    "SELECT 1 AS {m} WHERE EXISTS (SELECT 1 FROM {0})", "SELECT 1 AS {m} ORDER BY (SELECT a FROM {0})", "SELECT 1 UNION SELECT {m} FROM {0}",
    "SELECT CASE WHEN (SELECT {m} FROM {0}) THEN 1 END", "SELECT * FROM (SELECT * FROM (SELECT {m} FROM {0}) q) r", "SELECT CONCAT((SELECT {m} FROM {0}), 'a')",
    "WITH c AS (SELECT {m} FROM {0}), d AS (SELECT * FROM c) SELECT * FROM d", "SELECT -(SELECT {m} FROM {0})", "SELECT {m} FROM ({0})",
    "WITH t AS (SELECT {m} FROM {0}) SELECT * FROM t", "SELECT * FROM (WITH c AS (SELECT {m} FROM {0}) SELECT * FROM c) q",
    "WITH Cc AS (SELECT {m} FROM {0}) SELECT * FROM cC",
], 2: [
    "SELECT {m} FROM {0} x, {1} y", "SELECT {m} FROM {0}, {1}", "SELECT {m} FROM {0} x JOIN {1} y ON x.a = y.a", "SELECT {m} FROM {0} JOIN {1} ON 1 = 1",
    "SELECT {m} FROM {0} x LEFT JOIN {1} y USING (a)", "SELECT {m} FROM {0} x CROSS JOIN {1} y", "SELECT {m} FROM {0} x NATURAL JOIN {1} y",
    "SELECT {m} FROM ({0} x CROSS JOIN {1} y)", "SELECT {m} FROM {0} x RIGHT JOIN ({1} y) ON x.a = y.a", "SELECT {m} FROM {0} WHERE a IN (SELECT a FROM {1})",
    "SELECT {m} FROM {0} x WHERE EXISTS (SELECT 1 FROM {1} y WHERE x.a = y.a)", "SELECT {m} FROM {0} WHERE NOT EXISTS (SELECT 1 FROM {1})",
    "SELECT (SELECT a FROM {1}) AS {m} FROM {0}", "SELECT (SELECT a FROM {0}), (SELECT {m} FROM {1})", "SELECT {m} FROM {0} WHERE a = (SELECT a FROM {1})",
    "SELECT {m} FROM {0} WHERE a > ALL (SELECT a FROM {1})", "SELECT {m} FROM (SELECT a FROM {0}) x, {1} y", "SELECT {m} FROM (SELECT a FROM {0}) x, (SELECT a FROM {1}) y",
    "SELECT {m} FROM {0} UNION SELECT a FROM {1}", "SELECT {m} FROM {0} UNION ALL SELECT a FROM {1} ORDER BY 1 LIMIT 2", "(SELECT {m} FROM {0}) UNION (SELECT a FROM {1})",
    "SELECT {m} FROM {0} EXCEPT SELECT a FROM {1}", "SELECT {m} FROM {0} INTERSECT SELECT a FROM {1}", "WITH c AS (SELECT a FROM {0}) SELECT {m} FROM c, {1}",
    "WITH c AS (SELECT a FROM {0}) SELECT {m} FROM {1}", "WITH c AS (SELECT a FROM {0}), d AS (SELECT a FROM {1}) SELECT {m} FROM c, d",
    "WITH c AS (SELECT a FROM {0}), d AS (SELECT a FROM {1}) SELECT {m} FROM c", "WITH c AS (SELECT a FROM {0} UNION SELECT a FROM {1}) SELECT {m} FROM c",
    "SELECT {m} FROM {0} GROUP BY a HAVING a > (SELECT a FROM {1})", "SELECT {m} FROM {0} ORDER BY (SELECT a FROM {1})",
    "SELECT {m} FROM {0} x JOIN {0} z ON x.a = (SELECT a FROM {1})", "SELECT CASE WHEN EXISTS (SELECT 1 FROM {1}) THEN 1 END AS {m} FROM {0}",
    "SELECT {m} FROM (SELECT * FROM (SELECT a FROM {0}) p, (SELECT a FROM {1}) q) r", "SELECT {m} FROM {0} WHERE a IN (SELECT a FROM {0} WHERE a IN (SELECT a FROM {1}))",
    "SELECT {m} FROM (WITH c AS (SELECT a FROM {0}) SELECT * FROM c) q, {1}", "SELECT {m} FROM (SELECT a FROM {0} UNION SELECT a FROM {1}) q",
    "SELECT {m} FROM {0} x, LATERAL (SELECT a FROM {1} y WHERE x.a = y.a) z", "SELECT COALESCE((SELECT a FROM {0}), (SELECT a FROM {1})) AS {m}",
], 3: [
    "SELECT {m} FROM {0} x JOIN {1} y ON 1 = 1 JOIN {2} z ON 1 = 1", "SELECT {m} FROM {0} UNION SELECT a FROM {1} UNION ALL SELECT a FROM {2}",
    "SELECT {m} FROM {0} WHERE a IN (SELECT a FROM {1} WHERE a IN (SELECT a FROM {2}))",
]}


def shape_expect(refs, db):
    """Which side answers a query reading exactly these tables."""
    for r in refs:
        q = REFS[r].replace("`", "").split(".")
        d = q[0] if len(q) == 2 else db
        if d is None or d.lower() not in CATALOG:
            return "app"
    return "any"


# ---- running --------------------------------------------------------------------------------------------
TRANSPORTS = ["query", "execute", "cursor"]


class Run:
    """One connection and its reference model."""

    def __init__(self, ctx, db=None):
        self.ctx = ctx
        self.app = AppX()
        self.w = World(app=self.app)
        self.c = self.w.login(db=db, caps=F)
        self.other = self.w.login(user="o", caps=F)
        self.db = db
        self.n = 0

    def close(self):
        self.w.close()

    def init_db(self, db):
        r = self.c.cmd(wire.com_init_db(db.encode()), "ok")
        check(r.kind == "ok", "COM_INIT_DB answered with %s", r)
        self.db = db

    def select(self, db):
        if self.db == db:
            return
        if db is not None:
            return self.init_db(db)
        r = self.c.change_user("u", db="")
        check(isinstance(r, wire.OK), "change user: %s", r)
        self.db = None

    def send(self, text, transport, attrs=()):
        c = self.c
        if transport == "query":
            return c.query(text, attrs)
        p = c.prepare(text)
        if p.kind == "err":
            return p
        check(p.num_params == 0, "placeholders in %r", text)
        check(not self.app.calls, "COM_STMT_PREPARE of %r reached the application: %s", text, self.app.calls)
        r = c.execute(p.stmt_id, cursor=transport == "cursor", attrs=attrs)
        if r.kind == "cursor":
            f = c.fetch(p.stmt_id, 100000, r.cols)
            if f.kind == "err":
                r = f
            else:
                r = wire.Result("rows", cols=r.cols, rows=f.rows, binary=True, term=f.term)
        c.silent(wire.com_close(p.stmt_id))
        return r

    def list(self, stmts, transport="query", attrs=False, sep="; ", text=None):
        """Send the statements as one text; stmts: [(text with {m}, expectation)]."""
        app = self.app
        app.calls.clear()
        app.uses.clear()
        ncalls = len(self.w.control.calls)
        parts, want, uses, kills = [], [], [], 0
        outcome = "ok"
        running = True
        for t, e in stmts:
            self.n += 1
            m = "m%dm" % self.n
            t = t.replace("{m}", m).replace("{id}", str(self.other.hs.connection_id))
            parts.append(t)
            if not running:
                continue
            if callable(e):
                e = e(self.db)
            if e == "none":
                continue
            outcome = e
            if e in ("app", "fail", "app-ok", "app-empty"):
                want.append((m if m in t else None, self.db))
                if e == "fail":
                    running = False
            elif isinstance(e, tuple):
                uses.append(e[1])
                self.db = e[1]
                outcome = "ok"
            elif e == "kill":
                kills += 1
                outcome = "ok"
        sql = sep.join(parts) if text is None else text(parts)
        r = self.send(sql, transport, ATTR if attrs else ())
        self.ctx.transition()
        got = app.calls
        where = "%r (%s, default database %r)" % (sql, transport, self.db)
        if outcome == "either" and len(stmts) == 1:
            check(len(got) <= 1, "%s reached the application %d times", where, len(got))
            self.ctx.outcome(("either", len(got)))
            return r
        check(len(got) == len(want), "%s: the application was called for %s, expected %d calls", where, [g[0] for g in got], len(want))
        for k, ((m, db), (esql, s, a, d)) in enumerate(zip(want, got)):
            check(m is None or m in esql, "%s: application call %d is for %r, expected the statement with %s", where, k, esql, m)
            others = [x for x, _ in want if x and x != m]
            check(not any(o in esql for o in others), "%s: application call %d has more than one statement: %r", where, k, esql)
            check(s == sql, "%s: application call %d got the text %r", where, k, s)
            check(a == (ATTRS if attrs else {}), "%s: application call %d got the attributes %r", where, k, a)
            check(d == db, "%s: application call %d sees default database %r, selected: %r", where, k, d, db)
        check(app.uses == uses, "%s: session.use called with %r, expected %r", where, app.uses, uses)
        ks = [x[1] for x in self.w.control.calls[ncalls:] if x[0] == "kill"]
        if not any(e == "any" and "KILL" in t.upper() for t, e in stmts):
            check(ks == [self.other.hs.connection_id] * kills, "%s: kill called with %r", where, ks)
        self.result(r, outcome, len(got), where)
        self.ctx.outcome((transport, r.kind, outcome if isinstance(outcome, str) else "rows", len(got)))
        return r

    def result(self, r, e, n, where):
        if e == "app":
            check(r.kind == "rows" and len(r.rows) == 1 and self.cells(r) == [("r%d" % n,)], "%s: answered with %s instead of the application's last result", where, r)
        elif e == "fail":
            check(r.kind == "err" and r.err.code == 1234, "%s: answered with %s instead of the application's error", where, r)
        elif e == "app-empty":
            check(r.kind == "rows" and not r.rows and len(r.cols) == 1, "%s: answered with %s instead of the application's empty result", where, r)
        elif e in ("ok", "app-ok"):
            check(r.kind == "ok", "%s: answered with %s instead of OK", where, r)
        elif e == "rows":
            check(r.kind == "rows", "%s: answered with %s instead of rows", where, r)
        elif isinstance(e, list):
            check(r.kind == "rows" and self.cells(r) == e, "%s: answered with %s %s instead of %s", where, r, r.kind == "rows" and self.cells(r), e)
        else:
            check(e == "any", "unknown expectation %r", e)
            check(r.kind in ("ok", "rows", "err"), "%s: no answer", where)

    @staticmethod
    def cells(r):
        def py(v, c):
            if v is None:
                return None
            if r.binary:
                v = wire.binary_to_py(v, c.type)
                return v.decode() if isinstance(v, bytes) else str(v)
            return bytes(v).decode()
        return [tuple(py(v, c) for v, c in zip(row, r.cols)) for row in r.rows]


SELECT_DB = ("SELECT {m} FROM db9.t", "app")
UNQ = ("SELECT table_name AS {m} FROM tables LIMIT 1", lambda db: "rows" if (db or "").lower() == "information_schema" else "any" if db == "mysql" else "app")
UCAT = UNQ
ALPHABET = [BUILTIN[0], ("USE db2", ("use", "db2")), ("USE information_schema", ("use", "information_schema")), ("SHOW TABLES FROM db1", "rows"), ("BEGIN", "ok"),
            ("SELECT 1", [("1",)]), ("SELECT {m} FROM t JOIN db1.x ON 1 = 1", "app"), ("INSERT INTO t VALUES ('{m}')", "app"), CATQ[0], UNQ,
            ("SELECT {m} FROM information_schema.tables, db1.t", "app"), ("/* c */", "none"), ("INSERT INTO boom VALUES ('{m}')", "fail"),
            # the rest only in the longer alphabet
            ("KILL QUERY {id}", "kill"), ("DESCRIBE `db1`.`t`", "rows"), ("COMMIT", "ok"), ("ROLLBACK", "ok"), ("EXPLAIN SELECT {m} FROM t", "app"), ("SELECT DISTINCT 1", [("1",)]),
            ("SELECT {m} FROM db1.t UNION SELECT a FROM db2.t", "app"), ("SHOW VARIABLES LIKE 'sql_mode'", "rows"), ("UPDATE t SET a = '{m}'", "app"),
            ("", "none"), ("SELECT (SELECT {m} FROM db1.t)", "app"), ("SET NAMES utf8mb4", "ok"), ("CALL {m}()", "app"), ("INSERT INTO nores VALUES ('{m}')", "app-ok"), ("UPDATE nocols SET a = '{m}'", "app-ok"),
            ("SELECT {m} FROM db1.norows", "app-empty")]
SHORT = 13
HARD = ["SELECT ';' AS {m} FROM db1.t", "SELECT {m}, `;` FROM db1.t", "SELECT {m} /* ; */ FROM db1.t", "SELECT 'it''s ; x' AS {m} FROM db1.t", "SELECT 'a\\';' AS {m} FROM db1.t",
        "SELECT \";\" AS {m} FROM db1.t", "SELECT {m} FROM db1.t -- ; x\n", "SELECT {m} FROM db1.t # ; y\n", "INSERT INTO t VALUES (';{m};')", "SELECT '-- ', {m} FROM db1.t",
        "SELECT '/*', {m} FROM db1.t", "SELECT '*/', \"'\", {m} FROM db1.t", "SELECT `'`, {m} FROM db1.t", "/* a; */ SELECT {m} FROM db1.t", "SELECT '\\\\', {m} FROM db1.t",
        "\n\t SELECT\n{m}\nFROM\ndb1.t\n"]
SEPS = [";", " ; ", ";\n", ";;", "; /* c */ ;", ";-- c;\n", ";\n\n;\t", ";/* a */ /* b;*/"]
ENDS = ["", ";", "; ", ";\n", ";-- end", ";/* end; */", ";;", ";# end\n;"]
DECOR = [("", ""), ("/* c */ ", ""), ("\n\t ", " \n"), ("-- c\n", ""), ("", " /* x; */"), ("", ";"), ("", " -- x"), ("", "; /* x */"), (";", ""), ("/* a */ /* b */ ", ";-- z"),
         ("# c\n", " # d")]

SELECTIONS = [("init", "d1"), ("init", "information_schema"), ("init", "a'b`c;d"), ("use", "d2"), ("use", "mysql"), ("use", "u x"), ("prep", "d3"), ("multi", "d4"),
              ("change", "d5"), ("change", ""), ("reset", None), ("change_fail", "zz"), ("init", "é"), ("quoted", None)]


def cases(tier):
    th = tier == "thorough"
    out = []
    for g in ("BUILTIN", "FROMLESS", "APP", "EMPTY", "CATQ"):
        n = len(globals()[g])
        for d in range(len(DBS)):
            for lo in range(0, n, 30):
                out.append(dict(k="single", g=g, db=d, lo=lo, hi=lo + 30))
        for lo in range(0, n, 10):
            out.append(dict(k="decor", g=g, lo=lo, hi=lo + 10, dbs=list(range(len(DBS))) if th else [1, 2]))
    for ns in (1, 2, 3):
        for i in range(len(SHAPES[ns])):
            for d in range(len(DBS)):
                if ns == 3 and not th and d not in (0, 2):
                    continue
                out.append(dict(k="shape", ns=ns, i=i, db=d, refs=list(REFS) if ns < 3 or th else ["U", "Q", "C", "M"]))
    full = range(len(ALPHABET))
    for n in (1, 2):
        for first in full:
            out.append(dict(k="lists", n=n, first=[first], alpha=len(ALPHABET)))
    for first in itertools.product(full if th else range(SHORT), repeat=2):
        out.append(dict(k="lists", n=3, first=list(first), alpha=len(ALPHABET) if th else SHORT))
    if th:
        for first in itertools.product(range(SHORT), repeat=2):
            out.append(dict(k="lists", n=4, first=list(first), alpha=SHORT))
    for n in (70000, 2**20 + 10) + ((2**22, 2**24 + 10) if th else ()):
        out.append(dict(k="long", what="text", n=n))
    for n in (300, 3000) + ((30000,) if th else ()):
        out.append(dict(k="long", what="values", n=n))
    for n in (30, 130, 300, 1030) + ((5000,) if th else ()):
        out.append(dict(k="long", what="list", n=n))
    out.append(dict(k="long", what="many", n=20000 if th else 1100))
    for i in range(len(HARD)):
        out.append(dict(k="hard", i=i))
    for n in range(1, 5 if th else 4):
        for first in itertools.product(range(len(SELECTIONS)), repeat=max(1, n - 2)):
            out.append(dict(k="select", n=n, first=list(first)))
    return out


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


def k_single(case, ctx):
    db = DBS[case["db"]]
    for t, e in globals()[case["g"]][case["lo"]:case["hi"]]:
        run = Run(ctx, db)
        try:
            for tr in TRANSPORTS:
                run.select(db)
                run.list([(t, e)], tr, attrs=True)
                ctx.state((t, db, tr))
            ctx.trace()
        finally:
            run.close()


def k_decor(case, ctx):
    for t, e in globals()[case["g"]][case["lo"]:case["hi"]]:
        for d in case["dbs"]:
            db = DBS[d]
            run = Run(ctx, db)
            try:
                for n, (pre, post) in enumerate(DECOR):
                    run.select(db)
                    run.list([(t, e)], "query", text=lambda p: pre + p[0] + post)
                    ctx.state((t, db, "decor", n))
                run.select(db)
                low = t.lower()
                if isinstance(e, str) and "'" not in t and "`" not in t:
                    run.list([(low, e)], "query")
                    ctx.state((low, db))
                ctx.trace()
            finally:
                run.close()


def k_shape(case, ctx):
    db = DBS[case["db"]]
    shape = SHAPES[case["ns"]][case["i"]]
    run = Run(ctx, db)
    try:
        for n, refs in enumerate(itertools.product(case["refs"], repeat=case["ns"])):
            t = shape
            for i, r in enumerate(refs):
                t = t.replace("{%d}" % i, REFS[r])
            e = shape_expect(refs, db)
            run.list([(t, e)], TRANSPORTS[n % 2], attrs=bool(n & 1))
            ctx.state((case["ns"], case["i"], refs, db))
            ctx.outcome(("shape", e))
            if n % 40 == 39:
                run.close()
                run = Run(ctx, db)
        ctx.trace()
    finally:
        run.close()


def k_lists(case, ctx):
    al = ALPHABET[:case["alpha"]]
    n, first = case["n"], case["first"]
    run = None
    try:
        for k, rest in enumerate(itertools.product(range(len(al)), repeat=n - len(first))):
            idx = tuple(first) + rest
            if k % 40 == 0:
                if run:
                    run.close()
                run = Run(ctx, "db1")
            if run.db != "db1":
                run.init_db("db1")
            stmts = [ALPHABET[i] for i in idx]
            trs = TRANSPORTS if n <= 2 else TRANSPORTS[:1] if k % 2 else TRANSPORTS[1:2]
            for tr in trs:
                if run.db != "db1":
                    run.init_db("db1")
                run.list(stmts, tr, attrs=bool(k & 1), sep=SEPS[(k + len(tr)) % 3])
            ctx.state(("lists", idx))
            ctx.trace()
    finally:
        if run:
            run.close()


def k_hard(case, ctx):
    a = HARD[case["i"]]
    run = Run(ctx, None)
    try:
        for j, b in enumerate(HARD):
            for s in SEPS:
                for x, end in enumerate(ENDS):
                    if (j + x) % 2 and s not in (";", ";;"):
                        continue
                    run.list([(a, "app"), (b, "app")], "query", sep=s, text=lambda p: s.join(p) + end)
                    ctx.state(("hard", case["i"], j, s, end))
        ctx.trace()
    finally:
        run.close()


def k_long(case, ctx):
    """Long statements, long lists of statements, many statements on one connection."""
    run = Run(ctx, "db1")
    n = case["n"]
    try:
        if case["what"] == "text":
            for tr in TRANSPORTS:
                run.list([("SELECT {m}, '%s' FROM db1.t" % ("x;" * (n // 2)), "app")], tr, attrs=True)
                run.list([("SELECT {m} /* %s */ FROM db1.t" % ("y;" * (n // 2)), "app")], tr, attrs=True)
            run.list([("SELECT {m} FROM db1.t", "app"), ("SELECT '%s', {m} FROM db1.t" % ("z" * n), "app"), ("USE db2", ("use", "db2")), ("SELECT {m} FROM t", "app")])
            run.list([("SELECT {m} /* %s */ FROM t" % ("y" * n), "app"), ("SELECT 5", [(b"5",)] if False else "rows")])
        elif case["what"] == "values":
            for tr in TRANSPORTS:
                run.list([("INSERT INTO nores VALUES ('{m}'), %s" % ", ".join("(%d)" % i for i in range(n)), "app-ok")], tr)
        elif case["what"] == "list":
            stmts = [[("SELECT {m} FROM db1.t", "app"), ("SET autocommit=1", "ok"), ("SELECT 1", "rows"), ("USE d%d" % i, ("use", "d%d" % i)), ("INSERT INTO nores VALUES ('{m}')", "app-ok")][i % 5]
                     for i in range(n)]
            run.list(stmts)
            run.list(stmts[::-1])
            run.list([("SELECT {m} FROM db1.t", "app")] * n, "execute")
        else:
            for i in range(n):
                run.list([("SELECT {m} FROM db1.t", "app")], TRANSPORTS[i % len(TRANSPORTS)], attrs=i % 3 == 0)
                if i % 4 == 0:
                    run.list([("INSERT INTO nores VALUES ('{m}')", "app-ok")])
                    run.list([("USE d%d" % i, ("use", "d%d" % i))])
        ctx.state(repr(case))
        ctx.trace()
    finally:
        run.close()


def k_select(case, ctx):
    """Histories of database selections; after each the application, DATABASE() and unqualified names agree with the last one."""
    for rest in itertools.product(range(len(SELECTIONS)), repeat=case["n"] - len(case["first"])):
        hist = tuple(case["first"]) + rest
        for start in (None, "h1", "") if case["n"] < 3 else ((None, "h1", "")[sum(hist) % 3],):
            run = Run(ctx, start)
            run.db = start or None
            try:
                for n, i in enumerate(hist):
                    kind, db = SELECTIONS[i]
                    c = run.c
                    if kind == "init":
                        run.init_db(db)
                    elif kind == "quoted":
                        run.list([("USE `a``b\"'`", ("use", "a`b\"'"))])
                    elif kind == "use":
                        run.list([("USE `%s`" % db.replace("`", "``"), ("use", db))])
                    elif kind == "prep":
                        run.list([("USE %s" % db, ("use", db))], "execute")
                    elif kind == "multi":
                        run.list([SELECT_DB, ("USE %s" % db, ("use", db)), SELECT_DB, ("USE z", ("use", "z")), ("USE %s" % db, ("use", db)), ("SELECT 1", [("1",)])])
                    elif kind == "change":
                        r = c.change_user("u", db=db)
                        check(isinstance(r, wire.OK), "change user: %s", r)
                        run.db = db or None
                    elif kind == "reset":
                        r = c.cmd(wire.COM_RESET_CONNECTION, "ok")
                        check(r.kind == "ok", "reset connection: %s", r)
                    elif kind == "change_fail":
                        # the default database of a failed COM_INIT_DB / USE is not selected
                        r = c.query("USE zz; SELECT boom FROM db9.t")
                        check(r.kind == "err", "failing statement: %s", r)
                        run.db = "zz"
                    ctx.state(("select", start, hist[:n + 1]))
                    if n < len(hist) - 1 and n % 2:
                        continue
                    run.list([SELECT_DB])
                    run.list([("SELECT DATABASE(), SCHEMA()", [(run.db, run.db)])])
                    run.list([("SELECT {m} FROM t9", lambda d: "any" if d and d.lower() in CATALOG else "app")], "execute")
                ctx.trace()
            finally:
                run.close()
