"""C16: catalog answers mirror the declared schema."""
import gc
import itertools

from harness import wire
from harness.world import World, RecSession, check

import sqlglot.schema
from mysql_mimic.schema import InfoSchema

ID = "C16"
LEVEL = "model_checking"
GC_EVERY = 5
GC = True
RULE = ("one execution = (schema mapping, current database, catalog statement, pattern) against a real server; the rows must be those of a reference evaluation of the mapping "
        "(next to those an empty mapping has), LIKE by an independent matcher")
BOUNDS = {
    "quick": "all mappings of depth 2/3/4 over <=2 databases x 2 tables x column lists of <=2 columns, x 5 current databases x all catalog statements; 40 special names in every position; "
             "all patterns of length <=3 over {a, b, %, _} and 60 with escapes or regular-expression characters x every statement with LIKE; all histories of <=3 mappings; declared types of every shape; mappings with hundreds of tables, columns and databases; mappings and InfoSchema objects",
    "thorough": "also column lists of all orders of 3 columns, pairs of special names, all patterns of length <=4 over {a, b, %, _, .}",
}
ASSUMPTIONS = ["names contain no backslashes (the SQL parser unescapes them within quoted identifiers)", "patterns and names are compared in the same case",
               "mappings without any column are ambiguous (their depth can't be told)", "without a current database SHOW TABLES may be refused, SHOW COLUMNS too",
               "a database declared in two catalogs may be listed once or twice"]

# A cache of a pure function of the parser library, which takes half the time of each statement otherwise
_names = {}
_normalize = sqlglot.schema.normalize_name


def _normalize_cached(identifier, dialect=None, is_table=False, normalize=True):
    if not isinstance(identifier, str):
        return _normalize(identifier, dialect=dialect, is_table=is_table, normalize=normalize)
    k = identifier, dialect if isinstance(dialect, str) or dialect is None else id(dialect), is_table, normalize
    if k not in _names:
        _names[k] = _normalize(identifier, dialect=dialect, is_table=is_table, normalize=normalize), dialect
    return _names[k][0]


sqlglot.schema.normalize_name = _normalize_cached
BUILTIN = {"information_schema", "mysql"}
F = wire.FULL_CAPS


class App:
    def __init__(self, schema):
        self.mapping = schema

    def schema(self, s):
        return self.mapping

    def query(self, s, e, sql, attrs):
        return [("app",)], ["app"]


# ---- the reference -------------------------------------------------------------------------------
def like(s, p):
    """SQL LIKE; backslash escapes."""
    toks, i = [], 0
    while i < len(p):
        if p[i] == "\\" and i + 1 < len(p):
            toks.append((0, p[i + 1]))
            i += 1
        elif p[i] == "%":
            toks.append((2, ""))
        elif p[i] == "_":
            toks.append((1, ""))
        else:
            toks.append((0, p[i]))
        i += 1
    now = {0}
    for k, c in toks:
        if k == 2:
            now = set(range(min(now), len(s) + 1)) if now else now
        elif k == 1:
            now = {j + 1 for j in now if j < len(s)}
        else:
            now = {j + 1 for j in now if j < len(s) and s[j] == c}
    return len(s) in now


class Ref:
    """db -> table -> [(column, type)], of a mapping of depth n"""

    def __init__(self, mapping, depth):
        if depth == 2:
            mapping = {None: mapping}
        if depth < 4:
            mapping = {"def": mapping}
        self.depth = depth
        self.dbs = {}
        self.rows = []
        for cat, dbs in mapping.items():
            for db, tables in dbs.items():
                d = self.dbs.setdefault(db, {})
                for t, cols in tables.items():
                    d.setdefault(t, []).extend(cols.items())
                    for c, ty in cols.items():
                        self.rows.append((cat, db, t, c, ty))
        self.tables = [(cat, db, t) for cat, dbs in mapping.items() for db, tables in dbs.items() for t in tables]
        self.schemata = [(cat, db) for cat, dbs in mapping.items() for db in dbs if db is not None]


def depth_of(m):
    return 1 + max([depth_of(x) for x in m.values()], default=0) if isinstance(m, dict) else 0


def text(x):
    return None if x is None else str(x) if isinstance(x, (int, float)) else bytes(x).decode()


def ident(n):
    return "`" + n.replace("`", "``") + "`"


def lit(s):
    return "'" + s.replace("'", "''") + "'"


_builtin = {}


class Cat:
    def __init__(self, ctx, w, c, ref, db, what):
        self.ctx, self.w, self.c, self.ref, self.db, self.what = ctx, w, c, ref, db, what

    def rows(self, sql, n=None, via=None):
        if via == "execute":
            p = self.c.prepare(sql)
            check(p.kind == "prepare", "%s: prepare %r: %s", self.what, sql, p)
            r = self.c.execute(p.stmt_id)
            self.c.silent(wire.com_close(p.stmt_id))
        else:
            r = self.c.query(sql)
        self.ctx.transition()
        check(r.kind == "rows" and not r.err, "%s: %r (current database %r): %s", self.what, sql, self.db, r)
        return [tuple(text(x) for x in row[:n]) for row in r.rows]

    def same(self, sql, got, want, ordered=False):
        if not ordered:
            got, want = sorted(got, key=repr), sorted(want, key=repr)
        check(list(got) == list(want), "%s: %r (current database %r): listed %s, expected %s", self.what, sql, self.db, list(got)[:12], list(want)[:12])

    def builtin(self, what):
        return builtin(what)

    # -- statements
    def databases(self, pat=None, via=None, kws=("DATABASES", "SCHEMAS")):
        for kw in kws:
            sql = "SHOW " + kw + (" LIKE " + lit(pat) if pat is not None else "")
            got = [x[0] for x in self.rows(sql, 1, via)]
            want = [d for d in list(self.ref.dbs) + [x[0] for x in builtin("dbs")] if d is not None and (pat is None or like(d, pat))]
            if self.ref.depth == 4:
                got = sorted(set(got)) if len(got) == len([x for x in self.ref.schemata if pat is None or like(x[1], pat)]) + len(want) - len([d for d in self.ref.dbs if pat is None or like(d, pat)]) else got
            self.same(sql, got, want)

    def tables_of(self, db, implicit=False):
        if db in BUILTIN:
            return [t for d, t in builtin("tables") if d == db]
        if self.ref.depth == 2:
            return list(self.ref.dbs[None]) if implicit else []
        return list(self.ref.dbs.get(db, {}))

    def columns_of(self, db, t, implicit=False):
        if db in BUILTIN:
            return [(c, ty) for d, tt, c, ty in builtin("columns") if (d, tt) == (db, t)]
        if self.ref.depth == 2:
            return self.ref.dbs[None].get(t, []) if implicit else []
        return self.ref.dbs.get(db, {}).get(t, [])

    def show_tables(self, db, pat=None, how="FROM", via=None, fulls=("", "FULL ")):
        implicit = db is None
        d = self.db if implicit else db
        like_ = " LIKE " + lit(pat) if pat is not None else ""
        for full in fulls:
            sql = "SHOW %sTABLES%s%s" % (full, "" if implicit else " %s %s" % (how, ident(db)), like_)
            if d is None:
                r = self.c.query(sql)
                check(r.kind in ("err", "rows"), "%s: %r: %s", self.what, sql, r)
                continue
            got = self.rows(sql, 1, via)
            want = [(t,) for t in self.tables_of(d, implicit or d == self.db) if pat is None or like(t, pat)]
            if self.ref.depth == 2 and not implicit:
                check(set(got) <= set((t,) for t in self.ref.dbs[None]) or d in BUILTIN, "%s: %r: %s", self.what, sql, got)
                if d not in BUILTIN:
                    continue
            if self.ref.depth == 4 and len(got) != len(set(got)):
                check(len(got) <= len([1 for x in self.ref.tables if x[1] == d]), "%s: %r: %s", self.what, sql, got)
                got = set(got)
            self.same(sql, got, want)

    def want_columns(self, db, t):
        """-> list, or None if unconstrained"""
        implicit = db is None
        d = self.db if implicit else db
        if d is None:
            ds = [x for x, ts in self.ref.dbs.items() if t in ts]
            if len(ds) != 1 or any(tt == t for _, tt in builtin("tables")):
                return None
            return self.ref.dbs[ds[0]][t]
        if self.ref.depth == 2 and not implicit and d not in BUILTIN:
            return None
        return self.columns_of(d, t, implicit)

    def show_columns(self, db, t, pat=None, one=None, via=None):
        like_ = " LIKE " + lit(pat) if pat is not None else ""
        if db is None:
            sqls = ["SHOW COLUMNS FROM %s" % ident(t), "SHOW FULL COLUMNS IN %s" % ident(t)]
        else:
            sqls = ["SHOW COLUMNS FROM %s FROM %s" % (ident(t), ident(db)), "SHOW COLUMNS FROM %s.%s" % (ident(db), ident(t)), "SHOW FULL COLUMNS FROM %s IN %s" % (ident(t), ident(db)),
                    "SHOW COLUMNS IN %s IN %s" % (ident(t), ident(db)), "SHOW COLUMNS IN %s.%s" % (ident(db), ident(t))]
        sqls = [x + like_ for x in sqls]
        if pat is None:
            sqls += ["%s %s%s" % (kw, ident(db) + "." if db is not None else "", ident(t)) for kw in ("DESCRIBE", "DESC")]
        if one is not None:
            sqls = [sqls[one % len(sqls)]]
        for sql in sqls:
            self.compare_columns(sql, db, t, pat, via)
        if db is None:
            self.field_list(t, pat)

    def compare_columns(self, sql, db, t, pat, via=None):
        want = self.want_columns(db, t)
        if want is None or (db is None and self.db is None):
            r = self.c.query(sql)
            check(r.kind in ("err", "rows"), "%s: %r: %s", self.what, sql, r)
            if want is None or r.kind == "err":
                return
        got = self.rows(sql, 2, via)
        want = [x for x in want if pat is None or like(x[0], pat)]
        self.same(sql, got, want, ordered=True)

    def field_list(self, t, pat=None):
        want = self.want_columns(None, t)
        r = self.c.cmd(wire.com_field_list(t.encode(), (pat or "").encode()))
        self.ctx.transition()
        what = "COM_FIELD_LIST %r %r" % (t, pat)
        if want is None or self.db is None and r.kind == "err":
            check(r.kind in ("err", "fields"), "%s: %s: %s", self.what, what, r)
            return
        check(r.kind == "fields", "%s: %s: %s", self.what, what, r)
        want = [x[0] for x in want if not pat or like(x[0], pat)]
        self.same(what, [text(x.name) for x in r.cols], want, ordered=True)
        for x in r.cols:
            check(text(x.table) == t and text(x.org_table) in ("", t) and text(x.org_name) in ("", text(x.name)), "%s: %s: the table of the column %r (%r) is %r (%r)", self.what, what, x.name, x.org_name, x.table, x.org_table)

    def infoschema(self, pats=(None,), q="information_schema.", via=None, one=None):
        ref = self.ref
        if one is not None:
            # one statement instead of three
            sql = "SELECT table_schema, table_name, column_name, %s FROM %scolumns WHERE table_schema NOT IN ('information_schema', 'mysql')" % ("column_type" if one % 2 else "data_type", q)
            if one % 3 == 0:
                sql = "SELECT table_schema, table_name FROM %stables WHERE table_type = 'BASE TABLE'" % q
                self.same(sql, self.rows(sql), [(d or "", t) for _, d, t in ref.tables])
            elif one % 3 == 1:
                sql = "SELECT catalog_name, schema_name FROM %sschemata" % q
                self.same(sql, self.rows(sql), ref.schemata + [("def", d) for d, in builtin("dbs")])
            else:
                self.same(sql, self.rows(sql), [(d or "", t, n, ty) for _, d, t, n, ty in ref.rows])
            return
        for pat in pats:
            w = " WHERE schema_name LIKE " + lit(pat) if pat is not None else ""
            sql = "SELECT catalog_name, schema_name FROM %sschemata%s" % (q, w)
            ok = lambda x: pat is None or like(x, pat)
            self.same(sql, self.rows(sql, None, via), [(c, d) for c, d in ref.schemata + [("def", d) for d, in builtin("dbs")] if ok(d)])
            w = " WHERE table_name LIKE " + lit(pat) if pat is not None else ""
            sql = "SELECT table_catalog, table_schema, table_name FROM %stables%s" % (q, w)
            self.same(sql, self.rows(sql, None, via), [(c, d or "", t) for c, d, t in ref.tables + [("def", d, t) for d, t in builtin("tables")] if ok(t)])
            w = " WHERE column_name LIKE " + lit(pat) if pat is not None else ""
            sql = "SELECT table_catalog, table_schema, table_name, column_name, data_type, column_type, ordinal_position FROM %scolumns%s" % (q, w)
            got = self.rows(sql, None, via)
            self.same(sql, [x[:5] for x in got], [(c, d or "", t, n, ty) for c, d, t, n, ty in ref.rows + [("def",) + x for x in builtin("columns")] if ok(n)])
            order = {(c, d or "", t): [] for c, d, t in ref.tables}
            for c, d, t, n, ty in ref.rows:
                order[c, d or "", t].append(n)
            pos = {}
            for c, d, t, n, ty, cty, p in got:
                check(cty == ty, "%s: %r: the types of %r are %r and %r", self.what, sql, n, ty, cty)
                if (c, d, t) in order:
                    pos.setdefault((c, d, t), []).append((int(p), n))
            for k, v in pos.items():
                check(len({p for p, _ in v}) == len(v) and [n for _, n in sorted(v)] == [n for n in order[k] if ok(n)], "%s: %r: positions %s, declared %s", self.what, sql, v, order[k])

    def filters(self, q="information_schema."):
        ref = self.ref
        allt = [(d or "", t) for _, d, t in ref.tables] + builtin("tables")
        for db in list(ref.dbs) + ["zz", "mysql"]:
            d = db or ""
            sql = "SELECT table_name FROM %stables WHERE table_schema = %s" % (q, lit(d))
            self.same(sql, self.rows(sql), [(t,) for x, t in allt if x == d])
            sql = "SELECT COUNT(*) AS n FROM %stables WHERE table_schema = %s" % (q, lit(d))
            got = self.rows(sql)
            n = len([1 for x, t in allt if x == d])
            check(got == [(str(n),)] or n == 0 and got in ([], [(None,)]), "%s: %r: %s, expected %d", self.what, sql, got, n)
            for t in list(ref.dbs.get(db, {})) + ["zz"]:
                sql = "SELECT column_name, data_type FROM %scolumns WHERE table_schema = %s AND table_name = %s ORDER BY ordinal_position" % (q, lit(d), lit(t))
                if ref.depth < 4:
                    self.same(sql, self.rows(sql), ref.dbs.get(db, {}).get(t, []), ordered=True)
                sql = "SELECT c.column_name FROM %scolumns c WHERE c.table_schema <> %s AND c.table_name = %s" % (q, lit(d), lit(t))
                self.same(sql, self.rows(sql), [(n,) for _, x, tt, n, _ in ref.rows + [("def",) + y for y in builtin("columns")] if tt == t and (x or "") != d])

    def everything(self, full=True, via=None):
        self.databases(via=via)
        self.show_tables(None, via=via)
        for db in [d for d in self.ref.dbs if d is not None] + ["zz", "mysql"]:
            self.show_tables(db, via=via)
            self.show_tables(db, how="IN", via=via)
            for t in list(self.ref.dbs.get(db, {})) + (["zz"] if full else []):
                self.show_columns(db, t, via=via)
        for t in sorted({t for ts in self.ref.dbs.values() for t in ts} | {"zz", "schemata"}):
            self.show_columns(None, t, via=via)
        self.infoschema(via=via)
        if full:
            self.filters()


    def light(self, i):
        """One spelling of each statement, chosen by i"""
        self.databases(kws=("DATABASES", "SCHEMAS")[i % 2:i % 2 + 1])
        named = [d for d in self.ref.dbs if d is not None]
        for j, db in enumerate(named + ["zz", "mysql"][i % 2:i % 2 + 1]):
            self.show_tables(db, how=("FROM", "IN")[(i + j) % 2], fulls=("", "FULL ")[(i + j) // 2 % 2:(i + j) // 2 % 2 + 1])
            for k, t in enumerate(self.ref.dbs.get(db, {})):
                self.show_columns(db, t, one=i + j + k)
        self.show_tables(None, fulls=("", "FULL ")[i % 2:i % 2 + 1])
        for k, t in enumerate(sorted({t for ts in self.ref.dbs.values() for t in ts})):
            self.show_columns(None, t, one=i + k)
        self.infoschema(one=i)


def builtin(what):
    """The catalog of an empty mapping"""
    if not _builtin:
        w = World(session=RecSession, app=App({}))
        try:
            c = w.login(caps=F)

            def q(sql):
                r = c.query(sql)
                check(r.kind == "rows", "empty schema: %s: %s", sql, r)
                return [tuple(text(x) for x in row) for row in r.rows]
            dbs = q("SHOW DATABASES")
            tables = q("SELECT table_schema, table_name FROM information_schema.tables")
            columns = q("SELECT table_schema, table_name, column_name, data_type FROM information_schema.columns")
            check(set(dbs) == {(d,) for d in BUILTIN} and len(dbs) == 2, "databases of an empty schema: %s", dbs)
            for t, cols in (("schemata", ["catalog_name", "schema_name", "default_character_set_name", "default_collation_name", "sql_path"]),
                            ("tables", ["table_catalog", "table_schema", "table_name", "table_type", "engine", "version"]),
                            ("columns", ["table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type"])):
                check(("information_schema", t) in tables and [x[2] for x in columns if x[:2] == ("information_schema", t)][:len(cols)] == cols, "information_schema.%s: %s", t, columns)
            check(len(set(tables)) == len(tables) and {x[0] for x in tables} == BUILTIN and {x[:2] for x in columns} == set(tables) and len(set(columns)) == len(columns), "built-in tables: %s", tables)
            _builtin.update(dbs=dbs, tables=tables, columns=columns)
        finally:
            w.close()
    return _builtin[what]


class Ready(App):
    """Answers with an InfoSchema instead of a mapping"""
    def schema(self, s):
        return InfoSchema.from_mapping(self.mapping)


def cat(ctx, mapping, depth, db=None, what=None, app=App):
    w = World(session=RecSession, app=app(mapping))
    c = w.login(caps=F, db=db) if db else w.login(caps=F)
    return w, Cat(ctx, w, c, Ref(mapping, depth), db, what or str(mapping)[:300])


# ---- cases ---------------------------------------------------------------------------------------
COLS = [{}, {"c": "INT"}, {"c": "INT", "b": "TEXT"}, {"b": "VARCHAR(10)", "c": "decimal(10,2)"}]
SPECIAL = ["a b", "a'b", 'a"b', "a`b", "``", "a.b", "a%b", "a_b", "1", "1a", "1.5", "select", "true", "null", "é", "😀", "A", "$x", "t-1", "a,b", "a;b", "a(b", "#x", "--x", "/*x*/", "@v", "?",
           "%", "_", "in", "from", "like", "where", "''", "current_user", "def", "DEF", " a", "a ", "x" * 64, "y" * 300, ":a", "{a}", "{0}", "%s"]
REGEX = [".", "a.", ".*", "a+", "a*", "a?", "(a)", "[ab]", "[ab]%", "^a", "a$", "a|b", "a{1}", "\\\\", "$", "^", "a.b", "a.c", "+", "*", "?", "(", ")", "[", "]", "{", "}", "|", "\\_", "\\%", "a\\_b",
         "a\\%b", "a\\_%", "\\_\\_", "%\\_%", "%\\%%", "%.%", "%+%", "%(%", "a'b", "%'%", "''", '"', '%"%', "a b", "% %", "é", "%é", "_é", "é_", "😀", "_", "%😀", "-", "a-b", "#", "%#%", "A", "a\nb", "%\n%",
         "a_b", "a__b", "%%", "%_", "_%", "%_%", "%a%b%", "x%y", "%%%", "%_b", "a%_"]
LNAMES = ["a", "b", "aa", "ab", "ba", "bb", "aab", "abab", "a_b", "a%b", "a.b", "a+b", "a*b", "a(b", "[ab]", "a b", "a'b", 'a"b', "é", "aé", "😀", "a-b", "a#b", "a$b", "_", "%", "__", "a|b", "a?b", "^a", "a$", "a{1}",
          "a\nb", "acb", "(a)", "b_a"]


def patterns(n, alphabet):
    return ["".join(p) for k in range(n + 1) for p in itertools.product(alphabet, repeat=k)]


def mappings(cols):
    """All mappings of depth 3 with columns (db names a, ab; table names t, ta)."""
    tables = [{k: v for k, v in zip(("t", "ta"), p) if v is not None} for p in itertools.product([None] + cols, repeat=2)]
    for p in itertools.product([None] + tables, repeat=2):
        m = {k: v for k, v in zip(("a", "ab"), p) if v is not None}
        if depth_of(m) == 3 and any(c for d in m.values() for t in d.values() for c in [t]):
            yield m


def schema_list(tier):
    cols = COLS[:3] if tier == "quick" else COLS
    out = [(m, 3) for m in mappings(cols) if any(t for d in m.values() for t in d.values())]
    for p in itertools.product([None] + COLS, repeat=3):
        m = {k: v for k, v in zip(("t", "ta", "a"), p) if v is not None}
        if any(m.values()):
            out.append((m, 2))
    some = [{}, {"t": {}}, {"t": {"c": "INT"}}, {"ta": {"b": "X", "c": "INT"}, "t": {"c": "TEXT"}}]
    for p in itertools.product([None] + (some if tier == "thorough" else [some[0], some[3]]), repeat=4):
        m = {"def": {k: v for k, v in zip(("a", "ab"), p) if v is not None}, "c2": {k: v for k, v in zip(("q", "qa"), p[2:]) if v is not None}}
        if not any(t for d in m.values() for ts in d.values() for t in ts.values()):
            continue
        m1 = {k: v for k, v in m.items()}
        out.append((m1, 4))
    # the same database in two catalogs
    for x, y in itertools.product(some, repeat=2):
        m = {"def": {"a": x}, "c2": {"a": y, "b": {"t": {"c": "INT"}}}}
        out.append((m, 4))
    # one catalog only, any name
    for x in some[2:]:
        out.append(({"other": {"a": x}}, 4))
    # many
    out.append(({"d%d" % i: {"t%d" % j: {"c%d" % k: "T%d" % k for k in range(j * 3 % 7)} for j in range(i * 5 % 11)} for i in range(20)}, 3))
    out.append(({"t%d" % i: {"c%d" % k: "INT" for k in range(250 * i, 0, -1)} for i in range(3)}, 2))
    if tier == "thorough":
        for perm in itertools.permutations([("c", "INT"), ("b", "TEXT"), ("a", "X"), ("z", "INT")]):
            out.append(({"a": {"t": dict(perm), "ta": dict(reversed(perm))}, "ab": {"ta": dict(perm)}}, 3))
            out.append(({"t": dict(perm), "ta": dict(reversed(perm))}, 2))
    return out


CURRENT = [None, "a", "ab", "zz", "information_schema"]


def cases(tier):
    th = tier == "thorough"
    out = []
    n = len(schema_list(tier))
    for i in range(n):
        out.append(dict(k="schema", i=i, tier=tier))
    for d in (2, 3, 4):
        out.append(dict(k="types", depth=d))
    for i in range(len(SPECIAL)):
        out.append(dict(k="names", i=i, pairs=th))
    pats = patterns(4 if th else 3, "ab%_") + REGEX
    for i in range(0, len(pats), 6):
        out.append(dict(k="like", pats=pats[i:i + 6]))
    vp = patterns(2, "v%_") + REGEX + ["version", "versio", "ersion", "version_", "version%", "%version%", "version\\_comment", "version_comment", "version__comment", "ver%ent", "time\\_zone", "time_zone", "time%",
                                       "%zone", "time_zon", "ime_zone", "%_zone", "____________", "_________", "%t%t%", "sql_mode", "sql_mod_", "c%", "%c", "character\\_set\\_%", "autocommi_", "a%t", "%.%", "t.me_zone", "auto.*"]
    out.append(dict(k="variables", pats=vp))
    for first in range(len(HIST)):
        out.append(dict(k="history", first=first, n=4 if th else 3))
    out.append(dict(k="sessions"))
    for d in (2, 3, 4):
        out.append(dict(k="big", depth=d, cols=1500 if th else 700))
    out.append(dict(k="charsets"))
    return out


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


def k_schema(case, ctx):
    mapping, depth = schema_list(case["tier"])[case["i"]]
    i = case["i"]
    th = case["tier"] == "thorough"
    for j, db in enumerate(CURRENT):
        if not th and i % 48 and j != i % 5:
            continue
        w, c = cat(ctx, mapping, depth, db, app=Ready if (i + j) % 7 == 3 else App)
        try:
            if i % 48 == 0 and (th or j in (0, 1)) or th and i % 5 == j:
                c.everything(full=j == 0, via="execute" if j else None)
                if j == 4:
                    c.infoschema(q="")
                    c.infoschema(q="INFORMATION_SCHEMA.")
            else:
                c.light(i + j)
                if j == 4:
                    c.infoschema(q=("", "INFORMATION_SCHEMA.")[i % 2], one=i // 2)
            ctx.state((i, db))
        finally:
            w.close()
    ctx.trace()


TYPES = ["VARCHAR(10)", "varchar(255)", "ENUM('a','b')", "DECIMAL(10, 2) UNSIGNED", "int", "Int", "BIGINT UNSIGNED", "DOUBLE PRECISION", "TIMESTAMP(6)", "STRUCT<a INT, b TEXT>", "ARRAY<INT>", "x" * 300,
         "é", "a b", "%", "_", "NULL", "NO", "don't", "1", "a`b", 'a"b', "INT -- c", " INT "]


def k_types(case, ctx):
    """Declared types of every shape"""
    d = case["depth"]
    for k in range(0, len(TYPES), 8):
        ts = TYPES[k:k + 8]
        t = {"c%d" % (9 - i): ty for i, ty in enumerate(ts)}
        t2 = {ty: ty for ty in ts}
        m = {"t": t, "ta": t2}
        m = m if d == 2 else {"a": m, "ab": {"t": dict(reversed(t.items()))}} if d == 3 else {"def": {"a": m}, "c2": {"q": {"t": t2}}}
        for db in (None, "a"):
            w, c = cat(ctx, m, d, db)
            try:
                c.everything(full=db is None, via=None if db else "execute")
                ctx.state((d, k, db))
            finally:
                w.close()
    ctx.trace()


def k_names(case, ctx):
    x = SPECIAL[case["i"]]
    ms = []
    for y in (SPECIAL if case["pairs"] else ["a", SPECIAL[(case["i"] * 7 + 3) % len(SPECIAL)]]):
        if y == x:
            continue
        ms += [({x: {x: {x: "INT", y: "TEXT"}, y: {x: x}}, y: {y: {y: y}, "t": {"z": "INT"}}}, 3), ({x: {y: "INT", x: "INT"}, y: {x: "a"}}, 2)]
        if "def" not in (x.lower(), y.lower()):
            ms.append(({x: {y: {x: {y: "INT"}}}, "def": {x: {y: {x: "B"}}}}, 4))
    for m, d in ms:
        for db in (None, x):
            w, c = cat(ctx, m, d)
            try:
                if db:
                    c.db = db
                    r = c.c.cmd(wire.com_init_db(db.encode()))
                    check(r.kind == "ok", "%s", r)
                if case["pairs"]:
                    c.everything(full=False)
                else:
                    for k in range(3 if d == 3 else 1):
                        c.light(case["i"] + k)
                ctx.state((str(m), db))
            finally:
                w.close()
    ctx.trace()


def k_like(case, ctx):
    names = LNAMES
    m = {n: {"t": {"c": "INT"}} for n in names}
    m["a"] = {n: {"c": "INT"} for n in names}
    m["a"]["t"] = {n: "INT" for n in names}
    for db in ("a", "b"):
        w, c = cat(ctx, m, 3, db, "names with special characters")
        try:
            for p in case["pats"]:
                c.databases(p, kws=("DATABASES", "SCHEMAS") if db == "a" else ("SCHEMAS",))
                c.show_tables("a", p, fulls=("", "FULL ") if db == "a" else ("",))
                c.show_tables("mysql", p, fulls=("",))
                c.show_columns("a", "t", p, one=None if db == "a" else 3)
                c.show_columns("information_schema", "columns", p, one=0)
                if db == "a":
                    c.show_tables(None, p)
                    c.show_columns(None, "t", p)
                    c.infoschema([p])
                    for neg in ("NOT LIKE", "LIKE"):
                        sql = "SELECT column_name FROM information_schema.columns WHERE table_schema = 'a' AND table_name = 't' AND column_name %s %s" % (neg, lit(p))
                        c.same(sql, c.rows(sql), [(n,) for n in names if like(n, p) == (neg == "LIKE")], ordered=True)
                    sql = "SELECT table_name FROM information_schema.tables WHERE table_schema LIKE %s OR table_schema LIKE 'mysq_'" % lit(p)
                    c.same(sql, c.rows(sql), [(t,) for d, ts in m.items() for t in ts if like(d, p)] + [(t,) for d, t in builtin("tables") if d == "mysql" or like(d, p)])
                    if "|" not in p and "\\" not in p:
                        q = p.replace("_", "|_", 1)
                        want = p.replace("_", "\\_", 1)
                        for neg in ("LIKE", "NOT LIKE"):
                            sql = "SELECT column_name FROM information_schema.columns WHERE table_schema = 'a' AND table_name = 't' AND column_name %s %s ESCAPE '|'" % (neg, lit(q))
                            c.same(sql, c.rows(sql), [(n,) for n in names if like(n, want) == (neg == "LIKE")], ordered=True)
                ctx.state((db, p))
        finally:
            w.close()
    ctx.trace()


def k_variables(case, ctx):
    w, c = cat(ctx, {}, 3)
    try:
        allv = c.rows("SHOW VARIABLES")
        check(len({x[0] for x in allv}) == len(allv) > 10 and {"version", "time_zone", "sql_mode", "autocommit", "character_set_client"} <= {x[0] for x in allv}, "SHOW VARIABLES: %s", allv)
        for p in case["pats"]:
            for kw in ("", "GLOBAL ", "SESSION "):
                sql = "SHOW %sVARIABLES LIKE %s" % (kw, lit(p))
                got = c.rows(sql)
                base = allv if not kw.startswith("G") else c.rows("SHOW GLOBAL VARIABLES")
                if p == p.lower():
                    c.same(sql, got, [x for x in base if like(x[0], p)])
                ctx.state((kw, p))
        # after changes
        c.c.query("SET time_zone = '+03:00'")
        c.same("SHOW VARIABLES LIKE", c.rows("SHOW VARIABLES LIKE 'time\\_zone'"), [("time_zone", "+03:00")])
        c.same("SHOW VARIABLES LIKE", c.rows("SHOW VARIABLES LIKE '%'"), c.rows("SHOW VARIABLES"))
    finally:
        w.close()
    ctx.trace()


HIST = [({}, 3), ({"a": {"t": {"c": "INT"}}}, 3), ({"a": {"t": {"b": "TEXT", "c": "INT"}, "u": {"c": "X"}}}, 3), ({"t": {"z": "INT"}}, 2), ({"ab": {"t": {"c": "INT"}}, "a": {}}, 3),
        ({"def": {"a": {"t": {"q": "INT"}}}, "x": {"y": {"t": {"r": "INT"}}}}, 4), ("use", "a"), ("use", "ab"), ("use", "mysql"), ("mutate", None)]


def k_history(case, ctx):
    """The application's schema and the current database change between statements; the answers are those of the moment."""
    import copy
    for nth, rest in enumerate(itertools.product(range(len(HIST)), repeat=case["n"] - 1)):
        if nth % 50 == 49:
            gc.collect()      # the harness keeps it disabled
        w, c = cat(ctx, {"a": {"t": {"c": "INT"}}}, 3)
        hist = (case["first"],) + rest
        try:
            mapping, depth = {"a": {"t": {"c": "INT"}}}, 3
            for k, i in enumerate(hist):
                m, d = HIST[i]
                if m == "use":
                    c.db = d
                    r = c.c.query("USE " + d)
                    check(r.kind == "ok", "%s", r)
                elif m == "mutate":
                    # the application adds to the object it returned
                    x = mapping
                    for _ in range(depth - 2):
                        x = x.setdefault("a" if "def" not in x else "def", {})
                    x.setdefault("t", {})["new%d" % len(x["t"])] = "NEW"
                else:
                    mapping, depth = copy.deepcopy(m), d
                w.app.mapping = mapping
                c.ref = Ref(mapping, depth)
                c.what = "after %s: %s" % ([HIST[j] for j in (case["first"],) + rest], mapping)
                if m == "mutate" and depth_of(mapping) != depth:
                    break
                c.show_tables(None, fulls=("",))
                if k < len(hist) - 1 and (sum(hist) + k) % 3:
                    continue
                c.field_list("t")
                c.compare_columns("SHOW COLUMNS FROM t", None, "t", None)
                sql = "SELECT table_schema, table_name FROM information_schema.tables"
                c.same(sql, c.rows(sql), [(d or "", t) for _, d, t in c.ref.tables] + builtin("tables"))
            c.databases(kws=("DATABASES",))
            ctx.state(hist)
        finally:
            w.close()
    ctx.trace()


def k_sessions(case, ctx):
    """Sessions with different schemas don't see each other's."""
    ms = [({"a": {"t": {"c": "INT"}}}, 3), ({"a": {"t": {"x": "INT"}, "u": {"y": "T"}}, "b": {}}, 3), ({"t": {"q": "W"}}, 2), ({}, 3)]

    class Own(App):
        def schema(self, s):
            return ms[(s.sid if isinstance(s.sid, int) else int(str(s.sid).strip("s"))) % len(ms)][0]
    w = World(session=RecSession, app=Own(None))
    try:
        cats = []
        for i in range(2 * len(ms)):
            c = w.login(caps=F)
            s = w.sessions[-1]
            m, d = ms[(s.sid if isinstance(s.sid, int) else int(str(s.sid).strip("s"))) % len(ms)]
            cats.append(Cat(ctx, w, c, Ref(m, d), None, "session %d with %s" % (i, m)))
        for order in (range(len(cats)), reversed(range(len(cats)))):
            for i in order:
                cats[i].everything(full=False)
                ctx.state(i)
    finally:
        w.close()
    ctx.trace()


def k_big(case, ctx):
    """Many tables, a wide table whose columns aren't sorted, every type text once."""
    n, depth = case["cols"], case["depth"]
    order = [(i * 389 + 7) % n for i in range(n)] if n % 389 else list(range(n, 0, -1))
    wide = {"c%d" % i: "T%d" % (i % 97) for i in order}
    tables = 1213 if depth == 2 else 211
    m = {"wide": wide, **{"t%d" % (i * 37 % tables): {"c": "INT", "a": "INT"} for i in range(tables)}}
    if depth > 2:
        m = {"a": m, **{"d%d" % (i * 11 % 60): {"t": {"z": "A", "y": "B"}} for i in range(60)}}
    if depth > 3:
        m = {"def": m, "other": {"o": {"wide": dict(list(wide.items())[:50])}}}
    for app in (App, Ready):
        w, c = cat(ctx, m, depth, "a", what="a large mapping of depth %d" % depth, app=app)
        try:
            c.databases()
            c.show_tables(None)
            c.show_tables("a")
            c.show_tables("a", "t1%")
            c.show_columns(None, "wide")
            c.show_columns(None, "wide", "c1_")
            c.show_columns("a", "t17")
            c.field_list("wide")
            c.infoschema()
            if depth > 2:
                c.databases("d_")
                c.show_columns("d7", "t")
            ctx.state((depth, app.__name__))
        finally:
            w.close()
    ctx.trace()


def k_charsets(case, ctx):
    """Catalog rows and column definitions decode for clients of other character sets and capabilities."""
    m = {"a": {"té": {"cé": "INT", "d": "TEXT"}}}
    for caps in (F, F & ~wire.DEPRECATE_EOF, F & ~wire.QUERY_ATTRIBUTES, F & ~wire.DEPRECATE_EOF & ~wire.QUERY_ATTRIBUTES):
        for cs, codec in (("utf8mb4", "utf8"), ("latin1", "latin-1"), ("cp850", "cp850")):
            w = World(session=RecSession, app=App(m))
            try:
                c = w.login(caps=caps, db="a")
                check(c.query("SET NAMES " + cs).kind == "ok", "SET NAMES %s", cs)
                r = c.cmd(wire.com_query("SHOW COLUMNS FROM `té`".encode(codec), c.caps))
                check(r.kind == "rows" and [bytes(x[0]).decode("utf8") for x in r.rows] == ["cé", "d"], "SHOW COLUMNS in %s: %s", cs, r)
                for pat, want in ((b"", ["cé", "d"]), ("_é".encode(codec), ["cé"]), (b"%", ["cé", "d"]), (b"x", [])):
                    r = c.cmd(wire.com_field_list("té".encode(codec), pat))
                    check(r.kind == "fields" and [bytes(x.name).decode(codec) for x in r.cols] == want, "COM_FIELD_LIST in %s: %s", cs, r)
                    for x in r.cols:
                        check(bytes(x.table).decode(codec) == "té", "COM_FIELD_LIST in %s: table %r", cs, x.table)
                        check(bytes(x.org_table) in (b"", bytes(x.table)) and bytes(x.org_name) in (b"", bytes(x.name)) and bytes(x.schema).decode(codec) in ("", "a"), "COM_FIELD_LIST in %s: original names %r %r %r", cs,
                              x.schema, x.org_table, x.org_name)
                ctx.state((caps, cs))
            finally:
                w.close()
    ctx.trace()
