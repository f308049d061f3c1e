"""C06: prepared-statement parameters are bound as data, never as SQL."""
import itertools
import struct

import sqlglot
from sqlglot import exp

from harness import wire, sqllex
from harness.world import World, RecBase, RecSession, Violation, check

ID = "C06"
LEVEL = "model_checking"
RULE = ("one execution = (template, parameter tuple, delivery) prepared and executed; the SQL received is lexed with an independent "
        "MySQL lexer and must be the template's tokens with each placeholder replaced by a literal of exactly that value")
BOUNDS = {
    "quick": "all templates of <=3 atoms over 14 atoms x 2 joints x 8 tuples; all strings of length <=2 over 23 characters and <=4 over 5 "
             "in 6 templates; all pairs over 40 adversarial values; all integer boundaries of every width/signedness; all chunkings of "
             "<=6-byte values x 2 parameters; all 3-step programs of executions over 2 statements; parsed expressions of 15 templates",
    "thorough": "templates of <=4 atoms; strings of length <=3 over 23 and <=6 over 5 characters; all triples of values; 4-step programs",
}
ASSUMPTIONS = ["string parameters are valid text in the client character set", "placeholders in comments are not placeholders, as in MySQL",
               "a blank may separate a literal from adjoining text that it would otherwise merge with"]

CHARS = ["'", '"', "\\", "?", "\0", "\n", "\r", "\x1a", "%", "_", "`", "a", "0", "-", "#", "/", "*", ";", " ", "é", "😀", "\\1", "\\g<0>"]
CORE = ["'", "\\", "?", '"', "n"]
NASTY = ["", "'", "''", "\\", "\\'", "\\\\", "\\\\'", "' OR '1'='1", "'; DROP TABLE x; --", "?", "'?'", "? ?", "\\1", "\\g<0>", "\\g<1>", "\\0", "\0",
         "\n", "\\n", "%", "\\%", "_", "\\_", "{0}", "%s", "$1", "&", "/*", "*/", "-- ", "#", "`", '"', "\"?\"", "é'", "😀\\", "NULL", "TRUE", "1",
         "\r\n\x1a", "x" * 300 + "'", "\\" * 7, "'" * 7]
ATOMS = ["?", "'?'", '"?"', "`?`", "'\\'?'", "'it''s ?'", '"a\\"?"', "`a``?`", "/* ? */", "-- ?\n", "# ?\n", "a", ",", "-", "'\"?'", "\"'?\"", "'`'", '"`?"',
         "'\\\\'", "1."]
ATOMS_Q = ATOMS[:6] + [ATOMS[7]] + ATOMS[8:15] + [ATOMS[18]]
TEMPLATES = ["SELECT ?", "SELECT ?, ? FROM x", "SELECT '?', ?, \"?\", ?, `?` FROM x WHERE a = ?", "INSERT INTO t VALUES (?,?,?)",
             "SELECT * FROM t WHERE a='?' AND b=? OR c IN(?,?)", "?", "??", "a?b", "SELECT 1-?", "SELECT 1 -?-? FROM t", "SELECT a FROM t LIMIT?",
             "SELECT ?AND?", "SELECT?", "SELECT -?", "SELECT 'it''s', ?, 'a\\'?', ?", "SELECT \"a\"\"?\", ?", "SELECT `a``?`, ?",
             "SELECT ? /* ? ' */ , ? -- ?'\n, ? # \"?\n, ?", "SELECT ?--?", "SELECT ?-- ?", "SELECT ?/?*?", "SELECT ?'?'", "SELECT '?'?", "SELECT ?.5",
             "SELECT a.?", "SELECT @?", "SELECT (?)", "SELECT\n?\n,\t?", "SELECT 'unterminated ?", "SELECT ? 'unterminated ?", "SELECT '\\\\', ?",
             "SELECT '\\\\\\'', ?", "SELECT é?é", "SELECT ? AS `a?`, '\\1', '\\g<0>', ?", "SELECT '", "SELECT 5e?", "SELECT x?", "SELECT 0x?", "SELECT _utf8?",
             "SELECT ?;", "SELECT ?; SELECT ?", "/*?*/SELECT ?", "SELECT ?#?", "--\n?", "SELECT 'a' 'b?' \"c\" ?", "SELECT ?:?", "SELECT '%s', ?", "SELECT '{}', ?"]
PARSED = ["SELECT ? FROM x", "SELECT a, ? AS b FROM x WHERE c = ? AND d IN (?, '?')", "INSERT INTO t VALUES (?, ?)", "SELECT 1 - ? FROM x",
          "SELECT 1-? FROM x", "SELECT -? FROM x", "UPDATE t SET a = ?, b = ? WHERE c = '?'", "DELETE FROM t WHERE a LIKE ? AND b = ?", "SELECT CONCAT(?, '\\'', ?) FROM x",
          "SELECT `?`, ? FROM x", "SELECT ?, \"?\", ? FROM x", "SELECT a FROM x WHERE b=?AND c=?", "SELECT CASE WHEN a = ? THEN ? END FROM x",
          "SELECT '\\\\', ? FROM x", "SELECT ? /* ? */ , ? FROM x"]
INT_TYPES = {"TINY": 1, "SHORT": 2, "YEAR": 2, "INT24": 4, "LONG": 4, "LONGLONG": 8}
FLOATS = [0.0, 1.0, -1.0, 0.1, -0.1, 1e15, 1e16, 1e22, 1.5e300, -1.7976931348623157e308, 5e-324, 1e-5, 1e-7, 123456789.123456789, 1 / 3, 2.0**53, -0.0]


def S(v, t="VAR_STRING"):
    return (b"", t, False, v.encode() if isinstance(v, str) else v)


def wire_param(v):
    if v is None:
        return (b"", "VAR_STRING", False, None)
    if isinstance(v, str):
        return S(v)
    if isinstance(v, int):
        return (b"", "LONGLONG", v >= 2**63, v)
    return (b"", "DOUBLE", False, v)


def nparams(template):
    try:
        return sum(1 for t in sqllex.lex(template) if t[0] == "param")
    except sqllex.LexError:
        # an unterminated quote swallows the rest
        t = template
        for q in ("'", '"', "`"):
            try:
                return sum(1 for x in sqllex.lex(t + q) if x[0] == "param")
            except sqllex.LexError:
                pass
        return None


TUPLES = [lambda n: ["v%d" % i for i in range(n)], lambda n: ["'"] * n, lambda n: ["\\"] * n, lambda n: ["?"] * n,
          lambda n: [-(i + 1) for i in range(n)], lambda n: [i * 7 for i in range(n)], lambda n: [None if i % 2 else "\\g<0>?'" for i in range(n)],
          lambda n: [-1.5, "?'\\", None, 10**18, "\\"] * n]


def cases(tier):
    th = tier == "thorough"
    out = []
    for i in range(len(TEMPLATES)):
        out.append(dict(k="template", t=TEMPLATES[i], n=len(TUPLES)))
    atoms = ATOMS if th else ATOMS_Q
    depth = 4 if th else 3
    for n in range(1, depth + 1):
        total = len(atoms) ** n * 2
        for lo in range(0, total, 400):
            out.append(dict(k="atoms", n=n, lo=lo, hi=min(total, lo + 400)))
    for t in range(6):
        for n in range(0, 4 if th else 3):
            total = len(CHARS) ** n
            for lo in range(0, total, 300):
                out.append(dict(k="strings", t=t, alpha="CHARS", n=n, lo=lo, hi=min(total, lo + 300)))
        for n in range(3, 7 if th else 5):
            total = len(CORE) ** n
            for lo in range(0, total, 300):
                out.append(dict(k="strings", t=t, alpha="CORE", n=n, lo=lo, hi=min(total, lo + 300)))
    for lo in range(0, len(NASTY)):
        out.append(dict(k="pairs", lo=lo, third=th))
    for t in INT_TYPES:
        for uns in (False, True):
            out.append(dict(k="ints", t=t, uns=uns))
    out.append(dict(k="floats"))
    out.append(dict(k="types"))
    for v in ("é'\\", "", "a", "?'", "😀'", "\\\\'", "\0\n'é"):
        for which in (0, 1):
            out.append(dict(k="chunks", v=v, which=which))
    out.append(dict(k="chunks_big"))
    for n in (250, 4095, 65535, 65536, 300000, (1 << 20) + 3, (5 << 20) + 7) + (((1 << 24) - 40, (1 << 24) + 5) if th else ()):
        for where in ("before", "between", "after", "value", "data", "pieces"):
            if n > 1 << 20 and where in ("before", "after") and not th:
                continue
            out.append(dict(k="long", n=n, where=where))
    for n in (9, 65, 257, 1025) + ((5000, 17000) if tier == "thorough" else ()):
        for up in (True, False):
            out.append(dict(k="stmts", n=n, up=up))
    ops = list(range(10))
    for prog in itertools.product(ops, repeat=4 if th else 3):
        out.append(dict(k="prog", prog=list(prog)))
    for t in range(len(PARSED)):
        for lo in range(0, len(NASTY), 10):
            out.append(dict(k="parsed", t=t, lo=lo, hi=lo + 10))
    for cs in ("gbk", "sjis", "big5", "latin1"):
        out.append(dict(k="charset", cs=cs))
    for n in (0, 1, 7, 8, 9, 63, 64, 65, 250, 251, 256, 1000) + ((20000,) if th else ()):
        out.append(dict(k="many", n=n))
    for n in range(0, 6):
        for sent in range(0, 8):
            for qa in (True, False):
                out.append(dict(k="short", n=n, sent=sent, qa=qa))
    return out


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


class Sess(RecBase):
    async def handle_query(self, sql, attrs):
        self.world.app.got.append((sql, dict(attrs)))
        return None


class A:
    pass


class Rig:
    def __init__(self, ctx, caps=wire.FULL_CAPS, session=Sess, charset=255):
        self.ctx = ctx
        app = A()
        app.got = []
        if session is RecSession:
            def q(s, e, sql, attrs):
                app.got.append((sql, dict(attrs), e))
                return None
            app.query = q
        self.w = World(session=session, app=app)
        self.app = app
        self.c = self.w.login(caps=caps, charset=charset)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.w.close()

    def prepare(self, template, codec="utf8"):
        p = self.c.prepare(template.encode(codec))
        check(p.kind == "prepare", "prepare of %r answered %s", template, p)
        n = nparams(template)
        if n is not None:
            check(p.num_params == n, "prepare of %r announces %d parameters, it has %d placeholders", template, p.num_params, n)
        return p

    def run(self, p, template, values, params=None, raw=None, what=""):
        """Execute and verify the SQL the application received."""
        del self.app.got[:]
        params = [wire_param(v) for v in values] if params is None else params
        r = self.c.execute(p.stmt_id, params, num_params=p.num_params) if raw is None else self.c.cmd(raw)
        check(r.kind == "ok", "%sexecution of %r with %r answered %s", what, template, values, r)
        check(len(self.app.got) == 1, "%s%r with %r reached the application %d times", what, template, values, len(self.app.got))
        sql = self.app.got[0][0]
        self.verify(template, values, sql, what)
        check(self.app.got[0][1] == {}, "%s%r with %r: attributes %r", what, template, values, self.app.got[0][1])
        self.ctx.transition()
        self.ctx.state((template, repr(values)))
        return sql

    def verify(self, template, values, sql, what=""):
        why = None
        t, s = template, sql
        try:
            sqllex.lex(t)
        except sqllex.LexError:
            for q in ("'", '"', "`"):
                try:
                    sqllex.lex(t + q)
                    t, s = t + q, s + q
                    break
                except sqllex.LexError:
                    continue
        why = sqllex.bound_as(t, values, s)
        if why is None and "--" not in template:
            # a parser for which every -- starts a comment must see the same
            why = sqllex.bound_as(t, values, s, dashdash=True)
        check(why is None, "%s%r with %r became %r: %s", what, template, values, sql, why)
        self.ctx.outcome(sql if len(sql) < 200 else hash(sql))


def k_template(case, ctx):
    t = case["t"]
    with Rig(ctx) as r:
        p = r.prepare(t)
        for f in TUPLES:
            r.run(p, t, f(p.num_params)[:p.num_params])
        r.ctx.trace()
    with Rig(ctx, caps=wire.FULL_CAPS & ~wire.QUERY_ATTRIBUTES) as r:
        p = r.prepare(t)
        for f in TUPLES:
            r.run(p, t, f(p.num_params)[:p.num_params])
        r.ctx.trace()


def k_atoms(case, ctx):
    atoms = ATOMS if ctx.tier == "thorough" else ATOMS_Q
    n = case["n"]
    with Rig(ctx) as r:
        for x in range(case["lo"], case["hi"]):
            joint = " " if x % 2 else ""
            y = x // 2
            parts = []
            for _ in range(n):
                parts.append(atoms[y % len(atoms)])
                y //= len(atoms)
            t = joint.join(parts)
            try:
                sqllex.lex(t)
            except sqllex.LexError:
                continue
            p = r.prepare(t)
            for f in TUPLES if p.num_params else TUPLES[:1]:
                r.run(p, t, f(p.num_params)[:p.num_params])
            r.c.silent(wire.com_close(p.stmt_id))
        ctx.trace()


STR_T = ["SELECT ?", "SELECT ?, '?', ? FROM x", "SELECT '\\'', ?, ?", "?/?", "SELECT ?'a'?", "SELECT \"?\", ?, `?`"]


def k_strings(case, ctx):
    t = STR_T[case["t"]]
    alpha = globals()[case["alpha"]]
    with Rig(ctx) as r:
        p = r.prepare(t)
        for x in range(case["lo"], case["hi"]):
            s = []
            for _ in range(case["n"]):
                s.append(alpha[x % len(alpha)])
                x //= len(alpha)
            s = "".join(s)
            r.run(p, t, ([s, s + "?"] * 2)[:p.num_params])
        ctx.trace()


def k_pairs(case, ctx):
    vals = NASTY + [None, -1, 0, 2**64 - 1, -2.5, 1e16]
    a = vals[case["lo"]]
    with Rig(ctx) as r:
        t2, t3 = "SELECT ?, ? FROM t", "SELECT ?,?'?'?"
        p2, p3 = r.prepare(t2), r.prepare(t3)
        for b in vals:
            r.run(p2, t2, [a, b])
            r.run(p2, t2, [b, a])
            for c in (vals if case["third"] else vals[::9]):
                r.run(p3, t3, [a, b, c])
        ctx.trace()


def k_ints(case, ctx):
    t, uns = case["t"], case["uns"]
    n = INT_TYPES[t]
    bits = 8 * n
    lo, hi = (0, (1 << bits) - 1) if uns else (-(1 << bits - 1), (1 << bits - 1) - 1)
    vals = sorted({v for k in range(bits + 1) for d in (-1, 0, 1) for s in (1, -1) if lo <= (v := s * (1 << k) + d) <= hi} | {lo, hi, 0, max(lo, -10)})
    with Rig(ctx) as r:
        for tmpl in ("SELECT ?", "SELECT 1-?", "SELECT ?,?"):
            p = r.prepare(tmpl)
            for v in vals:
                values = [v] * p.num_params
                r.run(p, tmpl, values, [(b"", t, uns, v)] * p.num_params)
        p = r.prepare("SELECT ?,?,?")
        for v in vals:
            # neighbours of other types stay where they are
            r.run(p, "SELECT ?,?,?", ["a'", v, 258], [S("a'"), (b"", t, uns, v), (b"", "SHORT", False, 258)])
        ctx.trace()


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def k_floats(case, ctx):
    with Rig(ctx) as r:
        for tmpl in ("SELECT ?", "SELECT 1-?", "SELECT ?e5", "SELECT ?,?"):
            p = r.prepare(tmpl)
            for v in FLOATS:
                r.run(p, tmpl, [v] * p.num_params, [(b"", "DOUBLE", False, v)] * p.num_params)
                if abs(v) < 3e38 and v != 5e-324:
                    r.run(p, tmpl, [f32(v)] * p.num_params, [(b"", "FLOAT", False, v)] * p.num_params)
        ctx.trace()


def k_types(case, ctx):
    with Rig(ctx) as r:
        p = r.prepare("SELECT ?,?")
        for t in ("VARCHAR", "VAR_STRING", "STRING", "BLOB", "TINY_BLOB", "MEDIUM_BLOB", "LONG_BLOB"):
            for v in NASTY + ["x" * n for n in (250, 251, 252, 65535, 65536)]:
                r.run(p, "SELECT ?,?", [v, 5], [S(v, t), (b"", "TINY", False, 5)])
        # NULL by bitmap for every type, NULL by type
        for t in list(INT_TYPES) + ["FLOAT", "DOUBLE", "VARCHAR", "BLOB", "NULL"]:
            for uns in (False, True):
                r.run(p, "SELECT ?,?", [None, "'"], [(b"", t, uns, None), S("'")])
                r.run(p, "SELECT ?,?", ["'", None], [S("'"), (b"", t, uns, None)])
        r.run(p, "SELECT ?,?", [None, 1], [(b"", "NULL", False, Ellipsis), (b"", "TINY", False, 1)])
        # types that are not supported must fail, never bind something else
        for t in ("DECIMAL", "NEWDECIMAL", "DATETIME", "DATE", "TIME", "TIMESTAMP", "BIT", "JSON", "ENUM", "SET", "GEOMETRY"):
            del r.app.got[:]
            res = r.c.execute(p.stmt_id, [(b"", t, False, b"\x01a"), S("x")], num_params=2)
            if res.kind == "ok" and t not in ("DECIMAL", "NEWDECIMAL", "BIT", "JSON", "ENUM", "SET", "GEOMETRY"):
                raise Violation(f"a {t} parameter with an invalid value was executed as {r.app.got}")
            if res.kind == "ok":
                r.verify("SELECT ?,?", ["a", "x"], r.app.got[0][0])
        ctx.trace()


def compositions(b):
    n = len(b)
    if n == 0:
        return [[], [b""], [b"", b""]]
    out = []
    for mask in range(1 << (n - 1)):
        parts, cur = [], 0
        for i in range(1, n):
            if mask >> (i - 1) & 1:
                parts.append(b[cur:i])
                cur = i
        parts.append(b[cur:])
        out.append(parts)
    out.append([b""] + [b] + [b""])
    return out


def k_chunks(case, ctx):
    v, which = case["v"], case["which"]
    b = v.encode()[:6]
    b = b.decode("utf8", "ignore").encode()
    v = b.decode()
    with Rig(ctx) as r:
        for tmpl in ("SELECT ?,?", "SELECT '?',?,`?`,?"):
            p = r.prepare(tmpl)
            for parts in compositions(b):
                if not parts:
                    continue
                values = ["other'", "other'"]
                values[which] = v
                params = [S("other'"), S("other'")]
                params[which] = (b"", "BLOB", False, Ellipsis)
                for c in parts:
                    r.c.silent(wire.com_long_data(p.stmt_id, which, c))
                r.run(p, tmpl, values, params)
                # the next execution must not see it again
                r.run(p, tmpl, ["p", "q"])
                # interleaved deliveries for both parameters
                for c in parts:
                    r.c.silent(wire.com_long_data(p.stmt_id, which, c))
                    r.c.silent(wire.com_long_data(p.stmt_id, 1 - which, c[::-1] if v.isascii() else b"z"))
                w = b"".join(c[::-1] if v.isascii() else b"z" for c in parts).decode()
                values[1 - which] = w
                r.run(p, tmpl, values, [(b"", "BLOB", False, Ellipsis)] * 2)
                # forgotten by reset, superseded by NULL
                r.c.silent(wire.com_long_data(p.stmt_id, which, b"gone"))
                check(r.c.cmd(wire.com_reset(p.stmt_id)).kind == "ok", "reset failed")
                r.run(p, tmpl, ["p", "q"])
        ctx.trace()


def k_chunks_big(case, ctx):
    with Rig(ctx) as r:
        p = r.prepare("SELECT ?,?")
        q = r.prepare("SELECT ?")
        for sizes in ([70000], [1] * 300, [32768, 32768, 1], [65535, 2], [0, 100000, 0, 3]):
            for fill in ("'", "\\", "x?", "é"):
                text = (fill * (sum(sizes) + 2))
                b = text.encode()
                total = sum(sizes) // len(fill.encode()) * len(fill.encode())
                b = b[:total]
                at = 0
                for s in sizes:
                    r.c.silent(wire.com_long_data(p.stmt_id, 1, b[at:at + s]))
                    r.c.silent(wire.com_long_data(q.stmt_id, 0, b"q"))
                    at += s
                r.run(p, "SELECT ?,?", ["a", b.decode()], [S("a"), (b"", "LONG_BLOB", False, Ellipsis)])
                r.run(q, "SELECT ?", ["q" * len(sizes)], [(b"", "BLOB", False, Ellipsis)])
        ctx.trace()


def k_long(case, ctx):
    """Long statements, values and long data: nothing is cut off, wherever the text is long."""
    n, where = case["n"], case["where"]
    pad = "x" * n
    t = {"before": f"SELECT '{pad}?', ?, ?", "between": f"SELECT ?, '{pad}?', ?", "after": f"SELECT ?, ?, '{pad}?'"}.get(where, "SELECT ?, '?', ?")
    with Rig(ctx) as r:
        p = r.c.prepare(t.encode())
        check(p.kind == "prepare" and p.num_params == 2, "prepare of %d bytes answered %s", len(t), p)
        big = "v'" + pad[:-3] + "\\"
        for which in (0, 1):
            values = ["a'", "b?"]
            params = [S(v) for v in values]
            if where in ("value", "data", "pieces"):
                values[which] = big
                if where == "value":
                    params[which] = S(big)
                else:
                    b, step = big.encode(), n if where == "data" else max(1, n // 41)
                    for at in range(0, len(b), step):
                        r.c.silent(wire.com_long_data(p.stmt_id, which, b[at:at + step]))
                    params[which] = (b"", "LONG_BLOB", False, Ellipsis)
            del r.app.got[:]
            res = r.c.execute(p.stmt_id, params, num_params=2)
            check(res.kind == "ok" and len(r.app.got) == 1, "execution with %d characters (%s) answered %s", n, where, res.kind)
            got = r.app.got[0][0]
            # the long run of x is inert: verified as a short one of its own once it is known to be there in full
            check(got.count(pad[:-3]) == 1, "%d characters (%s) did not arrive in full: %d arrived", n, where, len(got))
            sh = lambda u: u.replace(pad[:-3], "yyy")
            r.verify(sh(t), [sh(v) for v in values], sh(got))
            ctx.transition()
    ctx.trace()


def k_stmts(case, ctx):
    """Many statements prepared before the first of them is executed; long data sent to all."""
    n = case["n"]
    with Rig(ctx) as r:
        ts = [f"SELECT {i}, ?, '?{i}'" for i in range(n)]
        ps = [r.prepare(t) for t in ts]
        check(len({p.stmt_id for p in ps}) == n, "statement ids aren't unique")
        for i, p in enumerate(ps):
            if i % 2:
                r.c.silent(wire.com_long_data(p.stmt_id, 0, b"L%d" % i))
        for i in (range(n) if case["up"] else range(n - 1, -1, -1)):
            if i % 2:
                r.run(ps[i], ts[i], [f"L{i}"], [(b"", "BLOB", False, Ellipsis)])
            else:
                r.run(ps[i], ts[i], [i])
        ctx.trace()


def k_prog(case, ctx):
    """Programs over two statements: executions, long data, resets, failing executions, re-prepare."""
    T = ["SELECT ?, '?', ?", "SELECT ?-?"]
    with Rig(ctx) as r:
        ps = [r.prepare(t) for t in T]
        buf = [{}, {}]
        for n, op in enumerate(case["prog"] + [0, 1]):
            s = op % 2
            kind = op // 2
            if kind == 0:       # plain execution (long data for a parameter supersedes the inline value)
                values = [f"{n}'\\?", -n - 1]
                params = [wire_param(v) for v in values]
                for i, d in buf[s].items():
                    values[i] = d.decode()
                    params[i] = (b"", "BLOB", False, Ellipsis)
                buf[s] = {}
                r.run(ps[s], T[s], values, params)
            elif kind == 1:
                r.c.silent(wire.com_long_data(ps[s].stmt_id, n % 2, b"L%d'" % n))
                buf[s][n % 2] = buf[s].get(n % 2, b"") + b"L%d'" % n
            elif kind == 2:     # failing execution: unsupported parameter type
                del r.app.got[:]
                res = r.c.execute(ps[s].stmt_id, [(b"", "TIMESTAMP", False, b"\x01\x02\x03"), S("x")], num_params=2)
                if 0 not in buf[s]:
                    check(res.kind == "err" and not r.app.got, "bad execution answered %s %s", res, r.app.got)
                buf[s] = {}
            elif kind == 3:
                check(r.c.cmd(wire.com_reset(ps[s].stmt_id)).kind == "ok", "reset")
                buf[s] = {}
            else:               # re-execution without types: right or refused
                del r.app.got[:]
                values = [f"{n}'\\?", -n - 1]
                res = r.c.execute(ps[s].stmt_id, [wire_param(v) for v in values], num_params=2, bound=0)
                if res.kind == "ok":
                    for i, d in buf[s].items():
                        values[i] = d.decode()
                    if not buf[s]:
                        r.verify(T[s], values, r.app.got[0][0], "re-execution: ")
                buf[s] = {}
        ctx.trace()
        ctx.state(("prog", tuple(case["prog"])))


def k_parsed(case, ctx):
    t = PARSED[case["t"]]
    with Rig(ctx, session=RecSession) as r:
        p = r.prepare(t)
        vals = NASTY[case["lo"]:case["hi"]] + [None, -1, 10, 1.5, -0.25]
        for i, v in enumerate(vals):
            values = [v, vals[(i * 3 + 1) % len(vals)], "'?"][:p.num_params]
            del r.app.got[:]
            res = r.c.execute(p.stmt_id, [wire_param(x) for x in values], num_params=p.num_params)
            check(res.kind == "ok" and len(r.app.got) == 1, "%r with %r answered %s", t, values, res)
            sql, _, e = r.app.got[0]
            r.verify(t, values, sql)
            want = sqlglot.parse_one(t, read="mysql")
            it = iter(values)
            phs = list(want.find_all(exp.Placeholder, bfs=False))
            check(len(phs) == len(values), "oracle: %d placeholders", len(phs))
            markers = {}
            for n, ph in enumerate(phs):
                ph.set("this", None)
            # order of appearance in the text = order of parsing; number them through a unique literal
            uniq = [f"__ph{n}__" for n in range(len(values))]
            parts, last, k = [], 0, 0
            for tok in sqllex.lex(t):
                if tok[0] == "param":
                    parts.append(t[last:tok[2]] + f" '{uniq[k]}' ")
                    last = tok[3]
                    k += 1
            want = sqlglot.parse_one("".join(parts) + t[last:], read="mysql")
            for lit in list(want.find_all(exp.Literal)):
                if lit.is_string and lit.this in uniq:
                    v2 = values[uniq.index(lit.this)]
                    if v2 is None:
                        new = exp.Null()
                    elif isinstance(v2, str):
                        new = exp.Literal.string(v2)
                    else:
                        new = exp.Literal.number(str(abs(v2)))
                        if v2 < 0:
                            new = exp.Neg(this=new)
                    lit.replace(new)
            for x in (e, want):
                for n in x.walk():
                    (n[0] if isinstance(n, tuple) else n).comments = None
            check(e == want, "%r with %r was parsed as %s, expected %s", t, values, repr(e), repr(want))
            ctx.transition()
            ctx.state(("parsed", t, repr(values)))
        ctx.trace()


CS = {"gbk": (28, "gbk", ["縗", "縗'", "漢\\", "誠' or 1", "\\縗\\"]), "sjis": (13, "shift_jis", ["表", "表'", "ソ\\'", "予'"]),
      "big5": (1, "big5", ["功", "功'", "許\\", "蓋' ?"]), "latin1": (8, "latin-1", ["é", "é'", "ÿ\\", "\xa0'"])}


def k_charset(case, ctx):
    cid, codec, strs = CS[case["cs"]]
    with Rig(ctx, charset=cid) as r:
        for t in ("SELECT ?, '?', ?", "SELECT '" + strs[0] + "?', ?, ?"):
            if codec == "shift_jis" and "\\" in t:
                continue
            p = r.prepare(t, codec)
            for a in strs:
                for b in strs + ["?", "'"]:
                    enc = [a.encode(codec), b.encode(codec)]
                    if codec == "shift_jis":
                        a2, b2 = (x.decode(codec) for x in enc)
                    else:
                        a2, b2 = a, b
                    r.run(p, t, [a2, b2], [S(enc[0]), S(enc[1])])
                    r.c.silent(wire.com_long_data(p.stmt_id, 0, enc[0][:1]))
                    r.c.silent(wire.com_long_data(p.stmt_id, 0, enc[0][1:]))
                    r.run(p, t, [a2, b2], [(b"", "BLOB", False, Ellipsis), S(enc[1])])
        ctx.trace()


def k_many(case, ctx):
    n = case["n"]
    t = "SELECT 0" + ",?" * n
    for caps in (wire.FULL_CAPS, wire.FULL_CAPS & ~wire.QUERY_ATTRIBUTES):
        with Rig(ctx, caps=caps) as r:
            p = r.prepare(t)
            check(p.num_params == n, "announced %d of %d", p.num_params, n)
            for f in TUPLES[-3:]:
                r.run(p, t, f(n)[:n])
            # every single NULL position
            for i in (range(n) if n <= 70 else (0, 7, 8, n - 1)):
                r.run(p, t, [None if j == i else j for j in range(n)])
            ctx.trace()


def k_short(case, ctx):
    """The parameter count a client sends differs from the announced one."""
    n, sent = case["n"], case["sent"]
    t = "SELECT 0" + ",?" * n
    caps = wire.FULL_CAPS if case["qa"] else wire.FULL_CAPS & ~wire.QUERY_ATTRIBUTES
    with Rig(ctx, caps=caps) as r:
        p = r.prepare(t)
        params = [S(f"v{i}'") for i in range(sent)]
        del r.app.got[:]
        res = r.c.execute(p.stmt_id, params, num_params=sent)
        if sent < n:
            check(res.kind == "err" and not r.app.got, "%d of %d parameters sent: answered %s, application got %s", sent, n, res, r.app.got)
        elif res.kind == "ok":
            r.verify(t, [f"v{i}'" for i in range(n)], r.app.got[0][0])
        r.run(p, t, ["ok"] * n)
        ctx.trace()
