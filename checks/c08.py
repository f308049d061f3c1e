"""C08: connections do not interfere: each behaves as if it were alone."""
import gc
import itertools

from harness import wire
from harness.world import World, RecSession, RecControl, Violation, ProtocolViolation, check
from harness.wire import ProtocolViolation as PV

from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.auth import IdentityProvider, NativePasswordAuthPlugin, AbstractClearPasswordAuthPlugin, User
from mysql_mimic.errors import MysqlError
from mysql_mimic.types import ColumnType

ID = "C08"
LEVEL = "model_checking"
RULE = ("one execution = (programs of 2 or 3 connections, one merge of their events); after every event the bytes sent to, the application "
        "calls made for, and the closing of every connection must equal those of its program run alone up to the same event")
BOUNDS = {
    "quick": "25 programs of <=7 events (packets, parts of packets, completions of application queries and rows, socket drains, disconnects); "
             "all 325 pairs (also with itself): both orders of the stages x all merges of the last 3 events of each; every program with "
             "itself and with 3 partners: every pair of events, the second delivered after every number of event-loop iterations of the "
             "first; all merges of the last 2 events of 6 triples; lockstep crowds of 12; every program and every other in turn, twice, each once the one before is gone and collected",
    "thorough": "all pairs with the last 4 events; whole programs with themselves; iteration-level delivery for all ordered pairs and all "
                "events, handle-level for a program with itself; last 3 events of 13 triples; crowds of 40; six turns",
}
ASSUMPTIONS = ["connection ids and nonces are normalised", "the application keeps no state shared between sessions",
               "after every event the loop runs until idle (coarse) or for k iterations (fine)"]
GC_EVERY = 25
MEM = 4

F = wire.FULL_CAPS
SV = "VAR_STRING"


# ---- the application: stateless, except for its session ------------------------------------------
class Clear(AbstractClearPasswordAuthPlugin):
    name = "clear"

    async def check(self, username, password):
        return username.upper() if password == "pw" else None


class Idp(IdentityProvider):
    def __init__(self):
        self.plugins = [NativePasswordAuthPlugin(), Clear()]

    def get_plugins(self):
        return self.plugins

    async def get_user(self, username):
        if username == "nobody":
            return None
        if username.startswith("c"):
            return User(username, auth_plugin="clear")
        return User(username, auth_string=NativePasswordAuthPlugin.create_auth_string("pw-" + username), auth_plugin="mysql_native_password")


SCHEMAS = {"a": {"db1": {"ta": {"x": "INT", "y": "TEXT"}}, "da": {"ta2": {"z": "DATE"}}}, "b": {"db1": {"tb": {"x": "TEXT"}}},
           "C": {"db1": {"tc": {"q": "INT"}}, "dc": {"tc2": {"z": "DATE"}, "ta": {"n": "TEXT"}}}}


class A:
    async def schema(self, s):
        await s.world.token(s, "schema", optional=True)
        return SCHEMAS.get((s.username or "?")[0], {"db1": {"t": {"x": "INT"}}})

    async def query(self, s, e, sql, attrs):
        w = s.world
        if "gate" in sql:
            await w.token(s, "gate")
        if "boom" in sql:
            raise MysqlError("boom for %s in %s" % (s.username, s.database))
        if "stream" in sql:
            async def rows():
                for i in range(3):
                    await w.token(s, "row")
                    yield (i, "%s%d" % (s.username, i))
            return rows(), ["n", "who"]
        if "big" in sql:
            def gen():
                for i in range(3):
                    yield (i, (s.username or "?") * 70000)
            return ResultSet(rows=gen(), columns=[ResultColumn("n", ColumnType.LONGLONG), ResultColumn("pad", ColumnType.VARCHAR)])
        if "many" in sql:
            return [(i, "%s-%d é" % (s.username, i)) for i in range(5)], ["n", "é"]
        return [(e.sql(dialect="mysql"), s.username, s.database, repr(sorted(attrs.items())), s.variables.get("sql_mode"))], ["sql", "u", "d", "attrs", "m"]


class W(World):
    """World with per-session tokens."""

    def __init__(self):
        World.__init__(self, session=RecSession, app=A(), identity_provider=Idp(), control=RecControl(server_id=1))
        self.tokens = {}
        self.connects = 0

    async def token(self, s, name, optional=False):
        key = (s.sid, name)
        if optional and key not in self.tokens:
            return
        n = self.tokens.setdefault(key, [0, None])
        while n[0] == 0:
            n[1] = self.loop.create_future()
            try:
                await n[1]
            finally:
                n[1] = None
        n[0] -= 1

    def give(self, sid, name):
        n = self.tokens.setdefault((sid, name), [0, None])
        n[0] += 1
        if n[1] is not None and not n[1].done():
            n[1].set_result(None)


# ---- programs -----------------------------------------------------------------------------------
# Every event is a function of the connection; strings are queries.
class Nothing(list):
    def append(self, x):
        pass


class Forgetful(W):
    """World that keeps no session alive."""

    def __init__(self):
        W.__init__(self)
        self.expressions = Nothing()
        self.made = 0

    def _new_sid(self, session):
        self.made += 1
        return self.made - 1


class P:
    """The client side of one connection."""

    def __init__(self, world):
        self.w = world
        self.c = None
        self.sid = None

    def connect(self):
        self.sid = self.w.connects      # sessions are made in the order of the connections
        self.w.connects += 1
        self.c = self.w.connect(run=False)

    def after(self):
        c = self.c
        if c.hs is None and len(c.t.out) > 4:
            pk = c.packets()
            c.hs = wire.parse_handshake(pk[0][2])

    def q(self, sql, attrs=()):
        self.c.send(wire.com_query(sql, self.c.caps, attrs))

    def last_nonce(self):
        pk, _, _ = wire.split(bytes(self.c.t.out))
        return wire.AuthSwitch(pk[-1][2]).nonce

    def stmt_ids(self):
        pk, _, _ = wire.split(bytes(self.c.t.out))
        return [int.from_bytes(b[1:5], "little") for s, n, b in pk if s == 1 and len(b) == 12 and b[0] == 0]


def hs(user="a", db=None, caps=F, charset=255, pw=None, plugin=b"mysql_native_password"):
    def f(p):
        c = p.c
        cp = caps if db is not None else caps & ~wire.CONNECT_WITH_DB
        c.caps = cp & c.hs.caps
        auth = wire.native_scramble(pw if pw is not None else "pw-" + user, c.hs.nonce) if plugin == b"mysql_native_password" else b""
        c.send(wire.handshake_response(cp, user.encode(), auth, db.encode() if db is not None else None, plugin, {b"u": user.encode()}, charset), 1)
    return f


def switch(pw, seq, clear=False):
    def f(p):
        p.c.send(pw.encode() + b"\0" if clear else wire.native_scramble(pw, p.last_nonce()), seq)
    return f


def cmd(b):
    return lambda p: p.c.send(b)


def part(payload, lo, hi):
    def f(p):
        raw = wire.frame(payload(p) if callable(payload) else payload)
        p.c.feed(raw[lo:len(raw) if hi is None else hi])
    return f


def execute(i, params=(), cursor=False, attrs=()):
    return lambda p: p.c.send(wire.com_execute(p.stmt_ids()[i], params, p.c.caps, cursor=cursor, attrs=attrs))


def longdata(i, k, data):
    return lambda p: p.c.send(wire.com_long_data(p.stmt_ids()[i], k, data))


def fetch(i, n):
    return lambda p: p.c.send(wire.com_fetch(p.stmt_ids()[i], n))


def reset(i):
    return lambda p: p.c.send(wire.com_reset(p.stmt_ids()[i]))


def close(i):
    return lambda p: p.c.send(wire.com_close(p.stmt_ids()[i]))


def give(name):
    return lambda p: p.w.give(p.sid, name)


def window(n):
    def f(p):
        if n == 0:
            p.c.t.window = 100
        else:
            p.c.t.open_window(n)
    return f


def chg(user, db="", nonce=True, charset=255, plugin=b"mysql_native_password", pw=None):
    def f(p):
        p.c.send(wire.com_change_user(p.c.caps, user.encode(), wire.native_scramble(pw or "pw-" + user, p.c.hs.nonce), db.encode(), charset, plugin))
    return f


def connect(p):
    p.connect()


def eof(p):
    p.c.eof()


def rst(p):
    p.c.reset()


def killself(sql):
    return lambda p: p.q(sql % p.c.hs.connection_id)


STATE = "SELECT @@sql_mode, @@character_set_results, @@autocommit, DATABASE(), USER(), CURRENT_USER(), CONNECTION_ID(), @@external_user"
APP = "SELECT a, @@sql_mode, DATABASE(), CONNECTION_ID() FROM t"
# name -> (number of leading events that only set the stage, events)
PROGRAMS = {
    "login": (1, [connect, hs("a", "da"), STATE]),
    "login2": (1, [connect, hs("c"), switch("pw", 3, clear=True), STATE]),
    "vars": (2, [connect, hs("a"), "SET sql_mode = 'AAA', autocommit = 0", STATE, "SET sql_mode = DEFAULT", STATE]),
    "vars2": (2, [connect, hs("b", "db1"), STATE, "SET @@session.sql_mode = 'BBB'", APP, STATE]),
    "names": (2, [connect, hs("a", charset=8), "SET NAMES latin1", "SELECT many FROM t", "SET NAMES utf8mb4", "SELECT many FROM t"]),
    "hint": (2, [connect, hs("b"), "SELECT /*+ SET_VAR(sql_mode='H') */ a, @@sql_mode, gate FROM t", give("gate"), STATE, APP]),
    "prep": (3, [connect, hs("a"), cmd(wire.com_prepare("SELECT ?, ?, a FROM t")), longdata(0, 0, b"A'long"),
                 execute(0, [(b"", SV, False, Ellipsis), (b"", "LONG", False, 1)]), execute(0, [(b"", SV, False, b"again"), (b"", "LONG", False, 2)])]),
    "prep2": (3, [connect, hs("b", caps=F & ~wire.QUERY_ATTRIBUTES), cmd(wire.com_prepare("SELECT ?, ?, a FROM t")),
                  cmd(wire.com_prepare("SELECT ? FROM u")), longdata(0, 0, b"B"), execute(0, [(b"", SV, False, Ellipsis), (b"", SV, False, None)])]),
    "cursor": (4, [connect, hs("a"), cmd(wire.com_prepare("SELECT many FROM t")), execute(0, cursor=True), fetch(0, 2), fetch(0, 1), reset(0), fetch(0, 1)]),
    "cursor2": (4, [connect, hs("b", caps=F & ~wire.DEPRECATE_EOF), cmd(wire.com_prepare("SELECT many FROM t")), execute(0, cursor=True),
                    fetch(0, 3), close(0), fetch(0, 1), cmd(wire.COM_PING)]),
    "gated": (3, [connect, hs("b"), "SELECT gate FROM t", give("gate"), "SELECT stream FROM t", give("row"), give("row"), give("row")]),
    "drain": (4, [connect, hs("a"), window(0), "SELECT big FROM t", window(50000), window(100000), window(100000), window(None)]),
    "use": (2, [connect, hs("a"), cmd(wire.com_init_db("da")), "SHOW TABLES", "USE db1", STATE, cmd(wire.com_field_list(b"ta"))]),
    "use2": (2, [connect, hs("c", "db1", plugin=b"mysql_native_password"), switch("pw", 3, clear=True), "SHOW TABLES", cmd(wire.com_init_db("dc")), "SHOW TABLES", STATE]),
    "user": (2, [connect, hs("a"), STATE, chg("b", "db1"), STATE, "SHOW TABLES FROM db1"]),
    "user2": (2, [connect, hs("b"), chg("c", "dc"), switch("pw", 2, clear=True), STATE, APP]),
    "badauth": (1, [connect, hs("a", pw="wrong"), connect, hs("nobody")]),
    "halves": (2, [connect, hs("b"), part(lambda p: wire.com_query(APP, p.c.caps), 0, 3), part(lambda p: wire.com_query(APP, p.c.caps), 3, 20),
                   part(lambda p: wire.com_query(APP, p.c.caps), 20, None), STATE]),
    "errors": (2, [connect, hs("a"), "SELECT boom FROM t", lambda p: p.c.send(wire.com_fetch(77, 1)), cmd(b"\x7f"), "SELEC", STATE]),
    "gone": (2, [connect, hs("b"), "SELECT gate FROM t", rst]),
    "wrongseq": (2, [connect, hs("a"), STATE, lambda p: p.c.send(wire.COM_PING, 5)]),
    "quit": (2, [connect, hs("a"), "SELECT gate FROM t", eof, give("gate")]),
    "killself": (2, [connect, hs("a"), killself("KILL QUERY %d"), STATE, killself("KILL %d")]),
    "attrs": (2, [connect, hs("b"), lambda p: p.q(APP, [(b"who", SV, False, b"b")]), lambda p: p.q(APP), "SHOW VARIABLES LIKE 'sql_mode'", STATE]),
    # the identifiers other connections get for their statements
    "foreign": (2, [connect, hs("b"), lambda p: [p.c.send(wire.com_execute(i, [], p.c.caps)) for i in range(3)], lambda p: [p.c.send(wire.com_fetch(i, 2)) for i in range(3)],
                    lambda p: [p.c.send(wire.com_reset(i)) for i in range(3)], lambda p: [p.c.send(wire.com_close(i)) for i in range(3)], STATE]),
}
NAMES = list(PROGRAMS)
TRIPLES = [("vars", "vars2", "hint"), ("prep", "prep2", "cursor"), ("gated", "drain", "use"), ("user", "user2", "names"), ("cursor", "cursor2", "prep"),
           ("killself", "gone", "gated")]
TRIPLES_TH = TRIPLES + [("attrs", "errors", "halves"), ("use", "use2", "user"), ("wrongseq", "quit", "badauth"), ("vars", "names", "attrs"),
                        ("drain", "drain", "gated"), ("hint", "hint", "vars"), ("halves", "halves", "prep2")]


# ---- running -----------------------------------------------------------------------------------------
class Conn:
    """A program in execution (possibly several connections, one after the other)."""

    def __init__(self, world, prog):
        self.w, self.prog = world, PROGRAMS[prog][1]
        self.p = P(world)
        self.i = 0
        self.old = []

    def feed(self):
        """Deliver the next event, without running the loop."""
        ev = self.prog[self.i]
        self.i += 1
        if ev is connect and self.p.c is not None:
            self.old.append(self.p)
            self.p = P(self.w)
        if isinstance(ev, str):
            self.p.q(ev)
        else:
            ev(self.p)

    def done(self):
        return self.i == len(self.prog)

    def settle(self):
        if self.p.c is not None:
            self.p.after()

    def view(self):
        """What can be observed of this program's connections."""
        out = []
        for p in self.old + [self.p]:
            c = p.c
            if c is None:
                continue
            raw = bytes(c.t.out)
            ident = None
            if c.hs is not None:
                pk, n, ok = wire.split(memoryview(raw))
                first = 4 + len(pk[0][2])
                raw = raw[first:]
                ident = str(c.hs.connection_id).encode()
                raw = raw.replace(ident, b"*" * len(ident))
                # nonces of authentication switches
                for s, n, b in pk[1:]:
                    if b[:1] == b"\xfe" and b"\0" in b and b[1:2] == b"m":
                        nonce = wire.AuthSwitch(b).data
                        raw = raw.replace(nonce, b"?" * len(nonce))
            log = tuple(repr(e[1:]).replace(ident.decode(), "*") if ident else repr(e[1:]) for e in self.w.log if e[0] == p.sid)
            out.append((raw, log, c.closed, c.t.close_called))
        return tuple(out)


_solo = {}


def solo(name):
    """Views after each event of the program run alone."""
    if name not in _solo:
        with W() as w:
            c = Conn(w, name)
            views = [c.view()]
            while not c.done():
                c.feed()
                w.run()
                c.settle()
                views.append(c.view())
        _solo[name] = views
    return _solo[name]


def diff(a, b):
    for x, y in itertools.zip_longest(a, b):
        if x != y:
            if x is None or y is None:
                return "number of connections"
            for what, u, v in zip(("bytes", "application calls", "closed", "closing"), x, y):
                if u != v:
                    if what == "bytes":
                        k = next((i for i, (m, n) in enumerate(zip(u, v)) if m != n), min(len(u), len(v)))
                        return "%s at %d: alone ...%r, together ...%r" % (what, k, u[max(0, k - 30):k + 90], v[max(0, k - 30):k + 90])
                    if what == "application calls":
                        return "%s: alone %s, together %s" % (what, u[-3:], v[-3:])
                    return "%s: alone %s, together %s" % (what, u, v)
    return None


def verify(conns, names, schedule, ctx):
    for k, c in enumerate(conns):
        want = solo(names[k])[c.i]
        got = c.view()
        if got != want:
            raise Violation("%s next to %s, schedule %s: %s" % (names[k], [n for j, n in enumerate(names) if j != k], schedule, diff(want, got)))


def run_merge(names, merge, ctx):
    """merge: sequence of connection indexes, loop run to idle after each event; every prefix is checked."""
    for name in names:
        solo(name)
    with W() as w:
        conns = [Conn(w, n) for n in names]
        for n, k in enumerate(merge):
            conns[k].feed()
            w.run()
            for c in conns:
                c.settle()
            ctx.transition()
            ctx.state((tuple(names), tuple(c.i for c in conns), merge[:n + 1]))
            verify(conns, names, merge[:n + 1], ctx)
    ctx.trace()


def run_fine(names, i, j, k, ctx, handles=False):
    """Connection 0 up to event i, connection 1 up to event j; then event i of 0, k iterations, event j of 1, to idle, then the rest.
    Returns whether the loop was still busy after k iterations."""
    for name in names:
        solo(name)
    with W() as w:
        conns = [Conn(w, n) for n in names]
        for c, upto in zip(conns, (i, j)):
            for _ in range(upto):
                c.feed()
                w.run()
                c.settle()
        conns[0].feed()
        busy = True
        for _ in range(k):
            busy = w.loop.step() if handles else w.loop.iteration()
            if not busy:
                break
        if not busy and k > 0:
            return False
        conns[1].feed()
        w.run()
        for c in conns:
            c.settle()
        ctx.transition(2)
        where = "event %d of 0, %d %s, event %d of 1" % (i, k, "handles" if handles else "iterations", j)
        verify(conns, names, where, ctx)
        while not all(c.done() for c in conns):
            for c in conns:
                if not c.done():
                    c.feed()
                    w.run()
                    c.settle()
                    ctx.transition()
        verify(conns, names, where + ", to the end", ctx)
        ctx.state((tuple(names), i, j, k))
    ctx.trace()
    return True


def merges(ns):
    """All interleavings of sequences with ns[k] events."""
    if not any(ns):
        yield ()
        return
    for k, n in enumerate(ns):
        if n:
            rest = list(ns)
            rest[k] -= 1
            for m in merges(rest):
                yield (k,) + m


PARTNERS = ["hint", "prep", "user2"]      # whose events are delivered in the middle of every program's (quick)


def cases(tier):
    th = tier == "thorough"
    out = []
    for a, b in itertools.combinations_with_replacement(NAMES, 2):
        if th and a == b:
            n = binom(len(PROGRAMS[a][1]), len(PROGRAMS[b][1]))
            for lo in range(0, n, 100):
                out.append(dict(k="merge", names=[a, b], lo=lo, hi=lo + 100, whole=True))
        out.append(dict(k="merge", names=[a, b], lo=0, hi=None, whole=False, keep=4 if th else 3))
    for a, b in itertools.product(NAMES, repeat=2):
        if th or a == b or b in PARTNERS:
            for half in (0, 1):
                out.append(dict(k="fine", names=[a, b], handles=False, staged=not th, half=half))
    for a in NAMES if th else []:
        for half in (0, 1):
            out.append(dict(k="fine", names=[a, a], handles=True, staged=False, half=half))
    for t in (TRIPLES_TH if th else TRIPLES):
        keep = 3 if th else 2
        n = multinom(staged(t, keep)[1])
        for lo in range(0, n, 100):
            out.append(dict(k="triple", names=list(t), lo=lo, hi=lo + 100, keep=keep))
    for n in (NAMES if th else ["vars", "prep", "cursor", "gated", "use", "user"]):
        out.append(dict(k="crowd", name=n, n=40 if th else 12))
    for n in NAMES:
        out.append(dict(k="succession", name=n, rounds=6 if th else 2))
    return out


def binom(a, b):
    return multinom([a, b])


def multinom(ns):
    from math import factorial
    r = factorial(sum(ns))
    for n in ns:
        r //= factorial(n)
    return r


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


def staged(names, keep):
    """Prefix that brings every connection to its stage, and the lengths of what is merged."""
    pre, rest = [], []
    for k, n in enumerate(names):
        total, stage = len(PROGRAMS[n][1]), PROGRAMS[n][0]
        tail = min(total - stage, keep)
        pre += [k] * (total - tail if total - stage > keep else stage)
        rest.append(total - (total - tail if total - stage > keep else stage))
    return tuple(pre), rest


def k_merge(case, ctx):
    names = case["names"]
    if case["whole"]:
        ns = [len(PROGRAMS[n][1]) for n in names]
        for m in itertools.islice(merges(ns), case["lo"], case["hi"]):
            run_merge(names, m, ctx)
            ctx.outcome((tuple(names), m))
        return
    # the connections brought to their stages one after the other, in both orders; then all merges of the rest
    pre, rest = staged(names, case["keep"])
    first, second = pre, tuple(sorted(pre, reverse=True))
    for order in (first, second):
        ms = list(merges(rest))
        for m in (ms if order is first else ms[::7]):
            run_merge(names, order + m, ctx)
            ctx.outcome((tuple(names), order, m))


def k_triple(case, ctx):
    names = case["names"]
    pre, rest = staged(names, case["keep"])
    for m in itertools.islice(merges(rest), case["lo"], case["hi"]):
        run_merge(names, pre + m, ctx)
        ctx.outcome((tuple(names), m))


def k_fine(case, ctx):
    names = case["names"]
    a, b = [range(PROGRAMS[n][0] if case["staged"] else 0, len(PROGRAMS[n][1])) for n in names]
    for i in a[case["half"]::2]:
        for j in b:
            k = 0
            while run_fine(names, i, j, k, ctx, case["handles"]):
                ctx.outcome((tuple(names), i, j, k, case["handles"]))
                k += 1


def k_crowd(case, ctx):
    """n copies of one program in lockstep, in every rotation."""
    n, name = case["n"], case["name"]
    names = [name] * n
    for rot in (0, 1, n - 1):
        m = []
        for _ in range(len(PROGRAMS[name][1])):
            m += [(k + rot) % n for k in range(n)]
        run_merge(names, tuple(m), ctx)


def k_succession(case, ctx):
    """After a connection is gone, and its objects are collected, new ones run every program."""
    for n in NAMES:
        solo(n)
    with Forgetful() as w:
        for rnd in range(case["rounds"]):
            for n in NAMES:
                for name in (case["name"], n):
                    c = Conn(w, name)
                    while not c.done():
                        c.feed()
                        w.run()
                        c.settle()
                        ctx.transition()
                        verify([c], [name], "after %d others" % w.connects, ctx)
                    for p in c.old + [c.p]:
                        if p.c is not None:
                            if not p.c.closed:
                                p.c.t.open_window(None)
                                p.c.eof()
                                w.run()
                                for t in ("gate", "row", "row", "row"):
                                    w.give(p.sid, t)
                                    w.run()
                            check(p.c.closed, "%s: not closed after the client's end of file", name)
                            p.c.protocol = p.c.t._protocol = None
                    del c, p
                    w.log.clear()
                    w.tokens.clear()
                    gc.collect()
                    ctx.state((case["name"], rnd, n, name))
    ctx.trace()
