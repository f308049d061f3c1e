"""C10: every initialised session is closed exactly once; every connection is released."""
import asyncio
import itertools

from harness import wire
from harness.world import World, RecBase, RecControl, App, TLSClient, Violation, check
from checks.c04 import tls_context, tls_finish_handshake
from mysql_mimic import ResultColumn
from mysql_mimic.auth import AuthPlugin, IdentityProvider, NativePasswordAuthPlugin, Success, User
from mysql_mimic.constants import KillKind
from mysql_mimic.control import TooManyConnections
from mysql_mimic.errors import ErrorCode, MysqlError
from mysql_mimic.types import ColumnType

ID = "C10"
LEVEL = "model_checking"
RULE = ("one execution = the reference conversation with one way of ending it (byte offset x EOF/RST x delivery, socket write "
        "index x error, callback invocation x exception, protocol error, kill), alone or combined with a parked application "
        "call or a second failure; state = that combination plus the callbacks that ran")
BOUNDS = {"quick": "every byte offset x {EOF, RST} x {settled, immediate, socket full}; every send index x 4 errors; every callback "
                   "invocation x 8 exceptions; all pairs (parked callback x end) with 4 releases; every protocol error position; "
                   "TLS: every byte offset; close() failing in all of them",
          "thorough": "additionally all pairs callback exception x write failure, callback x callback, parked callback x every offset "
                      "x every release"}
ASSUMPTIONS = ["a session whose init() raised is not initialised", "the peer of a half-closed connection reads on"]
GC_EVERY = 50

COLS = [ResultColumn("a", ColumnType.LONG), ResultColumn("b", ColumnType.VARCHAR)]
NOSEQ = object()


class Boom(Exception):
    pass


EXC = {"mysql": lambda: MysqlError("nope", ErrorCode.PARSE_ERROR), "value": lambda: ValueError("boom"),
       "os": lambda: OSError(5, "io"), "reset": lambda: ConnectionResetError(104, "inner"),
       "cancel": lambda: asyncio.CancelledError(), "timeout": lambda: asyncio.TimeoutError(),
       "assert": lambda: AssertionError(), "incomplete": lambda: asyncio.IncompleteReadError(b"", 4),
       "toomany": lambda: TooManyConnections()}


class Plan:
    """What happens at which callback invocation: {index: action}; actions: ('raise', exc) or ('gate',)."""

    def __init__(self):
        self.n = 0
        self.at = {}
        self.names = []
        self.w = None

    def _next(self, name):
        i = self.n
        self.n += 1
        self.names.append(name)
        return self.at.get(i)

    def sync(self, name):
        a = self._next(name)
        if a and a[0] == "raise":
            raise EXC[a[1]]()

    async def __call__(self, name):
        a = self._next(name)
        if not a:
            return
        if a[0] == "raise":
            raise EXC[a[1]]()
        await self.w.gate("g")


class Sess(RecBase):
    async def _hook(self, what, *args):
        await self.world.plan(what)
        if what == "init":
            self._rec("inited")

    async def handle_query(self, sql, attrs):
        self._rec("handle_query", sql)
        pl = self.world.plan
        await pl("query")
        if sql.startswith("@a"):
            async def g():
                for i in range(3):
                    self._rec("row")
                    await pl("row")
                    yield (i, "x" * 20)
            return g(), COLS
        if sql.startswith("@s"):
            def s():
                for i in range(3):
                    self._rec("row")
                    pl.sync("srow")
                    yield (i, "x" * 20)
            return s(), ["a", "b"]
        if sql.startswith("SHOW"):
            return [("a", "INT", "NO", "", None, "")], ["Field", "Type", "Null", "Key", "Default", "Extra"]
        return None


class Plug(NativePasswordAuthPlugin):
    world = None

    async def auth(self, auth_info=None):
        g = NativePasswordAuthPlugin.auth(self, auth_info)
        await self.world.plan("auth")
        try:
            v = await g.__anext__()
            while True:
                info = yield v
                await self.world.plan("auth2")
                v = await g.asend(info)
        except StopAsyncIteration:
            return


class IdP(IdentityProvider):
    world = None

    def get_plugins(self):
        self.plug = getattr(self, "plug", None) or Plug()
        self.plug.world = self.world
        return [self.plug]

    async def get_user(self, username):
        await self.world.plan("get_user")
        if username == "bad":
            return None
        return User(name=username, auth_string=wire.native_auth_string("pw"), auth_plugin="mysql_native_password")


class Ctl(RecControl):
    world = None

    async def add(self, connection):
        await self.world.plan("add")
        return await RecControl.add(self, connection)


CAPS = wire.FULL_CAPS & ~wire.CONNECT_ATTRS


def new(plan=None, factory=None, **kw):
    pl = Plan()
    idp, ctl = IdP(), Ctl(server_id=2)
    box = {}

    def mk():
        pl.sync("factory")
        return Sess(box["w"])

    async def amk():
        await pl("factory")
        return Sess(box["w"])
    w = World(Sess, identity_provider=idp, control=ctl, session_factory=amk if factory == "async" else mk, **kw)
    box["w"] = w
    w.plan = pl
    pl.w = w
    idp.world = ctl.world = w
    for i, a in (plan or {}).items():
        pl.at[int(i)] = tuple(a)
    return w


def conversation(c, tls=0):
    """[(payload, seq)] of the client, the authentication part first."""
    nonce = c.hs.nonce if isinstance(c.hs, wire.Handshake) else b"x" * 20
    scr = wire.native_scramble("pw", nonce)
    caps = CAPS & ~wire.CONNECT_WITH_DB
    c.caps = caps
    out = [(wire.handshake_response(caps | tls, b"u", scr), 1 if not tls else 2)]
    cmds = [wire.com_query("@a", caps), wire.COM_PING, wire.com_prepare("@s ?"), wire.com_long_data(0, 0, b"xy"),
            wire.com_execute(0, [(b"", "VARCHAR", False, Ellipsis)], caps), wire.com_prepare("@a"),
            wire.com_execute(1, (), caps, cursor=True), wire.com_fetch(1, 1), wire.com_init_db(b"d"), wire.com_field_list(b"t"),
            wire.com_change_user(caps, b"w", scr, b"e", 255), wire.com_reset(1), wire.com_query("n", caps),
            wire.com_execute(1, (), caps, cursor=True), wire.com_fetch(1, 1), wire.COM_QUIT]
    return out + [(x, 0) for x in cmds]


def stream(c, tls=0):
    return b"".join(wire.frame(p, s) for p, s in conversation(c, tls))


def connect(w, window=None):
    c = w.connect()
    pk = c.packets(False)
    c.hs = wire.parse_handshake(pk[0][2]) if pk and pk[0][2][:1] == b"\n" else None
    if window is not None:
        c.t.window = window
    return c


def lockstep(w, c, upto=None):
    """Deliver the conversation message by message, settling in between."""
    for i, (p, s) in enumerate(conversation(c)):
        if upto is not None and i >= upto:
            return
        c.send(p, s)
        w.run()


def finish(w, releases=("none",)):
    """Let everything that is still parked end."""
    for i in range(30):
        w.run()
        if not w.waiting("g"):
            break
        r = releases[min(i, len(releases) - 1)]
        if r == "none":
            w.release("g")
        else:
            w.release("g", exc=EXC[r]())
    w.settle(7200)


def verdict(w, c, ctx, case, ended=True):
    """After the end of the connection."""
    log = w.log
    names = w.plan.names
    for s in w.sessions:
        mine = [e for e in log if e[0] == s.sid]
        inited = [e for e in mine if e[1] == "inited"]
        closes = [i for i, e in enumerate(mine) if e[1] == "close"]
        check(len(closes) == len(inited), "session initialised %d times and closed %d times", len(inited), len(closes))
        check(len(closes) <= 1, "session closed %d times", len(closes))
        if closes:
            check(closes[0] == len(mine) - 1, "session used after close(): %r", mine[closes[0]:])
    check(not w.cut_closes, "close() of a session was interrupted")
    calls = w.control.calls
    for cid in {x[1] for x in calls if x[0] == "add"}:
        n = calls.count(("remove", cid))
        check(n == 1, "connection %d removed %d times from the registry", cid, n)
    check(not w.control.live, "connection still registered")
    check(c.t.closed, "socket still open")
    ts = w.tasks()
    check(not ts, "tasks left: %r", ts[:3])
    ctx.transition(len(names) + len(log))
    ctx.trace()
    ctx.state(repr(case))
    ctx.outcome((case["k"], tuple(names), len(log)))


_n = {}


def dims():
    """Length of the client stream, number of sends, callbacks in order, client messages."""
    if not _n:
        with new() as w:
            c = connect(w)
            lockstep(w, c)
            check(c.t.closed, "QUIT does not end the connection")
            w.run()
            _n["sends"] = c.t.sends
            _n["names"] = list(w.plan.names)
            _n["bytes"] = len(stream(c))
            _n["out"] = len(c.t.out)
            _n["msgs"] = len(conversation(c))
            check(not w.tasks() and not w.control.live, "the reference conversation leaves something behind")
            # the reference conversation must actually work
            pk, n, ok = wire.split(c.t.out)
            check(ok and not [p for _, _, p in pk if p[:1] == b"\xff"], "error in the reference conversation: %r",
                  [p for _, _, p in pk if p[:1] == b"\xff"])
    return _n


def k_ref(case, ctx):
    _n.clear()
    d = dims()
    check(d["names"].count("close") == 1, "%r", d["names"])
    ctx.trace()
    ctx.state("ref")
    ctx.outcome(tuple(d["names"]))


def end(c, how):
    if how == "eof":
        c.eof()
    elif how == "rst":
        c.reset()
    elif how == "kill" and c.hs:
        try:
            c.w.control.kill(c.hs.connection_id, KillKind.CONNECTION).send(None)
        except StopIteration:
            pass


def planned(case):
    at = {}
    for i, a in (case.get("at") or {}).items():
        at[int(i)] = a
    if case.get("cl"):
        # session.close() raises: it is the last callback, whatever its index
        at = dict(at)
    return at


def mkworld(case, **kw):
    w = new(planned(case), factory=case.get("fac"), **kw)
    if case.get("cl"):
        exc = case["cl"]
        orig = w.plan.__class__.__call__

        async def call(name, pl=w.plan):
            if name == "close":
                pl.n += 1
                pl.names.append(name)
                if exc == "gate":
                    await w.gate("g")
                    return
                raise EXC[exc]()
            return await orig(pl, name)
        w.plan = Wrap(w.plan, call)
    return w


class Wrap:
    def __init__(self, pl, call):
        self.pl, self.call = pl, call

    def __getattr__(self, n):
        return getattr(self.pl, n)

    async def __call__(self, name):
        return await self.call(name)


def k_off(case, ctx):
    """Disconnect after byte offset `o`."""
    for o in range(case["lo"], case["hi"]):
        with mkworld(case) as w:
            c = connect(w, case.get("win"))
            data = stream(c)[:o]
            if case["m"] == "lock":
                pos = 0
                for p, s in conversation(c):
                    f = wire.frame(p, s)
                    c.t.feed(data[pos:pos + len(f)])
                    pos += len(f)
                    w.run()
                    if pos >= o:
                        break
            else:
                c.t.feed(data)
                for _ in range(case.get("steps", 0)):
                    w.loop.step()
            end(c, case["how"])
            w.run()
            if case.get("win") is not None:
                end(c, "rst")
            finish(w, case.get("rel", ("none",)))
            verdict(w, c, ctx, dict(case, o=o))


def k_send(case, ctx):
    """The n-th write to the socket fails."""
    with mkworld(case) as w:
        c = w.connect(run=False)
        c.t.fail_send = case["n"]
        c.t.fail_exc = {"pipe": BrokenPipeError(32, "x"), "reset": ConnectionResetError(104, "x"),
                        "os": OSError(113, "no route"), "timeout": TimeoutError(110, "x")}[case["exc"]]
        if case.get("win") is not None:
            c.t.window = case["win"]
        w.run()
        pk = c.packets(False)
        c.hs = wire.parse_handshake(pk[0][2]) if pk and pk[0][2][:1] == b"\n" else None
        lockstep(w, c)
        if case.get("win") is not None:
            c.t.open_window(None)
            w.run()
        finish(w, case.get("rel", ("none",)))
        if not c.t.closed:     # the failing write was never reached
            end(c, "eof")
            finish(w)
        verdict(w, c, ctx, case)


def k_exc(case, ctx):
    """Exceptions / parked calls at callback invocations; the client completes its conversation, then ends."""
    with mkworld(case) as w:
        c = connect(w)
        for i, (p, s) in enumerate(conversation(c)):
            if c.t.closed:
                break
            c.send(p, s)
            w.run()
            if case.get("stop") is not None and w.waiting("g"):
                break
        if w.waiting("g"):
            if case.get("pipeline"):
                msgs = conversation(c)
                c.t.feed(b"".join(wire.frame(p, s) for p, s in msgs[i + 1:]))
                w.run()
            if case.get("how") == "fail":
                c.t.fail_send = c.t.sends
            elif case.get("how"):
                end(c, case["how"])
            if case.get("settle", True):
                w.run()
        finish(w, case.get("rel", ("none",)))
        if not c.t.closed:
            end(c, case.get("last", "eof"))
            finish(w)
        verdict(w, c, ctx, case)


BAD = {"seq": (b"\x01\0\0\x05", None), "hugeseq": (b"\x01\0\0\xff\x0e", None), "garbage": (b"\xff" * 40, None),
       "exec": None, "trunc-exec": None, "unknown": None, "empty": None, "badlen": None}


def k_proto(case, ctx):
    """A protocol error in place of message i."""
    with mkworld(case) as w:
        c = connect(w)
        lockstep(w, c, case["i"])
        s = 1 if case["i"] == 0 else 0
        bad = {"seq": wire.frame(b"\x0e", s + 1), "seq2": wire.frame(b"\x03select", 255), "garbage": b"\xfe\xfd\xfc" * 20,
               "exec": wire.frame(b"\x17\x09", s), "trunc-exec": wire.frame(wire.com_execute(0, (), c.caps)[:7], s),
               "unknown": wire.frame(b"\x7f", s), "empty": wire.frame(b"", s), "badlen": b"\xff\xff\xff" + bytes([s]) + b"\x0e",
               "fetch": wire.frame(wire.com_fetch(77, 1), s), "cu": wire.frame(b"\x11w", s), "cubad": wire.frame(
                   wire.com_change_user(c.caps, b"bad", b"", b"", 255), s), "qattr": wire.frame(b"\x03\xfe\xff", s),
               "init": wire.frame(b"\x02\xff\xfe", s), "cuwrong": wire.frame(
                   wire.com_change_user(c.caps, b"u", b"x" * 20, b"", 255), s)}[case["bad"]]
        c.t.feed(bad)
        w.run()
        if case["then"] == "go":
            for p, s in conversation(c)[case["i"]:]:
                c.send(p, s)
                w.run()
        end(c, "eof" if case["then"] == "go" else case["then"])
        finish(w)
        verdict(w, c, ctx, case)


def k_tls(case, ctx):
    for o in range(case["lo"], case["hi"]):
        with mkworld(case, ssl=tls_context()) as w:
            c = connect(w)
            c.first = c.pos
            req = wire.frame(wire.ssl_request((CAPS | wire.SSL) & c.hs.caps, 255), 1)
            c.tls = TLSClient(c)
            flight = req + c.tls.first_flight()
            if case["part"] == "a":
                if case["m"]:
                    c.t.feed(flight[:case["m"]])
                    w.run()
                    c.t.feed(flight[case["m"]:o])
                else:
                    c.t.feed(flight[:o])
            else:
                c.t.feed(flight)
            w.run()
            if case["part"] == "b":
                d = tls_finish_handshake(w, c) + c.tls.encrypt(stream(c, wire.SSL))
                if case.get("rec"):
                    d = d[:0]
                c.t.feed(d[:o])
                w.run()
            end(c, case["how"])
            finish(w)
            verdict(w, c, ctx, dict(case, o=o))


def cases(tier):
    big = tier == "thorough"
    out = [dict(k="ref")]
    try:
        d = dims()
    except Exception:
        return out
    nb, ns, names = d["bytes"], d["sends"], d["names"]
    N = len(names)
    CH = 25
    for how in ("eof", "rst"):
        for cl in (None, "value"):
            for lo in range(0, nb + 1, CH):
                hi = min(nb + 1, lo + CH)
                out.append(dict(k="off", lo=lo, hi=hi, how=how, m="lock", cl=cl))
                for st in ((0, 1, 2, 3, 5, 8, 13) if not big else range(0, 40)):
                    out.append(dict(k="off", lo=lo, hi=hi, how=how, m="pipe", steps=st, cl=cl))
    for how in ("eof", "rst"):
        for win in range(0, d["out"] + 1, 40 if not big else 5):
            out.append(dict(k="off", lo=nb - 8, hi=nb + 1, how=how, m="pipe", win=win))
    out.append(dict(k="off", lo=nb, hi=nb + 1, how="none", m="lock"))
    for fac in (None, "async"):
        for n in range(0, ns + 1):
            for exc in ("pipe", "reset", "os", "timeout"):
                for cl in (None, "mysql"):
                    out.append(dict(k="send", n=n, exc=exc, cl=cl, fac=fac))
                for win in (30, 100, 200, 400):
                    out.append(dict(k="send", n=n, exc=exc, win=win))
    for i in range(0, N):
        for e in EXC:
            if e == "toomany" and i != names.index("add"):
                continue
            for cl in (None, "value"):
                for last in ("eof", "rst"):
                    out.append(dict(k="exc", at={i: ["raise", e]}, cl=cl, last=last, fac="async" if i % 2 else None))
    releases = [("none",), ("value",), ("mysql",), ("cancel",)]
    for i in range(0, N):
        if names[i] == "srow":
            continue
        for how in (None, "eof", "rst", "kill", "fail"):
            for rel in releases:
                for cl in (None, "os"):
                    for pipe in (False, True):
                        out.append(dict(k="exc", at={i: ["gate"]}, how=how, rel=rel, cl=cl, stop=1, pipeline=pipe, fac="async"))
        # disconnect at every offset while the callback is parked / would park
        for how in ("eof", "rst"):
            for rel in (releases if big else releases[:1]):
                for lo in range(0, nb + 1, CH):
                    out.append(dict(k="off", lo=lo, hi=min(nb + 1, lo + CH), how=how, m="lock", at={i: ["gate"]}, rel=rel, fac="async"))
    # pairs of exceptions
    for i, j in itertools.combinations(range(N), 2):
        for e, f in ((("value", "mysql"), ("mysql", "os"), ("cancel", "value")) if big else (("mysql", "value"),)):
            out.append(dict(k="exc", at={i: ["raise", e], j: ["raise", f]}, last="eof"))
        out.append(dict(k="exc", at={i: ["gate"], j: ["gate"]}, how="eof", stop=1, rel=("none",), fac="async"))
    for i in range(N):
        for n in range(ns + 1):
            if big or (i + n) % 3 == 0 or names[i] in ("close", "init"):
                out.append(dict(k="send", n=n, exc="pipe", at={i: ["raise", "value"]}))
    for bad in ("seq", "seq2", "garbage", "exec", "trunc-exec", "unknown", "empty", "badlen", "fetch", "cu", "cubad", "qattr", "init",
                "cuwrong"):
        for i in range(0, d["msgs"]):
            for then in ("eof", "rst", "go"):
                for cl in (None, "value"):
                    out.append(dict(k="proto", bad=bad, i=i, then=then, cl=cl))
    for how in ("eof", "rst"):
        for lo in range(0, 600, 20):
            out.append(dict(k="tls", part="a", lo=lo, hi=lo + 20, how=how, m=0))
            out.append(dict(k="tls", part="a", lo=lo, hi=lo + 20, how=how, m=36))
        for lo in range(0, 900, 20):
            out.append(dict(k="tls", part="b", lo=lo, hi=lo + 20, how=how, m=0))
    for how in ("eof", "rst"):
        for lo in range(0, 900, 60):
            out.append(dict(k="tls", part="b", lo=lo, hi=lo + 6, how=how, m=0, cl="value"))
    return out


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)
    if case["k"] != "ref" and (case.get("at") or case["k"] == "tls"):
        ctx.sample(case)
