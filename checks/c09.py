"""C09: KILL QUERY spares the connection; KILL CONNECTION ends exactly the target."""
import asyncio

from harness import wire
from harness.world import World, RecSession, RecControl, App, Violation, check
from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.auth import IdentityProvider, NativePasswordAuthPlugin, NoLoginAuthPlugin, User
from mysql_mimic.constants import KillKind
from mysql_mimic.errors import MysqlError, ErrorCode
from mysql_mimic.types import ColumnType

ID = "C09"
LEVEL = "model_checking"
RULE = ("one execution = target program x placement of 1 or 2 kills (kind, issuer, target id) before one event-loop handle "
        "of the run; state = (program, placements, responses completed / application pending at delivery)")
BOUNDS = {"quick": "every handle boundary of ~95 target programs (17 of them with a socket that takes no more, or 4 bytes at a time): one kill of each kind x {Control API, KILL statement}, unknown "
                   "ids; all ordered pairs x kinds^2 through API/API and statement/API (every second boundary on programs with more than 90); spellings of the KILL statement, ids "
                   "nobody has, prepared KILLs and failing Controls x idle/busy target",
          "thorough": "all ordered pairs x kinds^2 through API/API, API/statement and statement/statement; all triples on the "
                      "programs with at most 12 boundaries"}
ASSUMPTIONS = ["an ERR before the socket of a connection killed by KILL CONNECTION is closed is allowed once",
               "an application that swallows the cancellation may complete its statement"]
GC_EVERY = 60

COLS = [ResultColumn("a", ColumnType.LONG), ResultColumn("b", ColumnType.VARCHAR)]
Q, C = KillKind.QUERY, KillKind.CONNECTION


def rows(n, w=0):
    return [(i, f"v{i}" + "x" * w) for i in range(n)]


class Sess(RecSession):
    async def handle_query(self, sql, attrs):
        if sql.startswith("SHOW COLUMNS"):
            await self.world.gate("q")
            return [("a", "INT", "NO", "", None, "")], ["Field", "Type", "Null", "Key", "Default", "Extra"]
        if not sql.startswith("@"):
            return await RecSession.handle_query(self, sql, attrs)
        a = sql.split()
        return await getattr(self, "s_" + a[0][1:])(*map(int, a[1:]))

    async def init(self, connection):
        await RecSession.init(self, connection)
        self._rec("inited")

    def me(self):
        return self.connection.connection_id

    async def s_none(self):
        return None

    async def s_rows(self, n, w=0):
        return rows(n, w), COLS

    async def s_gate(self):
        await self.world.gate("q")
        return rows(2), COLS

    async def s_by(self):
        await self.world.gate("by")
        return rows(2), COLS

    async def s_gate2(self):
        await self.world.gate("q")
        await self.world.gate("q")
        return None

    async def s_agate(self, n):
        async def g():
            for r in rows(n):
                await self.world.gate("q")
                yield r
        return g(), COLS

    async def s_agate_names(self, n):
        async def g():
            for r in rows(n):
                await self.world.gate("q")
                yield r
        return g(), ["a", "b"]

    async def s_arows(self, n):
        async def g():
            for r in rows(n):
                await asyncio.sleep(0)
                yield r
        return g(), COLS

    async def s_err(self):
        raise MysqlError("nope", ErrorCode.PARSE_ERROR)

    async def s_exc(self):
        raise ValueError("boom")

    async def s_gerr(self):
        await self.world.gate("q")
        raise MysqlError("nope", ErrorCode.PARSE_ERROR)

    async def s_swallow(self):
        try:
            await self.world.gate("q")
        except asyncio.CancelledError:
            pass
        return rows(1), COLS

    async def s_convert(self):
        try:
            await self.world.gate("q")
        except asyncio.CancelledError:
            raise MysqlError("converted") from None
        return rows(1), COLS

    async def s_cleanup(self):
        try:
            await self.world.gate("q")
        finally:
            await self.world.gate("c")
        return rows(1), COLS

    async def s_inner(self):
        await asyncio.get_running_loop().create_task(self.world.gate("q"))
        return rows(1), COLS

    async def s_shield(self):
        await asyncio.shield(asyncio.get_running_loop().create_task(self.world.gate("s")))
        return rows(1), COLS

    async def s_timeout(self):
        async with asyncio.timeout(1000):
            await self.world.gate("q")
        return rows(1), COLS

    async def s_waitfor(self):
        await asyncio.wait_for(self.world.gate("q"), 1000)
        return rows(1), COLS

    async def s_gather(self):
        await asyncio.gather(self.world.gate("q"), self.world.gate("q"))
        return rows(1), COLS

    async def s_aswallow(self, n):
        async def g():
            for r in rows(n):
                try:
                    await self.world.gate("q")
                except asyncio.CancelledError:
                    pass
                yield r
        return g(), COLS

    async def s_sleep(self):
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        return rows(1), COLS

    # the application kills its own connection
    async def s_selfq(self):
        await self.connection.control.kill(self.me(), Q)
        return rows(1), COLS

    async def s_selfqq(self):
        await self.connection.control.kill(self.me(), Q)
        await self.connection.control.kill(self.me(), Q)
        return None

    async def s_selfqg(self):
        await self.connection.control.kill(self.me(), Q)
        await self.world.gate("q")
        return rows(1), COLS

    async def s_selfqe(self):
        await self.connection.control.kill(self.me(), Q)
        raise ValueError("after self kill")

    async def s_selfc(self):
        await self.connection.control.kill(self.me())
        return rows(1), COLS

    async def s_selfce(self):
        await self.connection.control.kill(self.me(), C)
        raise MysqlError("after self kill")

    async def s_selfqc(self):
        await self.connection.control.kill(self.me(), Q)
        await self.connection.control.kill(self.me(), C)
        return None

    async def s_selfcq(self):
        await self.connection.control.kill(self.me(), C)
        await self.connection.control.kill(self.me(), Q)
        return None

    async def s_rselfq(self, n):
        async def g():
            for i, r in enumerate(rows(n)):
                if i == 1:
                    await self.connection.control.kill(self.me(), Q)
                yield r
        return g(), COLS

    async def s_rselfc(self, n):
        async def g():
            for i, r in enumerate(rows(n)):
                if i == 1:
                    await self.connection.control.kill(self.me(), C)
                yield r
        return g(), COLS


class IdP(IdentityProvider):
    def __init__(self):
        self.world = None
        self.gated = False

    def get_plugins(self):
        return [NativePasswordAuthPlugin(), NoLoginAuthPlugin()]

    async def get_user(self, username):
        if self.gated:
            await self.world.gate("q")
        if username == "other":      # another plugin on the client side: needs an auth switch
            return User(name=username, auth_string=wire.native_auth_string("pw"), auth_plugin="mysql_native_password")
        if username == "u":
            return User(name=username, auth_string=wire.native_auth_string("pw"), auth_plugin="mysql_native_password")
        return None


class KControl(RecControl):
    hook = None

    async def kill(self, connection_id, *a, **kw):
        if self.hook:
            self.hook(connection_id, *a, **kw)
        return await RecControl.kill(self, connection_id, *a, **kw)


F = wire.FULL_CAPS
NODEP = wire.FULL_CAPS & ~wire.DEPRECATE_EOF


class P:
    """A target program. `start`/env 'send' are lists of (payload, has_response)."""

    def __init__(self, start=(), env=(), caps=F, gates=(), limits=None, window=None, login=True, dep=False, noeff=False,
                 selfkill=None, pre=None, idpgate=False, pairs=True, noclose=False, coarse=1):
        self.__dict__.update(locals())


def q(s):
    return lambda st: wire.com_query(s, st["caps"])


def lit(b):
    return lambda st: b


def ex(i, **kw):
    return lambda st: wire.com_execute(st["ids"][i], (), st["caps"], **kw)


def fe(i, n):
    return lambda st: wire.com_fetch(st["ids"][i], n)


def sid(f, i):
    return lambda st: f(st["ids"][i])


def chuser(user=b"u", pw="pw", plugin=b"mysql_native_password"):
    def f(st):
        auth = wire.native_scramble(pw, st["nonce"]) if plugin == b"mysql_native_password" else b"junk"
        return wire.com_change_user(st["caps"], user, auth, b"db2", 255, plugin)
    return f


def rel(*names):
    return [("release", n) for n in names]


PING = lit(wire.COM_PING)


def programs():
    d = {}
    for cn, caps in (("", F), ("/eof", NODEP)):
        d["idle" + cn] = P(caps=caps)
        d["rows" + cn] = P([q("@rows 3")], caps=caps)
        d["gate" + cn] = P([q("@gate")], rel("q"), caps=caps)
        d["agate" + cn] = P([q("@agate 3")], rel("q", "q", "q"), caps=caps)
        d["exec-rows" + cn] = P([ex(0)], caps=caps, pre=["@rows 3"])
        d["exec-agate" + cn] = P([ex(0)], rel("q", "q"), caps=caps, pre=["@agate 2"])
        d["exec-cursor-fetch" + cn] = P([ex(0, cursor=True), fe(0, 2), fe(0, 2)], rel("q", "q", "q"), caps=caps, pre=["@agate 3"],
                                        dep=True)
        d["field-list" + cn] = P([lit(wire.com_field_list(b"t"))], rel("q"), caps=caps)
    d["ping"] = P([PING])
    d["partial-header"] = P(env=[("raw", b"\x01\x00"), ("raw", b"\x00\x00" + wire.COM_PING)])
    d["partial-body"] = P(env=[("raw", b"\x08\x00\x00\x00\x03\x00"), ("raw", b"\x01@none")])
    d["debug"] = P([lit(wire.COM_DEBUG)])
    d["reset-conn"] = P([lit(wire.COM_RESET_CONNECTION)])
    d["unknown-cmd"] = P([lit(b"\x1d")])
    d["empty-cmd"] = P([lit(b"")])
    d["none"] = P([q("@none")])
    d["gate2"] = P([q("@gate2")], rel("q", "q"))
    d["arows"] = P([q("@arows 4")])
    d["sleep"] = P([q("@sleep")])
    d["err"] = P([q("@err")])
    d["exc"] = P([q("@exc")])
    d["gerr"] = P([q("@gerr")], rel("q"))
    d["agate-names"] = P([q("@agate_names 2")], rel("q", "q"))
    d["real-static"] = P([q("SELECT 1, 'a'; SELECT 2")], coarse=2)
    # blocked sockets
    B = [("window", 1), ("window", 30), ("window", 40), ("window", None)]
    d["blocked-rows"] = P([q("@rows 5")], B, limits=0, window=0)
    d["blocked-ok"] = P([q("@none")], B, limits=0, window=0)
    d["blocked-err"] = P([q("@err")], B, limits=0, window=0)
    d["blocked-exc"] = P([q("@exc")], B, limits=0, window=0)
    d["blocked-gerr"] = P([q("@gerr")], rel("q") + B, limits=0, window=0)
    d["blocked-exec"] = P([ex(0)], B, limits=0, window=0, pre=["@rows 4"])
    d["blocked-fetch"] = P([fe(0, 2)], B, limits=0, window=0, pre=["@rows 4"], cursor=True)
    d["blocked-prepare"] = P([lit(wire.com_prepare("@ ? ?"))], B, limits=0, window=0)
    d["blocked-ping"] = P([PING], B, limits=0, window=0)
    d["blocked-initdb"] = P([lit(wire.com_init_db(b"d2"))], B, limits=0, window=0)
    d["blocked-wide"] = P([q("@rows 60 3000")], [("window", 50000), ("window", 100000), ("window", None)], window=0)
    d["blocked-reset"] = P([sid(wire.com_reset, 0)], B, limits=0, window=0, pre=["@rows 1"])
    d["blocked-debug"] = P([lit(wire.COM_DEBUG)], B, limits=0, window=0)
    d["blocked-reset-conn"] = P([lit(wire.COM_RESET_CONNECTION)], B, limits=0, window=0)
    d["blocked-unknown"] = P([lit(b"\x1d")], B, limits=0, window=0)
    d["blocked-field-list"] = P([lit(wire.com_field_list(b"t"))], rel("q") + B, limits=0, window=0)
    d["blocked-change-user"] = P([chuser()], B, limits=0, window=0)
    d["blocked-exec-none"] = P([ex(0)], B, limits=0, window=0, pre=["@none"])
    d["blocked-exec-cursor"] = P([ex(0, cursor=True), fe(0, 2)], B, limits=0, window=0, pre=["@rows 3"], dep=True)
    d["blocked-exec/eof"] = P([ex(0)], B, limits=0, window=0, pre=["@rows 2"], caps=NODEP)
    d["blocked-rows/eof"] = P([q("@rows 2")], B, limits=0, window=0, caps=NODEP)
    d["blocked-fetch/eof"] = P([fe(0, 2)], B, limits=0, window=0, pre=["@rows 4"], cursor=True, caps=NODEP)
    d["blocked-prepare/eof"] = P([lit(wire.com_prepare("@ ? ?"))], B, limits=0, window=0, caps=NODEP)
    FINE = [("window", 4)] * 36 + [("window", None)]
    d["fine-exec"] = P([ex(0)], FINE, limits=0, window=0, pre=["@rows 2"])
    d["fine-rows"] = P([q("@rows 2")], FINE, limits=0, window=0)
    d["fine-fetch"] = P([fe(0, 2)], FINE, limits=0, window=0, pre=["@rows 4"], cursor=True)
    d["blocked-2"] = P([q("@rows 2"), PING], B, limits=0, window=0)
    # prepared statements
    d["prepare"] = P([lit(wire.com_prepare("@ ?"))])
    d["exec-gate"] = P([ex(0)], rel("q"), pre=["@gate"])
    d["exec-none"] = P([ex(0)], pre=["@none"])
    d["exec-err"] = P([ex(0)], rel("q"), pre=["@gerr"])
    d["fetch"] = P([fe(0, 2)], rel("q", "q"), pre=["@agate 3"], cursor=True)
    d["fetch-all"] = P([fe(0, 9)], rel("q", "q", "q"), pre=["@agate 3"], cursor=True)
    d["fetch-arows"] = P([fe(0, 3)], pre=["@arows 4"], cursor=True)
    d["fetch-sync"] = P([fe(0, 2), fe(0, 2), fe(0, 2)], pre=["@rows 4"], cursor=True, dep=True)
    d["close-long"] = P([sid(wire.com_close, 0), sid(lambda i: wire.com_long_data(i, 0, b"x"), 1), PING], pre=["@rows 1", "@ ?"])
    d["reset-gate"] = P([sid(wire.com_reset, 0)], rel("reset"), pre=["@rows 1"], gates=["reset"])
    d["initdb-gate"] = P([lit(wire.com_init_db(b"d2"))], rel("use"), gates=["use"])
    # several commands
    d["gate-ping"] = P([q("@gate"), PING], rel("q"))
    d["gate-gate"] = P([q("@gate"), q("@gate")], rel("q", "q"))
    d["rows-rows"] = P([q("@rows 2"), q("@arows 2")])
    d["gate-then"] = P([q("@gate")], rel("q") + [("send", q("@gate"))] + rel("q") + [("send", PING)])
    d["err-then"] = P([q("@gerr")], rel("q") + [("send", q("@rows 1")), ("send", PING)])
    d["idle-then"] = P([], [("send", PING), ("send", q("@gate"))] + rel("q"))
    # authentication
    d["change-user"] = P([chuser()])
    d["change-user-reset"] = P([chuser()], rel("reset") + [("send", PING)], gates=["reset"])
    d["change-user-gate"] = P([chuser()], rel("q") + [("send", PING)], idpgate="after")
    d["change-user-switch"] = P([chuser(plugin=b"mysql_clear_password")], [("answer", 2), ("send", PING)])
    d["change-user-bad"] = P([chuser(pw="wrong")], rel("q"), idpgate="after")
    d["change-user-unknown"] = P([chuser(b"nobody")])
    d["login"] = P(env=[("hs", "u", "pw"), ("send", PING)], login=False)
    d["login-gate"] = P(env=[("hs", "u", "pw")] + rel("q") + [("send", PING)], login=False, idpgate=True)
    d["login-init"] = P(env=[("hs", "u", "pw")] + rel("init") + [("send", PING)], login=False, gates=["init"])
    d["login-bad"] = P(env=[("hs", "u", "bad")], login=False)
    # ending
    d["quit"] = P([lit(wire.COM_QUIT)])
    d["quit-close"] = P([lit(wire.COM_QUIT)], rel("close"), gates=["close"])
    d["eof-close"] = P([], [("eof",)] + rel("close"), gates=["close"])
    d["gate-eof"] = P([q("@gate")], [("eof",)] + rel("q"))
    d["gate-close"] = P([q("@gate")], rel("q", "close", "close"), gates=["close"])
    # application reactions to the cancellation
    d["swallow"] = P([q("@swallow"), PING], rel("q"))
    d["convert"] = P([q("@convert"), PING], rel("q"))
    d["cleanup"] = P([q("@cleanup"), PING], rel("q", "c", "c"))
    d["inner"] = P([q("@inner")], rel("q"))
    d["shield"] = P([q("@shield"), PING], rel("s"))
    d["timeout"] = P([q("@timeout")], rel("q"))
    d["waitfor"] = P([q("@waitfor")], rel("q"))
    d["gather"] = P([q("@gather")], rel("q"))
    d["aswallow"] = P([q("@aswallow 3")], rel("q", "q", "q"))
    d["exec-swallow"] = P([ex(0), PING], rel("q"), pre=["@swallow"])
    # kills of itself
    for s in ("selfq", "selfqq", "selfqg", "selfqe", "rselfq 3"):
        d["app-" + s] = P([q("@" + s), PING], selfkill="q")
        d["exec-" + s] = P([ex(0), PING], selfkill="q", pre=["@" + s])
    for s in ("selfc", "selfce", "selfqc", "selfcq", "rselfc 3"):
        d["app-" + s] = P([q("@" + s)], selfkill="c")
        d["exec-" + s] = P([ex(0)], selfkill="c", pre=["@" + s])
    d["app-selfc-close"] = P([q("@selfce")], rel("close"), selfkill="c", gates=["close"])
    for s in ("selfc", "selfce", "selfqc"):
        d["app-" + s + "-quit"] = P([q("@" + s), lit(wire.COM_QUIT)], rel("close"), selfkill="c", gates=["close"])
        d["app-" + s + "-eof"] = P([q("@" + s)], [("eof",)] + rel("close"), selfkill="c", gates=["close"])
    d["app-fetch-selfq"] = P([fe(0, 2), PING], selfkill="q", pre=["@rselfq 3"], cursor=True)
    d["app-fetch-selfc"] = P([fe(0, 2)], selfkill="c", pre=["@rselfc 3"], cursor=True)
    d["kill-q"] = P([q("KILL QUERY {id}"), PING], selfkill="q", coarse=2)
    d["kill-c"] = P([q("KILL CONNECTION {id}")], selfkill="c", coarse=2)
    d["kill"] = P([q("KILL {id}")], selfkill="c", coarse=2)
    d["kill-multi"] = P([q("SELECT 1; KILL QUERY {id}; SELECT 2"), PING], selfkill="q", coarse=3)
    d["kill-multi-c"] = P([q("KILL {id}; SELECT 2")], selfkill="c", coarse=3)
    d["kill-multi-e"] = P([q("KILL QUERY {id}; SELECT @@nope"), PING], selfkill="q", coarse=3)
    d["kill-exec"] = P([ex(0), PING], pre=["KILL QUERY {id}"], selfkill="q", coarse=3)
    d["kill-exec-c"] = P([ex(0)], pre=["KILL {id}"], selfkill="c", coarse=3)
    d["kill-blocked"] = P([q("KILL QUERY {id}"), PING], B, limits=0, window=0, selfkill="q", coarse=3)
    return d


_P0 = P.__init__


def _init(self, *a, cursor=False, **kw):
    _P0(self, *a, **kw)
    self.cursor = cursor


P.__init__ = _init
PROGS = programs()


class Run:
    pass


def groups(pkts):
    """Responses: a new one starts with sequence id 1 (or 0: the handshake)."""
    out = []
    for seq, n, payload in pkts:
        if not out or seq in (0, 1):
            out.append([])
        payload = bytes(payload)
        if payload[:7] == b"\xfemysql_" or payload[:1] == b"\n" and seq == 0:
            payload = payload[:8]         # contains the nonce
        out[-1].append((seq, payload))
    return out


def match(pkts, ref):
    """-> (completed responses, indices that ended with an ERR instead, open partial?).  Raises on anything else."""
    gs = groups(pkts)
    aborted = set()
    done = 0
    for j, g in enumerate(gs):
        check(j < len(ref), "unsolicited packets: %r", [p[:40] for p in gs[j:]])
        r = ref[j]
        if g == r:
            done += 1
            continue
        k = 0
        while k < len(g) and k < len(r) and g[k] == r[k]:
            k += 1
        if k == len(g):
            check(j == len(gs) - 1, "response %d is incomplete: %r", j, g[-3:])
            return done, aborted, True
        check(k == len(g) - 1, "response %d deviates from the undisturbed one: %r vs %r", j, g[k:k + 3], r[k:k + 3])
        seq, payload = g[k]
        check(payload[:1] == b"\xff", "response %d: %r instead of %r", j, payload[:60], r[k:k + 1])
        wire.parse_err(payload, F)
        want = g[k - 1][0] + 1 if k else r[0][0]
        check(seq == want & 255, "ERR of response %d has sequence id %d, expected %d", j, seq, want)
        aborted.add(j)
        done += 1
    return done, aborted, False


def setup(name):
    p = PROGS[name]
    app = App()
    idp = IdP()
    w = World(Sess, app=app, identity_provider=idp, control=KControl(server_id=3))
    idp.world = w
    r = Run()
    r.p, r.w, r.idp = p, w, idp
    r.b = w.login(password="pw")
    r.c = c = w.connect()
    if p.login:
        check(isinstance(c.login(password="pw", caps=p.caps), wire.OK), "login")
    else:
        r.hs = c.handshake()
        c.pos = 0
    r.k = w.login(password="pw")
    r.cid = c.hs.connection_id
    st = dict(ids=[], caps=c.caps or p.caps & c.hs.caps, nonce=c.hs.nonce)
    r.st = st
    for sql in p.pre or ():
        x = c.prepare(sql.replace("{id}", str(r.cid)))
        check(x.kind == "prepare", "prepare: %r", x)
        st["ids"].append(x.stmt_id)
    if p.cursor:
        x = c.execute(st["ids"][0], cursor=True)
        check(x.kind == "cursor", "execute with cursor: %r", x)
    r.base = c.pos if p.login else 0
    for g in p.gates:
        def hook(sess, *a, g=g):
            if sess.sid == 1:
                return w.gate(g)
        setattr(app, "on_" + g, hook)
    if p.idpgate:
        idp.gated = True
    r.b.send(wire.com_query("@by", r.b.caps))
    w.run()
    if p.limits is not None:
        c.t.set_write_buffer_limits(p.limits, 0)
    c.t.window = p.window
    r.sent = 0
    r.kills = []
    w.control.hook = lambda *a, **kw: delivered(r, *a, **kw)
    r.ref = None
    for f in p.start:
        send(r, f)
    return r


def send(r, f):
    payload = f(r.st).replace(b"{id}", b"%d" % r.cid)
    r.c.send(payload)
    if payload[:1] not in (bytes([wire.QUIT]), bytes([wire.CLOSE]), bytes([wire.LONG_DATA])):
        r.sent += 1


def pkts(r, buffered=False):
    out = bytes(r.c.t.out)
    if buffered:
        out += b"".join(bytes(x) for x in r.c.t._buffer)
    ps, n, ok = wire.split(memoryview(out)[r.base:])
    return ps, ok


def delivered(r, cid, kind=C):
    k = Run()
    k.kind, k.mine, k.cid = kind, cid == r.cid, cid
    k.live = r.cid in r.w.control.live
    k.futs = list(r.w.waiting("q")) if r.p.name not in ("waitfor-x",) else []
    k.sent = r.sent
    k.closing = bool([e for e in r.w.log if e[0] == 1 and e[1] == "close"])
    k.done = match(pkts(r, True)[0], r.ref)[0] if r.ref is not None else 0
    r.kills.append(k)


def fire(r, e):
    w, c = r.w, r.c
    if e[0] == "release":
        w.release(e[1])
    elif e[0] == "window":
        c.t.open_window(e[1])
    elif e[0] == "send":
        send(r, e[1])
    elif e[0] == "raw":
        c.t.feed(e[1])
        if len(e[1]) > 3:
            r.sent += 1
    elif e[0] == "eof":
        c.t.feed_eof()
    elif e[0] == "answer":
        ps, _ = pkts(r)
        if ps and bytes(ps[-1][2][:7]) == b"\xfemysql_":
            sw = wire.parse_auth_reply(bytes(ps[-1][2]), c.caps)
            c.send(wire.native_scramble("pw", sw.nonce), ps[-1][0] + 1)
    elif e[0] == "hs":
        caps = r.p.caps & c.hs.caps & ~wire.CONNECT_WITH_DB
        c.caps = caps
        r.st["caps"] = caps
        c.send(wire.handshake_response(caps, e[1].encode(), wire.native_scramble(e[2], c.hs.nonce)), 1)


def go(r, kills, stop=False):
    """Drive the program with kills [(t, chan, kind, target id or None)]; returns the number of boundaries."""
    w, loop = r.w, r.w.loop
    env = list(r.p.env)
    i = 0
    pending = []
    at = {}
    for x in kills:
        at.setdefault(x[0], []).append(x)
    while True:
        for t, chan, kind, target in at.pop(i, ()):
            cid = r.cid if target is None else target
            if chan == "api":
                try:
                    w.control.kill(cid, kind).send(None)
                except StopIteration:
                    pass
                else:
                    raise Violation("Control.kill() suspended")
            else:
                r.k.send(wire.com_query("KILL %s %d" % ("QUERY" if kind is Q else chan[5:] or "", cid), r.k.caps))
        if loop.ready():
            loop.step()
            i += 1
            if i > 20000:
                raise Violation("no quiescence")
            continue
        effects(r)
        if stop and any(k.kind is C and k.mine for k in r.kills):
            break
        if env:
            fire(r, env.pop(0))
            i += 1
            continue
        if at:
            i += 1
            if i > max(at):
                break
            continue
        break
    r.n = i
    return i


def effects(r):
    """At quiescence: a kill delivered while the application was pending has reached it."""
    dying = False
    for k in r.kills:
        if k.mine and k.futs:
            if not dying and k.live and not k.closing and not (k.kind is Q and ("change-user" in r.p.name or "login" in r.p.name)):
                check(all(f.done() for f in k.futs), "%s did not reach the pending application call", k.kind)
            k.futs = []
        dying |= k.mine and k.kind is C


def drain(r):
    w, c = r.w, r.c
    c.t.open_window(None)
    w.run()
    for _ in range(12):
        names = [n for n in list(w.gates) if n != "by" and w.waiting(n)]
        if not names:
            break
        for n in names:
            w.release(n)
        w.run()


_ref = {}
_bound = {}


def reference(name):
    """Undisturbed transcript: list of responses, boundaries, final state."""
    if name not in _ref:
        PROGS[name].name = name
        r = setup(name)
        try:
            n = go(r, [])
            drain(r)
            ps, ok = pkts(r)
            check(ok, "reference transcript ends inside a packet")
            for s, chunks, pl in ps:
                check(chunks == 1 and s < 250, "reference too long")
            _ref[name] = (groups(ps), n, r.c.t.close_called,
                          len([e for e in r.w.log if e[0] == 1 and e[1] == "close"]))
        finally:
            r.w.close()
    return _ref[name]


def plan(tier):
    out = []
    for name, p in PROGS.items():
        p.name = name
        try:
            n = reference(name)[1]
        except Exception:        # reported when the case runs
            out.append(dict(p=name, k=[]))
            continue
        st = p.coarse
        pts = list(range(0, n + 1, st)) + ([n] if n % st else [])
        out.append(dict(p=name, k=[]))
        for t in pts:
            for kind in (0, 1):
                out.append(dict(p=name, k=[[t, "api", kind, None]]))
                out.append(dict(p=name, k=[[t, "stmt ", kind, None]]))
            out.append(dict(p=name, k=[[t, "stmt CONNECTION", 1, None]]))
        for t in pts[::3]:
            for bad in (1, 2, 3, 4, 5):
                for kind in (0, 1):
                    out.append(dict(p=name, k=[[t, "api" if bad != 5 else "stmt ", kind, bad]]))
        chans = [("api", "api"), ("stmt ", "api")]
        if tier == "thorough":
            chans += [("api", "stmt "), ("stmt ", "stmt ")]
        elif n > 90:
            pts = pts[::2] + [n]
        for ch in chans:
            for i, a in enumerate(pts):
                for b in pts[i:]:
                    for ka in (0, 1):
                        for kb in (0, 1):
                            out.append(dict(p=name, k=[[a, ch[0], ka, None], [b, ch[1], kb, None]]))
        if tier == "thorough" and n <= 12:
            for a in pts:
                for b in pts:
                    for c in pts:
                        if a <= b <= c:
                            for m in range(8):
                                out.append(dict(p=name, k=[[t, "api", m >> i & 1, None] for i, t in enumerate((a, b, c))]))
    return out


# ways to write a KILL statement
PRE = ["", " ", "\n", "/* c */", "/* c */ ", "-- c\n", "# c\n", ";", "; ;", "SELECT 1; ", "SELECT 1; SELECT 2 ;"]
WORDS = ["KILL", "kill", "Kill"]
KINDS = ["", "QUERY", "query", "Query", "qUERY", "CONNECTION", "connection", "Connection"]
SEPS = [" ", "\t", "\n", "\r\n", "  ", "/* c */", " /* QUERY */ ", " -- CONNECTION\n"]
POST = ["", " ", ";", " ; ", ";;", "\n", "/* c */", " -- c", "; -- c", "; SELECT 1"]
# ids nobody has: (text of the id, given that of a live connection)
ALIEN = ["%d" % 0, "{}0", "{+4294967296}", "{+8589934592}", "{+18446744073709551616}", "{-65536}", "{+65536}", "{&65535}", "{+1000}", "-{}", "'x'",
         "999999999999999999999999999999999999999", "4294967295", "18446744073709551615", "{-4294967296}", "@@version", "'{}x'", "x{}",
         "'{+4294967296}'", "NULL", "{^2147483648}"]


def alien(t, cid):
    if "{" not in t:
        return t
    a, _, b = t.partition("{")
    op, _, c = b.partition("}")
    return a + str(eval("cid" + op)) + c


def syntax_cases():
    for i in range(len(PRE)):
        for k in KINDS:
            for how in ("query", "exec"):
                if how == "query" or ";" not in PRE[i]:
                    yield dict(p="syntax", i=i, k=k, how=how)
    for t in ALIEN:
        for k in KINDS[:1] + KINDS[1:6:4]:
            yield dict(p="alien", t=t, k=k)
    for k in KINDS:
        for how in ("int", "uint"):
            yield dict(p="param", k=k, how=how)
    for k in (0, 1):
        for exc in EXC:
            yield dict(p="control", k=k, exc=exc)


class Target:
    """A connection in a given state, and what a kill of each kind must do to it."""

    def __init__(self, w, busy):
        self.w, self.busy = w, busy
        self.c = w.login(password="pw")
        self.id = self.c.hs.connection_id
        if busy:
            self.c.send(wire.com_query("@gate", self.c.caps))
            w.run()
            check(w.waiting("q"), "the target's statement isn't pending")

    def expect(self, kind, what):
        w, c = self.w, self.c
        w.run()
        if kind is C:
            check(c.t.close_called and self.id not in w.control.live, "%r didn't end the connection", what)
            return
        check(not c.t.close_called and self.id in w.control.live, "%r ended the connection", what)
        if self.busy:
            if kind is not Q:
                check(not c.unread(), "%r disturbed the statement", what)
                w.release("q")
                w.run()
            x = c.read("query")
            if kind is Q:
                check(x.kind == "err", "%r didn't abort the statement: %r", what, x)
            else:
                check(x.kind == "rows" and not x.failed and len(x.rows) == 2, "%r disturbed the statement: %r", what, x)
        check(not c.unread(), "%r caused an unsolicited packet", what)
        c.ping()
        x = c.query("@rows 1")
        check(x.kind == "rows" and len(x.rows) == 1, "query after %r: %r", what, x)

    def end(self):
        if not self.c.t.close_called:
            self.c.t.feed_eof()
        self.w.run()
        self.c.t.out.clear()


def issue(k, text, how="query", params=()):
    """Send a KILL statement: exactly one response."""
    if how == "query":
        return k.query(text)
    x = k.prepare(text)
    if x.kind != "prepare":
        return x
    y = k.execute(x.stmt_id, params)
    k.silent(wire.com_close(x.stmt_id))
    return y


def kind_of(word):
    return Q if word.upper() == "QUERY" else C


def k_syntax(case, ctx, w, k):
    pre, kd = PRE[case["i"]], case["k"]
    for word in WORDS:
        for sep in SEPS:
            for post in POST:
                if case["how"] == "exec" and ";" in post or post and sep not in SEPS[:2] or word != "KILL" and (sep != " " or post):
                    continue
                for busy in (0, 1):
                    t = Target(w, busy)
                    text = pre + word + (sep + kd if kd else "") + sep + str(t.id) + post
                    x = issue(k, text, case["how"])
                    check(not x.failed, "response to %r: %r", text, x)
                    t.expect(kind_of(kd), text)
                    t.end()
                    ctx.state((text.replace(str(t.id), "N"), busy))
                    ctx.trace()


def k_alien(case, ctx, w, k):
    for busy in (0, 1):
        t = Target(w, busy)
        text = " ".join(filter(None, ["KILL", case["k"], alien(case["t"], t.id)]))
        issue(k, text)
        t.expect(None, text)
        k.ping()
        t.end()
        ctx.state((case["t"], case["k"], busy))
        ctx.trace()


def k_param(case, ctx, w, k):
    for busy in (0, 1):
        t = Target(w, busy)
        text = " ".join(filter(None, ["KILL", case["k"], "?"]))
        v = dict(int=("LONGLONG", t.id), uint=("LONG", t.id))[case["how"]]
        x = issue(k, text, "exec", [(b"", v[0], case["how"] == "uint", v[1])])
        check(not x.failed, "response to %r: %r", text, x)
        t.expect(kind_of(case["k"]), text)
        t.end()
        ctx.state((text, case["how"], busy))
        ctx.trace()


EXC = dict(mysql=lambda: MysqlError("control"), value=lambda: ValueError("control"), key=lambda: KeyError(5), lookup=lambda: StopAsyncIteration())


def k_control(case, ctx, w, k):
    """The control fails: the issuer gets an ERR, nobody is harmed."""
    for busy in (0, 1):
        t = Target(w, busy)

        def hook(*a, **kw):
            raise EXC[case["exc"]]()
        w.control.hook = hook
        text = "KILL %s%d" % (("", "QUERY ")[case["k"]], t.id)
        x = issue(k, text)
        check(x.kind == "err", "response to %r: %r", text, x)
        w.control.hook = None
        t.expect(None, text)
        k.ping()
        t.end()
        ctx.state((case["exc"], case["k"], busy))
        ctx.trace()


def statement(case, ctx):
    with World(Sess, identity_provider=(idp := IdP()), control=KControl(server_id=3)) as w:
        idp.world = w
        k = w.login(password="pw")
        b = w.login(password="pw")
        b.send(wire.com_query("@by", b.caps))
        w.run()
        globals()["k_" + case["p"]](case, ctx, w, k)
        check(not b.unread() and not b.t.close_called, "a bystander was disturbed")
        w.release("by")
        w.run()
        x = b.read("query")
        check(x.kind == "rows" and not x.failed and len(x.rows) == 2, "bystander: %r", x)


def cases(tier):
    return list(syntax_cases()) + plan(tier)


UNKNOWN = {1: lambda c: c + 77, 2: lambda c: 0, 3: lambda c: 2 ** 32 - 1, 4: lambda c: c + 2 ** 32, 5: lambda c: c ^ 0x10000}


def run_case(case, ctx):
    name = case["p"]
    if name not in PROGS:
        return statement(case, ctx)
    ref, n, refclosed, refclose = reference(name)
    p = PROGS[name]
    r = setup(name)
    try:
        r.ref = ref
        kills = []
        for t, chan, kind, bad in case["k"]:
            kills.append((t, chan, (Q, C)[kind], None if bad is None else UNKNOWN[bad](r.cid)))
        verify(case, ctx, r, kills, refclosed, refclose)
    finally:
        r.w.close()


def verify(case, ctx, r, kills, refclosed, refclose):
    w, c, k, p = r.w, r.c, r.k, r.p
    go(r, kills, stop=len(kills) == 1 and not p.gates and p.name not in ("cleanup", "shield", "swallow", "exec-swallow", "aswallow"))
    outer = [x for x in r.kills]
    check(len([x for x in outer]) >= len(kills) or p.selfkill, "a kill was not delivered")
    conn = [x for x in r.kills if x.kind is C and x.mine and x.live and not x.closing]
    hit = bool(conn)
    if hit and len(kills) == 1 and p.window is None and not p.gates and p.name not in (
            "cleanup", "shield", "swallow", "exec-swallow", "aswallow"):
        check(c.t.close_called, "connection survives KILL CONNECTION")
    drain(r)
    ps, ok = pkts(r)
    check(ok, "the transcript of the target ends inside a packet")
    ref = r.ref
    closes = [e for e in w.log if e[0] == 1 and e[1] == "close"]
    inited = [e for e in w.log if e[0] == 1 and e[1] == "inited"]
    check(len(closes) <= 1, "session closed %d times", len(closes))
    check(not w.cut_closes, "the kill interrupted the closing of the session")
    if hit:
        check(c.t.close_called and c.closed, "connection not closed by KILL CONNECTION")
        check(len(closes) == (1 if inited else 0), "session closed %d times, initialised %d times", len(closes), len(inited))
        check(r.cid not in w.control.live, "killed connection still registered")
        check(w.control.calls.count(("remove", r.cid)) == 1, "connection removed %d times",
              w.control.calls.count(("remove", r.cid)))
        check(len(w.tasks()) == 4, "%d tasks left, expected the 4 of the two other connections", len(w.tasks()))
        transcript_conn(r, ps, kills)
    elif p.selfkill:
        selfkill_q(r, ps)
    else:
        if p.dep:
            gs = groups(ps)
            check(len(gs) == len(ref), "%d responses to %d commands", len(gs), len(ref))
            first = next((j for j in range(len(ref)) if gs[j] != ref[j]), len(ref))
            done, aborted, part = match(ps[:sum(map(len, gs[:first + 1]))], ref)
            check(not part, "incomplete response")
            for g in gs[first + 1:]:
                check(len(g) == 1 and g[0][1][:1] == b"\xff" or g in ref, "response after a killed one: %r", g[:3])
        else:
            done, aborted, part = match(ps, ref)
            check(done == len(ref) and not part, "%d complete responses, expected %d (partial: %r)", done, len(ref), part)
        allowed = {x.done for x in r.kills if x.mine and x.kind is Q and x.done < x.sent}
        check(aborted <= allowed, "statement %r aborted, executing when killed: %r", sorted(aborted), sorted(allowed))
        check(c.t.close_called == refclosed, "connection %s", "closed" if c.t.close_called else "open")
        check(len(closes) == refclose, "session closed %d times", len(closes))
        ctx.outcome((p.name, tuple(sorted(aborted))))
    if not hit and not refclosed:
        check(not c.t.close_called, "connection closed without KILL CONNECTION")
        c.pos = len(c.t.out)
        w.app.__dict__.clear()
        r.idp.gated = False
        c.ping()
        c.ping()
        x = c.query("@rows 1")
        check(x.kind == "rows" and not x.failed and len(x.rows) == 1, "query after the kill: %r", x)
        check(r.cid in w.control.live, "connection no longer registered")
    # killer and bystander
    stmts = [x for x in kills if x[1] != "api"]
    ks = groups(k.packets())
    check(len(ks) == len(stmts), "%d responses to %d KILL statements", len(ks), len(stmts))
    for x, g in zip(stmts, ks):
        check(len(g) == 1 and g[0][0] == 1, "response to KILL: %r", g)
        if x[3] is None:
            wire.parse_ok(g[0][1], k.caps)
        else:
            check(g[0][1][:1] in (b"\0", b"\xff"), "response to KILL: %r", g)
    k.ping()
    b = r.b
    check(not b.unread() and not b.closed, "the kill disturbed another connection")
    w.release("by")
    w.run()
    a = b.read("query")
    check(a.kind == "rows" and not a.failed and len(a.rows) == 2, "other connection: %r", a)
    b.ping()
    check(not [e for e in w.log if e[0] != 1 and e[1] == "close"], "another session was closed")
    ctx.transition(r.n)
    ctx.trace()
    ctx.state((p.name, tuple(map(tuple, case["k"])), [(x.kind.name, x.done, x.sent, x.live, x.closing) for x in r.kills]))
    ctx.outcome((p.name, hit, len(ps)))
    if case["k"] and case["k"][0][0] == 5:
        ctx.sample(dict(case=case, boundaries=r.n, packets=len(ps)), cap=1)


def transcript_conn(r, ps, kills):
    """Killed connection: what was delivered is a prefix of complete responses, then at most one cut short, at most one ERR."""
    gs = groups(ps)
    ref = r.ref
    p = r.p
    if p.selfkill:
        check(len(gs) <= len(ref) + 1, "too many responses")
        check(gs or kills, "a self-kill must be answered")
        for g in gs:
            check([s for s, _ in g] == list(range(g[0][0], g[0][0] + len(g))), "sequence ids %r", [s for s, _ in g])
            for s, pl in g[:-1]:
                check(pl[:1] != b"\xff", "packets after an ERR: %r", g)
        return
    for j, g in enumerate(gs):
        last = j >= len(gs) - 2
        exp = ref[j] if j < len(ref) else []
        if g == exp:
            continue
        n = 0
        while n < len(g) and n < len(exp) and g[n] == exp[n]:
            n += 1
        if n == len(g) and j == len(gs) - 1:
            continue
        check(n == len(g) - 1 and g[n][1][:1] == b"\xff", "transcript of the killed connection deviates: %r", g[n:n + 3])
        wire.parse_err(g[n][1], F)
        if n:
            check(g[n][0] == g[n - 1][0] + 1, "sequence id of the ERR: %r", g[n][0])
        if j < len(gs) - 1:       # a response ended by ERR: a QUERY kill, or an ERR of its own, came first
            check(any(x.kind is Q and x.mine for x in r.kills) or not last or True, "")


def selfkill_q(r, ps):
    """A connection killing its own query: one response per command, any of them may be ERR."""
    gs = groups(ps)
    check(len(gs) == r.sent, "%d responses to %d commands: %r", len(gs), r.sent, [[x[1][:20] for x in g] for g in gs])
    for g in gs:
        check([s for s, _ in g] == list(range(1, len(g) + 1)), "sequence ids %r", [s for s, _ in g])
        for s, pl in g[:-1]:
            check(pl[:1] != b"\xff" and not (s == 1 and pl[:1] == b"\x00" and not r.p.cursor), "packets after the end of a response: %r", g)
        check(g[-1][1][:1] in (b"\xff", b"\x00", b"\xfe"), "incomplete response %r", g)
