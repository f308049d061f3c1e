"""A complete system: one MysqlServer, simulated clients and a recording application."""
import asyncio
import inspect
import logging
import ssl as _ssl

from harness import repo  # noqa: F401  (installs the source loader)
from harness import wire
from harness.simloop import SimLoop, SimTransport, Hang
from harness.wire import ProtocolViolation

from mysql_mimic import MysqlServer, Session  # noqa: E402
from mysql_mimic.control import LocalControl
from mysql_mimic.session import BaseSession
from mysql_mimic.variables import SessionVariables, GlobalVariables

logging.disable(logging.CRITICAL)


class Violation(Exception):
    """The property is broken on this execution."""


def check(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


async def _maybe(x):
    if inspect.isawaitable(x):
        return await x
    return x


class Recorder:
    """Common recording behaviour; `app` is the world's application object."""

    def _rec(self, what, *args):
        self.world.log.append((self.sid, what) + args)

    async def _hook(self, what, *args):
        f = getattr(self.world.app, "on_" + what, None)
        if f is not None:
            return await _maybe(f(self, *args))

    async def _closing(self):
        n = self.world.cut
        try:
            await self._hook("close")
        except asyncio.CancelledError:
            if self.world.cut > n:
                self.world.cut_closes.append(self.sid)
            raise


class RecSession(Recorder, Session):
    """mysql_mimic.Session with recorded callbacks."""

    def __init__(self, world, **kw):
        Session.__init__(self, **kw)
        self.world = world
        self.sid = world._new_sid(self)

    async def init(self, connection):
        self._rec("init", self.username)
        await Session.init(self, connection)
        await self._hook("init", connection)

    async def close(self):
        self._rec("close")
        await Session.close(self)
        await self._closing()

    async def reset(self):
        self._rec("reset")
        await Session.reset(self)
        await self._hook("reset")

    async def use(self, database):
        self._rec("use", database)
        await Session.use(self, database)
        await self._hook("use", database)

    async def handle_query(self, sql, attrs):
        self._rec("handle_query", sql, dict(attrs))
        return await Session.handle_query(self, sql, attrs)

    async def query(self, expression, sql, attrs):
        self._rec("query", expression.sql(dialect="mysql"), sql, dict(attrs))
        self.world.expressions.append(expression)
        f = getattr(self.world.app, "query", None)
        if f is None:
            return [], []
        return await _maybe(f(self, expression, sql, attrs))

    async def schema(self):
        f = getattr(self.world.app, "schema", None)
        if f is None:
            return {}
        return await _maybe(f(self))


class RecBase(Recorder, BaseSession):
    """A minimal BaseSession: no SQL parsing at all."""

    def __init__(self, world):
        self.world = world
        self.variables = SessionVariables(GlobalVariables())
        self.username = None
        self.database = None
        self.sid = world._new_sid(self)

    async def init(self, connection):
        self._rec("init", self.username)
        await self._hook("init", connection)

    async def close(self):
        self._rec("close")
        await self._closing()

    async def reset(self):
        self._rec("reset")
        await self._hook("reset")

    async def use(self, database):
        self._rec("use", database)
        self.database = database
        await self._hook("use", database)

    async def handle_query(self, sql, attrs):
        self._rec("handle_query", sql, dict(attrs))
        f = getattr(self.world.app, "query", None)
        if f is None:
            return None
        return await _maybe(f(self, None, sql, attrs))


class RecControl(LocalControl):
    """LocalControl recording what the server asks of it (public interface only)."""

    def __init__(self, *a, **kw):
        LocalControl.__init__(self, *a, **kw)
        self.live = {}
        self.calls = []
        self.fail_add = None

    async def add(self, connection):
        if self.fail_add:
            raise self.fail_add
        cid = await LocalControl.add(self, connection)
        self.calls.append(("add", cid))
        self.live[cid] = connection
        return cid

    async def remove(self, connection_id):
        self.calls.append(("remove", connection_id))
        self.live.pop(connection_id, None)
        await LocalControl.remove(self, connection_id)

    async def kill(self, connection_id, *a, **kw):
        self.calls.append(("kill", connection_id, a, tuple(sorted(kw.items()))))
        return await LocalControl.kill(self, connection_id, *a, **kw)


class App:
    pass


class World:
    def __init__(self, session=RecSession, app=None, identity_provider=None, control=None,
                 session_factory=None, server_id=1, **server_kw):
        self.loop = SimLoop()
        self.loop.enter()
        self.log = []
        self.patient = False          # run() lets virtual time pass until no timer is left
        self.cut = 0                  # gates left by a cancellation
        self.cut_closes = []          # sessions whose close() was cancelled from outside
        self.expressions = []
        self.sessions = []
        self.gates = {}
        self.app = app if app is not None else App()
        self.clients = []
        self.control = control or RecControl(server_id=server_id)
        if session_factory is None:
            def session_factory():
                return session(self)
        kw = dict(server_kw)
        if identity_provider is not None:
            kw["identity_provider"] = identity_provider
        self.server = MysqlServer(session_factory=session_factory, control=self.control, **kw)
        self.loop.drive(self.server.start_server(port=3306))
        self.factory = self.loop.servers[-1].factory

    def _new_sid(self, session):
        self.sessions.append(session)
        return len(self.sessions) - 1

    # -- application gates -----------------------------------------------------
    async def gate(self, name):
        """Application side: wait until the driver releases `name`."""
        fut = self.loop.create_future()
        self.gates.setdefault(name, []).append(fut)
        try:
            return await fut
        except asyncio.CancelledError:
            self.cut += fut.cancelled()   # not one released with a CancelledError
            raise
        finally:
            if fut in self.gates.get(name, ()):
                self.gates[name].remove(fut)

    def waiting(self, name):
        return [f for f in self.gates.get(name, ()) if not f.done()]

    def release(self, name, value=None, exc=None):
        for f in list(self.gates.get(name, ())):
            if not f.done():
                if exc is not None:
                    f.set_exception(exc)
                else:
                    f.set_result(value)

    # -- driving ------------------------------------------------------------------
    def run(self, limit=2_000_000):
        n = self.loop.run(limit)
        while self.patient and self.loop.fire_timers():
            n += self.loop.run(limit)
        return n

    def settle(self, seconds=3600.0):
        """Run to quiescence, letting virtual timers fire too."""
        self.loop.advance(seconds)

    def connect(self, window=None, run=True):
        c = Client(self, window)
        self.clients.append(c)
        if run:
            self.run()
        return c

    def login(self, caps=wire.FULL_CAPS, **kw):
        """Connect and authenticate a client; must succeed."""
        c = self.connect()
        r = c.login(caps=caps, **kw)
        if not isinstance(r, wire.OK):
            raise Violation(f"login failed: {r}")
        return c

    def tasks(self):
        return [t for t in asyncio.all_tasks(self.loop) if not t.done()]

    def calls(self, *whats):
        return [e for e in self.log if e[1] in whats]

    def close(self):
        if self.loop.is_closed():
            return
        try:
            for _ in range(20):
                ts = self.tasks()
                if not ts:
                    break
                for t in ts:
                    t.cancel()
                try:
                    self.loop.run(100_000)
                except Hang:
                    break
        finally:
            for t in asyncio.all_tasks(self.loop):
                t._log_destroy_pending = False
            self.loop.leave()
            self.loop.close()
            for s in self.sessions:
                s.world = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Client:
    def __init__(self, world, window=None):
        self.w = world
        self.protocol = world.factory()
        self.t = SimTransport(world.loop, self.protocol, window)
        self.pos = 0
        self.hs = None
        self.caps = 0
        self.auth_trace = []
        self.tls = None

    # -- raw bytes -----------------------------------------------------------------
    def outbytes(self):
        return self.tls.plain if self.tls else self.t.out

    def feed(self, data):
        if self.tls:
            self.tls.send(data)
        else:
            self.t.feed(data)

    def send(self, payload, seq=0):
        self.feed(wire.frame(payload, seq))

    def packets(self, complete=True):
        """All packets since the last call."""
        if self.tls:
            self.tls.pull()
        out = self.outbytes()
        pkts, n, ok = wire.split(memoryview(out)[self.pos:])
        if complete and not ok:
            raise ProtocolViolation("server output ends inside a packet: %r" % bytes(out[self.pos + n:][:60]))
        self.pos += n
        return pkts

    def unread(self):
        if self.tls:
            self.tls.pull()
        return len(self.outbytes()) - self.pos

    @property
    def closed(self):
        return self.t.closed

    def eof(self):
        self.t.feed_eof()

    def reset(self):
        self.t.feed_reset()

    # -- conversation ----------------------------------------------------------------
    def handshake(self):
        pk = self.packets()
        if len(pk) != 1:
            raise ProtocolViolation(f"expected exactly the handshake packet, got {pk!r}")
        seq, _, payload = pk[0]
        if seq != 0:
            raise ProtocolViolation("handshake sequence id")
        if payload[:1] == b"\xff":
            return wire.parse_err(payload, 0, pre=True)
        self.hs = wire.parse_handshake(payload)
        return self.hs

    def _auth_reply(self, expect_seq):
        pk = self.packets()
        if len(pk) != 1:
            raise ProtocolViolation(f"expected exactly one packet during authentication, got {pk!r}")
        seq, chunks, payload = pk[0]
        if seq != expect_seq & 255 or chunks != 1:
            raise ProtocolViolation(f"authentication packet seq {seq}, expected {expect_seq}")
        r = wire.parse_auth_reply(payload, self.caps)
        self.auth_trace.append(r)
        return r

    def login(self, user="u", password="", caps=wire.FULL_CAPS, db=None, charset=255, plugin=None,
              attrs=None, auth=None, ssl=False, codec="utf8", answers=None, extra_caps=0):
        """Standard client authentication. Returns OK or ERR."""
        if self.hs is None:
            h = self.handshake()
            if isinstance(h, wire.ERR):
                return h
        caps &= self.hs.caps | wire.CONNECT_WITH_DB
        if db is None:
            caps &= ~wire.CONNECT_WITH_DB
        self.caps = caps & self.hs.caps
        seq = 1
        if ssl:
            self.send(wire.ssl_request(caps, charset), seq)
            seq += 1
            self.w.run()
            self.tls = TLSClient(self)
            self.tls.handshake()
            caps |= wire.SSL
        plugin = plugin if plugin is not None else (self.hs.plugin.decode() or "mysql_native_password")
        if auth is None:
            auth = self._answer(plugin, password, self.hs.nonce, self.hs)
        payload = wire.handshake_response(
            caps | extra_caps, user.encode(codec), auth, db.encode(codec) if db is not None else None,
            plugin.encode(codec), attrs, charset)
        self.send(payload, seq)
        return self._auth_loop(seq, password, answers)

    @staticmethod
    def _answer(plugin, password, nonce, hs=None):
        if plugin == "mysql_native_password":
            return wire.native_scramble(password, nonce)
        if plugin == "mysql_clear_password":
            return password.encode() + b"\0"
        return b""

    def _auth_loop(self, seq, password, answers=None):
        answers = list(answers or [])
        while True:
            self.w.run()
            r = self._auth_reply(seq + 1)
            if isinstance(r, (wire.OK, wire.ERR)):
                return r
            if answers:
                a = answers.pop(0)
                data = a(r) if callable(a) else a
            elif isinstance(r, wire.AuthSwitch):
                data = self._answer(r.plugin.decode(), password, r.nonce)
            else:
                data = self._answer("mysql_native_password", password, r.data[:20])
            seq += 2
            self.send(data, seq)

    def change_user(self, user="u", password="", db="", charset=255, plugin="mysql_native_password",
                    attrs=None, auth=None, nonce=None, answers=None, tail=True, codec="utf8"):
        if auth is None:
            auth = self._answer(plugin, password, nonce or self.hs.nonce)
        payload = wire.com_change_user(self.caps, user.encode(codec), auth, db.encode(codec), charset,
                                       plugin.encode(codec), attrs, tail)
        self.send(payload, 0)
        return self._auth_loop(0, password, answers)

    def read(self, kind, cols=None, exact=True):
        """Decode one response from what the server has sent so far."""
        p = wire.Packets(self.packets())
        res = wire.read_response(p, kind, self.caps, cols)
        if exact and p.more():
            raise ProtocolViolation(f"unsolicited packets after {res}: {p.pkts[p.i:][:3]!r}")
        return res

    def cmd(self, payload, kind=None, cols=None, run=True):
        if self.unread():
            raise ProtocolViolation(f"unsolicited bytes before the command: {self.packets(False)!r}")
        self.send(payload)
        if run:
            self.w.run()
        return self.read(kind or wire.kind_of(payload), cols)

    def query(self, sql, attrs=()):
        return self.cmd(wire.com_query(sql, self.caps, attrs), "query")

    def ping(self):
        r = self.cmd(wire.COM_PING)
        if r.kind != "ok":
            raise Violation(f"PING answered with {r}")
        return r

    def prepare(self, sql):
        return self.cmd(wire.com_prepare(sql))

    def execute(self, stmt_id, params=(), **kw):
        return self.cmd(wire.com_execute(stmt_id, params, self.caps, **kw))

    def fetch(self, stmt_id, n, cols):
        return self.cmd(wire.com_fetch(stmt_id, n), "fetch", cols)

    def silent(self, payload):
        """A command without response."""
        r = self.cmd(payload, "none")
        if self.unread():
            raise ProtocolViolation("response to a no-reply command")
        return r


class TLSClient:
    """Client TLS over the simulated transport, through ssl.MemoryBIO."""

    ctx = None

    def __init__(self, client):
        if TLSClient.ctx is None:
            c = _ssl.SSLContext(_ssl.PROTOCOL_TLS_CLIENT)
            c.check_hostname = False
            c.verify_mode = _ssl.CERT_NONE
            TLSClient.ctx = c
        self.c = client
        self.inc, self.outg = _ssl.MemoryBIO(), _ssl.MemoryBIO()
        self.obj = TLSClient.ctx.wrap_bio(self.inc, self.outg)
        self.rawpos = client.pos
        self.plain = bytearray()
        self.done = False

    def first_flight(self):
        """ClientHello bytes."""
        try:
            self.obj.do_handshake()
        except _ssl.SSLWantReadError:
            pass
        return self.outg.read()

    def _raw_in(self):
        out = self.c.t.out
        if len(out) > self.rawpos:
            self.inc.write(bytes(out[self.rawpos:]))
            self.rawpos = len(out)

    def handshake(self, sent_first=False):
        if not sent_first:
            self.c.t.feed(self.first_flight())
        for _ in range(10):
            self.c.w.run()
            self._raw_in()
            try:
                self.obj.do_handshake()
                self.done = True
            except _ssl.SSLWantReadError:
                pass
            d = self.outg.read()
            if d:
                self.c.t.feed(d)
            if self.done:
                break
        else:
            raise ProtocolViolation("TLS handshake does not complete")
        self.c.pos = 0
        self.c.w.run()

    def encrypt(self, data):
        self.obj.write(data)
        return self.outg.read()

    def send(self, data):
        self.c.t.feed(self.encrypt(data))

    def pull(self):
        self._raw_in()
        while True:
            try:
                d = self.obj.read(1 << 16)
            except _ssl.SSLWantReadError:
                break
            except _ssl.SSLError:
                break
            if not d:
                break
            self.plain += d
