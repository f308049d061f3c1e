"""C18: connection ids are unique among live connections and address the right one."""
import asyncio
import itertools
import os

from harness import wire
from harness.world import World, RecSession, RecBase, Violation, check

from mysql_mimic.constants import KillKind
from mysql_mimic.control import LocalControl, TooManyConnections
from mysql_mimic.errors import MysqlError

ID = "C18"
LEVEL = "model_checking"
RULE = ("one execution = a history of arrivals, departures and KILLs on the real registry (really advanced through all 65536 ids) or on a complete "
        "server; after every step the ids must satisfy the set model: id not live, upper half = server id, refused exactly when all 65536 are live; "
        "handshake id, CONNECTION_ID() and the connection reached by KILL must be the same")
N = 1 << 16
BOUNDS = {
    "quick": "all 512 survivor subsets of 9 positions and all blocks of 8 sizes x 7 positions over 2 wrap-arounds x 3 churn styles; all histories of <=5 steps over "
             "{arrive, oldest leaves, newest leaves} from 32 survivor subsets at the wrap; full registry with every one of 600 and pairs of 12 ids freed, all histories of "
             "<=4 arrivals/departures with 1..3 free ids; servers with 4 clients at 10 registry states x all killer/victim pairs x 4 KILL forms; 16 ways of ending "
             "a connection at a full registry; 66000 real connections with survivors",
    "thorough": "8192 survivor subsets of 13 positions, 3 wrap-arounds; histories of <=7 steps; every one of the 65536 ids freed; pairs of 40",
}
ASSUMPTIONS = ["KILL of an unknown id may be answered by OK or an error",
               "the id of a connection whose session is still being closed may already be in use by another one or not"]


class Conn:
    """What the registry needs of a connection."""

    def __init__(self):
        self.kills = []

    def kill(self, kind=KillKind.CONNECTION):
        self.kills.append(kind)


class Reg:
    """The registry and its model: the set of live ids."""

    def __init__(self, sid=7, control=None):
        self.c = control or LocalControl(server_id=sid)
        self.hi = sid % N
        self.live = {}
        self.log = []

    async def add(self, conn=None):
        conn = conn or Conn()
        try:
            i = await self.c.add(conn)
        except TooManyConnections:
            check(len(self.live) >= N, "refused with only %d live connections", len(self.live))
            return None
        if len(self.live) >= N:
            raise Violation("a connection was accepted though all ids are in use: id %r" % (i,))
        if i in self.live:
            raise Violation("id %r was given to a new connection while another one with it is alive" % (i,))
        if not (isinstance(i, int) and i >> 16 == self.hi):
            raise Violation("id %r: the upper half is not the server id %d" % (i, self.hi))
        self.live[i] = conn
        return i

    async def remove(self, i):
        await self.c.remove(i)
        del self.live[i]

    async def churn(self, n):
        """n short-lived connections, one at a time."""
        add, remove, live, hi = self.c.add, self.c.remove, self.live, self.hi
        conn = Conn()
        for _ in range(n):
            i = await add(conn)
            if i in live or i >> 16 != hi:
                raise Violation("a new connection got the id %r: %s" % (i, "in use by a live connection" if i in live else "the upper half is not the server id %d" % hi))
            await remove(i)

    async def kill_all(self, extra=()):
        """KILL every live id in turn, and ids which nobody has."""
        for i in list(self.live):
            for kind in (KillKind.CONNECTION, KillKind.QUERY):
                before = {j: len(c.kills) for j, c in self.live.items()}
                await self.c.kill(i, kind)
                for j, c in self.live.items():
                    want = before[j] + (j == i)
                    check(len(c.kills) == want and (j != i or c.kills[-1] == kind), "KILL %s %d: connection %d received %r", kind, i, j, c.kills)
        for i in extra:
            if i not in self.live:
                before = {j: len(c.kills) for j, c in self.live.items()}
                await self.c.kill(i)
                check(all(len(c.kills) == before[j] for j, c in self.live.items()), "KILL of the unknown id %d reached a connection", i)


def go(coro):
    """Run a coroutine that never really waits (as those of the registry); anything else gets a loop."""
    try:
        for _ in range(50):
            if coro.send(None) is not None:
                break
    except StopIteration as e:
        return e.value
    raise Violation("the registry waits for something")


# ---- registry -----------------------------------------------------------------------------------------------
SIDS = [0, 1, 2, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, 131072, (1 << 31) + 3, -1]


def k_sid(case, ctx):
    async def run():
        sid = case["sid"]
        r = Reg(sid)
        for rnd in range(3):
            ids = [await r.add() for _ in range(40)]
            check(len(set(ids)) == 40, "duplicate ids")
            await r.kill_all([i + N for i in ids] + [i ^ 1 << 31 for i in ids] + [i & 65535 for i in ids] + [i + (1 << 32) for i in ids] + [ids[-1] + 1, 0, -1])
            for i in ids[rnd::2]:
                await r.remove(i)
                for j in (i, i + N, i & 0xffff, 1 << 33):       # unknown by now
                    if j not in r.live:
                        await r.c.remove(j)
            ctx.transition(120)
        ctx.state(("sid", sid))
    go(run())


def k_default(case, ctx):
    """No server id configured: some server id, always the same one."""
    async def run():
        for make in (lambda: LocalControl(), lambda: LocalControl(None), lambda: LocalControl(server_id=None)):     # noqa: E731
            for _ in range(20):
                c = make()
                check(isinstance(c.server_id, int), "server id %r", c.server_id)
                r = Reg(c.server_id, c)
                for _ in range(50):
                    await r.add()
                ctx.transition(50)
        ctx.state(("default",))
    go(run())


WINDOW = [0, 1, 2, 3, 100, 32768, 65533, 65534, 65535]
WINDOW_T = WINDOW + [99, 101, 4, 65532]


async def advance(r, keep, n, style):
    """n arrivals; those at the positions in `keep` stay. -> their ids"""
    kept, fifo = [], []
    pos = 0
    for p in sorted(keep) + [n]:
        gap = p - pos
        if style == 0:
            await r.churn(gap)
        else:
            for _ in range(gap):
                fifo.append(await r.add())
                if style == 1 and len(fifo) > 50:
                    await r.remove(fifo.pop(0))
                elif style == 2 and len(fifo) >= 200:
                    while fifo:
                        await r.remove(fifo.pop())
        pos = p
        if p < n:
            kept.append(await r.add())
            pos += 1
    for i in fifo:
        await r.remove(i)
    return kept


def k_wrap(case, ctx):
    """Survivors (a subset of a window of arrivals) over wrap-arounds."""
    async def run():
        win = WINDOW_T if case.get("t") else WINDOW
        for bits in range(case["lo"], case["hi"]):
            keep = [p for i, p in enumerate(win) if bits >> i & 1]
            r = Reg(case["sid"])
            a = await advance(r, keep, N, case["style"])
            for w in range(case["wraps"]):
                await advance(r, [], N, case["style"])
                if w == 0 and case.get("replace"):
                    for i in a[::2]:
                        await r.remove(i)
                    await advance(r, keep, N - 5, 0)
            check(all(i in r.live for i in a) or case.get("replace"), "harness")
            if len(r.live) < 40:
                await r.kill_all()
            ctx.transition(N)
            ctx.state(("wrap", bits, case["wraps"], case["style"], bool(case.get("replace"))))
    go(run())


def k_block(case, ctx):
    """A block of survivors; the next arrivals skip it."""
    async def run():
        r = Reg(case["sid"])
        start, size = case["start"], case["size"]
        a = await advance(r, range(start, start + size), N, 0)
        check(len(a) == size == len(r.live), "harness")
        await r.churn(N - size + 3)
        ids = [await r.add() for _ in range(min(N - size, 300))]
        check(None not in ids, "refused with %d live connections", len(r.live))
        for i in a[:: max(1, size // 50)]:
            await r.remove(i)
        await r.churn(1000)
        ctx.transition(N)
        ctx.state(("block", start, size))
    go(run())


async def fill(r):
    conn = Conn()
    while len(r.live) < N:
        if await r.add(conn) is None:
            raise Violation("refused")
    check(len(r.live) == N and set(r.live) == set(range(r.hi << 16, (r.hi + 1) << 16)), "the full registry does not use every id")


def k_full(case, ctx):
    """All ids in use: refused; each freed id makes exactly one arrival possible."""
    async def run():
        r = Reg(case["sid"])
        await fill(r)
        base = r.hi << 16
        for p in case["free"]:
            ps = p if isinstance(p, list) else [p]
            for _ in range(2):
                check(await r.add() is None, "accepted")
            for q in ps:
                await r.remove(base + q)
            got = [await r.add() for _ in ps]
            check(sorted(got) == sorted(base + q for q in ps), "the free ids %r were handed out as %r", ps, got)
            check(await r.add() is None, "accepted")
            ctx.transition(5)
            ctx.state(("full", p if isinstance(p, int) else tuple(p)))
        # everybody leaves
        for i in list(r.live):
            await r.remove(i)
        await r.churn(300)
        ids = [await r.add() for _ in range(300)]
        check(None not in ids, "refused with few connections")
    go(run())


def forked(fn):
    """fn() in a child process; its violation message or ''."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        msg = ""
        try:
            try:
                fn()
            except Violation as e:
                msg = str(e)
            except BaseException as e:
                msg = "exception: %r" % e
            os.write(wr, msg.encode("utf8", "replace")[:2000])
        finally:
            os._exit(0)
    os.close(wr)
    out = b""
    while True:
        b = os.read(rd, 4096)
        if not b:
            break
        out += b
    os.close(rd)
    os.waitpid(pid, 0)
    return out.decode("utf8", "replace")


def step(r, new, op):
    """One step of a history, without a loop of its own (the registry never really waits)."""
    async def f():
        if op == "a":
            i = await r.add()
            if i is not None:
                new.append(i)
        elif op == "n" and new:
            await r.remove(new.pop())
        elif op == "o" and r.live:
            i = min(r.live)
            await r.remove(i)
            if i in new:
                new.remove(i)
        elif op == "h" and r.live:
            i = max(r.live)
            await r.remove(i)
            if i in new:
                new.remove(i)
    return f()


def k_hist(case, ctx):
    """All histories at the wrap-around, from a registry with survivors around it."""
    win = [0, 1, 2, 65534, 65535]
    keep = [p for i, p in enumerate(win) if case["bits"] >> i & 1]
    r = Reg(case["sid"])

    async def prep():
        await advance(r, keep, N, 0)
        await r.churn(N - 3 - sum(p in (65534, 65535) for p in keep) - sum(p < 3 for p in keep) + 0)
    go(prep())
    for d in range(1, case["depth"] + 1):
        if 1 < d < case["depth"]:
            continue
        for h in itertools.product("ano", repeat=d):
            def run(h=h):
                async def f():
                    new = []
                    for op in h:
                        await step(r, new, op)
                    await r.kill_all([0, 1, (r.hi << 16) + 65533, (r.hi << 16) + 3])
                go(f())
            msg = forked(run)
            check(not msg, "survivors %r, history %s: %s", keep, "".join(h), msg)
            ctx.transition(d)
            ctx.state(("hist", case["bits"], h))
            ctx.trace()


def k_scarce(case, ctx):
    """All histories with only a few free ids."""
    r = Reg(case["sid"])
    base = (case["sid"] % N) << 16

    async def prep():
        await fill(r)
        for p in case["free"]:
            await r.remove(base + p)
    go(prep())
    for h in itertools.product("anoh", repeat=case["depth"]):
        def run(h=h):
            async def f():
                new = []
                for op in h:
                    await step(r, new, op)
                    check(len(r.live) <= N, "harness")
            go(f())
        msg = forked(run)
        check(not msg, "free ids %r, history %s: %s", case["free"], "".join(h), msg)
        ctx.transition(len(h))
        ctx.state(("scarce", tuple(case["free"]), h))
        ctx.trace()


# ---- complete servers ---------------------------------------------------------------------------------------------
class AppC:
    def __init__(self):
        self.w = None

    async def query(self, s, e, sql, attrs):
        if "wait" in sql:
            await self.w.gate("q%d" % s.sid)
        return [("x",)], ["m"]


class Srv:
    def __init__(self, sid=1, pre=0, keep=(), control=None, session=RecSession, **kw):
        self.app = AppC()
        self.control = control or LocalControl(server_id=sid)
        self.sid = sid
        self.w = World(session=session, app=self.app, control=self.control, **kw)
        self.app.w = self.w
        self.held = {}
        self.dummies = Conn()
        self.w.loop.drive(self._pre(pre, set(keep)))
        self.clients = []

    async def _pre(self, n, keep):
        for p in range(n):
            i = await self.control.add(self.dummies)
            if p in keep:
                self.held[i] = 1
            else:
                await self.control.remove(i)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.w.close()

    def connect(self, **kw):
        c = self.w.connect()
        r = c.login(**kw)
        check(isinstance(r, wire.OK), "login: %s", r)
        self.clients.append(c)
        self.distinct()
        return c

    def distinct(self):
        ids = [c.hs.connection_id for c in self.clients if not c.closed] + list(self.held)
        check(len(set(ids)) == len(ids), "live connections with the same id: %r", sorted(ids)[:20])
        if self.sid is not None:
            for c in self.clients:
                check(c.hs.connection_id >> 16 == self.sid % N, "the handshake announces id %d; the server id is %d", c.hs.connection_id, self.sid)

    def id_of(self, c, forms=("SELECT CONNECTION_ID()",), text=0):
        for f in forms:
            r = c.query(f)
            check(r.kind == "rows" and len(r.rows) == 1 and len(r.rows[0]) == 1 and int(r.rows[0][0]) == c.hs.connection_id,
                  "%s returned %s %r; the handshake announced %d", f, r, r.rows, c.hs.connection_id)
            if text:
                continue
            st = c.prepare(f)
            r = c.execute(st.stmt_id)
            check(r.kind == "rows" and len(r.rows) == 1 and int(r.rows[0][0]) == c.hs.connection_id,
                  "the prepared %s returned %r; the handshake announced %d", f, r.rows, c.hs.connection_id)
            c.silent(wire.com_close(st.stmt_id))

    def alive(self, c):
        if c.closed:
            return False
        c.ping()
        return True


FORMS = ["SELECT CONNECTION_ID()", "select connection_id()", "SELECT CONNECTION_ID() AS x", "SELECT (CONNECTION_ID())", "/* c */ SELECT\nCONNECTION_ID( )"]
STATES = [dict(sid=0), dict(sid=1), dict(sid=32768), dict(sid=65535), dict(sid=65536 + 5), dict(sid=1, pre=65534), dict(sid=65535, pre=65534, keep=[0]), dict(sid=0, pre=65534, keep=[0, 1, 65533]),
          dict(sid=40000, pre=N + 65533, keep=[2, 65535]), dict(sid=9, pre=32767)]
KILLS = ["KILL %d", "KILL CONNECTION %d", "kill %d", "KILL QUERY %d"]


def k_matrix(case, ctx):
    """Each client kills each: exactly the addressed one ends."""
    for sess in range(case["n"]):
        for victim in range(case["n"]):
            for kill in KILLS[::3] if "pre" in case["state"] else KILLS:
                with Srv(**case["state"]) as s:
                    cl = [s.connect() for _ in range(case["n"])]
                    vid = cl[victim].hs.connection_id
                    q = "QUERY" in kill
                    if sess == victim:
                        cl[sess].send(wire.com_query(kill % vid, cl[sess].caps))
                        s.w.run()
                        cl[sess].packets(False)
                    else:
                        r = cl[sess].query(kill % vid)
                        check(r.kind == "ok", "%s: %s", kill % vid, r)
                        cl[victim].packets(False)
                    for i, c in enumerate(cl):
                        dead = i == victim and not q
                        if i == victim and q:
                            check(not c.closed, "%s closed the connection", kill)
                            continue
                        check(c.closed == dead, "%s (ids %r): client %d (id %d) was %s", kill % vid, [x.hs.connection_id for x in cl], i, c.hs.connection_id,
                              "closed" if c.closed else "not closed")
                        if not dead:
                            s.id_of(c, text=1)
                    check(not s.dummies.kills, "a bystander was killed")
                    n = s.connect()
                    s.id_of(n, text=1)
                    ctx.transition(6)
                    ctx.state(("matrix", str(case["state"]), sess, victim, kill))


def k_busy(case, ctx):
    """Every victim among waiting clients; KILL and KILL QUERY."""
    n = case["n"]
    for victim in range(n):
        for kill in ("KILL %d", "KILL QUERY %d"):
            with Srv(**case["state"]) as s:
                cl = [s.connect() for _ in range(n)]
                admin = s.connect()
                for c in cl:
                    c.send(wire.com_query("SELECT 'wait' FROM t", c.caps))
                s.w.run()
                r = admin.query(kill % cl[victim].hs.connection_id)
                check(r.kind == "ok", "%s: %s", kill, r)
                for i, c in enumerate(cl):
                    check(bool(c.unread() or c.closed) == (i == victim), "%s addressed to client %d: client %d %s", kill, victim, i, "was hit" if i != victim else "was not hit")
                    if i == victim:
                        if "QUERY" in kill:
                            check(c.read("query").kind == "err" and not c.closed, "KILL QUERY")
                            s.id_of(c, FORMS[:1])
                        else:
                            check(c.closed, "KILL did not end the connection")
                for i in range(n):
                    s.w.release("q%d" % s.w.sessions[i].sid)
                s.w.run()
                for i, c in enumerate(cl):
                    if i != victim:
                        check(c.read("query").kind == "rows", "a bystander's query failed")
                        s.id_of(c, FORMS[:1])
                ctx.transition(3)
                ctx.state(("busy", str(case["state"]), victim, kill))


def k_others(case, ctx):
    """Ids that belong to nobody reach nobody; the id of a connection that left does not reach its successor unless it was reassigned."""
    with Srv(**case["state"]) as s:
        a, b, c = s.connect(), s.connect(), s.connect()
        ids = [x.hs.connection_id for x in (a, b, c)]
        wrong = []
        for i in ids:
            wrong += [i + N, i - N, i + (1 << 32), i & 0xffff, i ^ 1 << 31, i ^ 1 << 15, i >> 16, i << 16, i * 10, i // 10, int.from_bytes(i.to_bytes(4, "little"), "big")]
        for x in wrong + [0, 1, N, (1 << 32) - 1, 1 << 64]:
            if x in ids or x in s.held or x < 0:
                continue
            for form in ("KILL %d", "KILL QUERY %d", "KILL CONNECTION %d"):
                r = a.query(form % x)
                check(r.kind in ("ok", "err"), "%s: %s", form % x, r)
                check(not b.closed and not c.closed and not s.dummies.kills, "%s ended a connection with another id (%r)", form % x, ids)
                ctx.transition()
        s.id_of(b)
        b.send(b"\x01")
        s.w.settle()
        check(b.closed, "quit")
        s.clients.remove(b)
        a.query("KILL %d" % ids[1])
        d = s.connect()
        check(not c.closed and not d.closed, "KILL of the id of a former connection ended another one")
        for f in FORMS:
            for x in (a, c, d):
                s.id_of(x, [f])
        a.query("KILL %d" % d.hs.connection_id)
        s.w.settle()
        check(d.closed and not c.closed and not a.closed, "KILL of the newest")
        ctx.state(("others", str(case["state"])))


def k_keeps(case, ctx):
    """The id stays the same for the whole life of the connection."""
    ops = {"change": lambda s, c: isinstance(c.change_user(), wire.OK), "reset": lambda s, c: c.cmd(b"\x1f", "ok").kind == "ok",
           "use": lambda s, c: c.query("USE db").kind == "ok", "err": lambda s, c: c.query("SELECT FROM WHERE").kind == "err", "q": lambda s, c: c.query("SELECT a FROM t").kind == "rows",
           "other": lambda s, c: s.connect() is not None, "left": lambda s, c: (s.connect().eof(), s.w.settle(), s.clients.pop()) and True,
           "names": lambda s, c: c.query("SET NAMES latin1").kind == "ok"}
    for h in itertools.product(ops, repeat=case["depth"]):
        with Srv(**case["state"]) as s:
            c = s.connect()
            first = c.hs.connection_id
            for op in h:
                check(ops[op](s, c), "%s failed", op)
                s.id_of(c, FORMS[:1])
                ctx.transition()
            k = s.connect()
            check(k.query("KILL %d" % first).kind == "ok", "KILL")
            s.w.settle()
            check(c.closed and not k.closed, "after %r the id %d of the handshake does not denote the connection in KILL", h, first)
            ctx.state(("keeps", str(case["state"]), h))


class Odd(LocalControl):
    """A control of the application's own, with ids of its own, that takes its time."""

    def __init__(self, ids):
        LocalControl.__init__(self, server_id=0)
        self.ids = list(ids)
        self.mine = {}

    async def add(self, connection):
        i = self.ids.pop(0)
        await asyncio.sleep(0)
        self.mine[i] = connection
        return i

    async def remove(self, connection_id):
        await asyncio.sleep(0)
        self.mine.pop(connection_id)

    async def kill(self, connection_id, kind=KillKind.CONNECTION):
        await asyncio.sleep(0)
        c = self.mine.get(connection_id)
        if c:
            c.kill(kind)


def k_own(case, ctx):
    for ids in ([1, 2, 3], [(1 << 32) - 1, 0, 1 << 31], [5, 500000, 4000000000], [256, 65536, 16777216]):
        for victim in range(3):
            with Srv(sid=None, control=Odd(ids)) as s:
                cl = [s.connect() for _ in ids]
                for i, c in zip(ids, cl):
                    check(c.hs.connection_id == i, "the control's id %d is announced as %d", i, c.hs.connection_id)
                    s.id_of(c, FORMS)
                killer = cl[(victim + 1) % 3]
                check(killer.query("KILL %d" % ids[victim]).kind == "ok", "KILL")
                s.w.settle()
                for i, c in enumerate(cl):
                    check(c.closed == (i == victim), "KILL %d: client %d closed=%s", ids[victim], i, c.closed)
                check(set(s.control.mine) == set(ids) - {ids[victim]}, "the registry holds %r", list(s.control.mine))
                ctx.transition(4)
                ctx.state(("own", tuple(ids), victim))


def k_together(case, ctx):
    """Clients arriving at the same time, in and out of order, some never answering."""
    with Srv(**case["state"]) as s:
        cl = [s.w.connect(run=False) for _ in range(case["n"])]
        s.w.run()
        ids = []
        for c in cl:
            h = c.handshake()
            check(not isinstance(h, wire.ERR), "refused: %s", h)
            ids.append(h.connection_id)
        check(len(set(ids)) == len(ids), "duplicate ids in handshakes: %r", ids)
        order = list(range(case["n"]))
        order = order[::-1] if case["rev"] else order
        for i in order[: case["n"] * 2 // 3]:
            r = cl[i].login()
            check(isinstance(r, wire.OK), "login: %s", r)
            s.clients.append(cl[i])
            s.id_of(cl[i], FORMS[:1])
        s.distinct()
        # the silent ones leave; their ids may come back, nobody else's
        for i in order[case["n"] * 2 // 3:]:
            cl[i].eof()
        s.w.settle()
        for _ in range(case["n"]):
            s.connect()
        for c in s.clients:
            s.id_of(c, FORMS[:1])
        ctx.state(("together", case["n"], case["rev"], str(case["state"])))


# -- the full registry on a server ---------------------------------------------------------------------------------
def refused(s, what):
    c = s.w.connect()
    s.w.run()
    pk = c.packets()
    check(len(pk) == 1, "%s: a client on a full server received %d packets", what, len(pk))
    check(pk[0][2][:1] == b"\xff", "%s: a client was accepted (handshake with id %r) though all ids are in use", what, pk[0][2][:40])
    e = wire.parse_err(pk[0][2], 0, pre=True)
    check(e.code == 1040, "%s: refused with error %d instead of 1040", what, e.code)
    s.w.settle()
    check(c.closed, "%s: the refused client's connection stays open", what)


ENDS = ["quit", "eof", "reset", "kill", "killself", "killed-busy", "eof-busy", "badauth", "eof-handshake", "reset-handshake", "garbage", "init-fails", "close-fails", "protocol",
        "eof-auth", "quit-pipelined", "change-denied"]


def k_recover(case, ctx):
    """One free id; a connection takes it, ends in every way, and the next one is served."""
    control = LocalControl(server_id=case["sid"])
    flags = {}

    class App2(AppC):
        def on_init(self, s, conn):
            if flags.get("init"):
                raise MysqlError("no", code=1234)

        def on_close(self, s):
            if flags.get("close"):
                raise RuntimeError("close hook")

    from mysql_mimic.auth import NativePasswordAuthPlugin, IdentityProvider, User

    class IdP(IdentityProvider):
        def get_plugins(self):
            return [NativePasswordAuthPlugin()]

        async def get_user(self, username):
            return User(name=username, auth_string=NativePasswordAuthPlugin.create_auth_string("pw"), auth_plugin="mysql_native_password")

    with Srv(sid=case["sid"], control=control, identity_provider=IdP()) as s:
        app = App2()
        app.w = s.w
        s.w.app = app
        ids = []

        async def fill_():
            while len(ids) < N - case["free"]:
                ids.append(await control.add(s.dummies))
        s.w.loop.drive(fill_())
        admin = s.connect(password="pw") if case["free"] > 1 else None
        refill = None
        if case["free"] == 1:
            # take the place of a dummy whenever a KILL is needed
            pass
        for rnd in range(2):
            for end in ENDS:
                if admin is None and end in ("kill", "killed-busy"):
                    continue
                handshake_only = end in ("eof-handshake", "reset-handshake", "garbage", "badauth", "init-fails", "eof-auth")
                flags.clear()
                if end == "init-fails":
                    flags["init"] = 1
                if end == "close-fails":
                    flags["close"] = 1
                c = s.w.connect()
                if handshake_only:
                    h = c.handshake()
                    check(not isinstance(h, wire.ERR), "before %s (round %d): refused with a free id: %s", end, rnd, h)
                else:
                    r = c.login(password="pw")
                    check(isinstance(r, wire.OK), "before %s (round %d): login: %s", end, rnd, r)
                    s.id_of(c, FORMS[:1])
                refused(s, "while a connection that will end by %s is alive" % end)
                if end == "quit":
                    c.send(b"\x01")
                elif end in ("eof", "close-fails"):
                    c.eof()
                elif end == "eof-handshake":
                    c.eof()
                elif end in ("reset", "reset-handshake"):
                    c.reset()
                elif end == "kill":
                    check(admin.query("KILL %d" % c.hs.connection_id).kind == "ok", "KILL")
                elif end == "killself":
                    c.send(wire.com_query("KILL %d" % c.hs.connection_id, c.caps))
                elif end in ("killed-busy", "eof-busy"):
                    c.send(wire.com_query("SELECT 'wait' FROM t", c.caps))
                    s.w.run()
                    if end == "eof-busy":
                        c.eof()
                        s.w.run()
                        for g in list(s.w.gates):
                            s.w.release(g)
                    else:
                        check(admin.query("KILL %d" % c.hs.connection_id).kind == "ok", "KILL")
                elif end in ("badauth", "init-fails"):
                    try:
                        r = c.login(password="wrong" if end == "badauth" else "pw")
                        check(isinstance(r, wire.ERR), "accepted: %s", r)
                    except wire.ProtocolViolation:
                        check(end == "init-fails", "protocol violation in a refused login")
                elif end == "garbage":
                    c.feed(b"GET / HTTP/1.1\r\n\r\n")
                    s.w.run()
                    c.eof()
                elif end == "protocol":
                    c.send(b"\xee\xee", 77)
                    s.w.run()
                    c.eof()
                elif end == "eof-auth":
                    c.feed(wire.frame(b"\x00" * 40, 1)[:20])
                    s.w.run()
                    c.eof()
                elif end == "quit-pipelined":
                    c.feed(wire.frame(wire.COM_PING, 0) + wire.frame(b"\x01", 0))
                elif end == "change-denied":
                    r = c.change_user(password="wrong")
                    check(isinstance(r, wire.ERR), "accepted")
                    s.w.run()
                    if not c.closed:
                        c.eof()
                s.w.settle()
                flags.clear()
                n = s.w.connect()
                r = n.login(password="pw")
                check(isinstance(r, wire.OK), "after a connection ended by %s (round %d) the next client is not served: %s", end, rnd, r)
                check(n.hs.connection_id not in ids and n.hs.connection_id >> 16 == case["sid"], "id %d", n.hs.connection_id)
                s.id_of(n, FORMS[:1])
                refused(s, "after %s and a new client" % end)
                n.send(b"\x01")
                s.w.settle()
                ctx.transition(5)
                ctx.state(("recover", case["sid"], case["free"], end, rnd))
        # one after the other
        for i in [0, 1, 30000, N - 5]:
            s.w.loop.drive(control.remove(ids[i]))
        got = []
        for _ in range(4 + (case["free"] - (1 if admin else 0))):
            c = s.w.connect()
            r = c.login(password="pw")
            check(isinstance(r, wire.OK), "refused with free ids: %s", r)
            got.append(c)
        check(len({c.hs.connection_id for c in got}) == len(got) and {ids[0], ids[1], ids[30000], ids[N - 5]} <= {c.hs.connection_id for c in got}, "ids")
        refused(s, "full again")
        for c in got:
            s.id_of(c, FORMS[:1])
        if admin:
            check(admin.query("KILL %d" % got[1].hs.connection_id).kind == "ok", "KILL")
            s.w.settle()
            check([c.closed for c in got] == [i == 1 for i in range(len(got))], "KILL at the full registry hit the wrong connection")
        check(not s.dummies.kills, "a bystander was killed")


def k_late(case, ctx):
    """A connection whose session is being closed while others arrive and leave: its late end must not touch a successor."""
    order = case["order"]
    control = LocalControl(server_id=3)
    with Srv(sid=3, control=control) as s:
        ids = []

        class App3(AppC):
            async def on_close(self, sess):
                await s.w.gate("close%d" % sess.sid)
        s.w.app = App3()
        s.w.app.w = s.w

        async def fill_():
            while len(ids) < N - 2:
                ids.append(await control.add(s.dummies))
        s.w.loop.drive(fill_())
        a = s.connect()
        admin = s.connect()
        getattr(a, case["how"])()
        s.w.run()
        x = s.w.connect()
        h = x.handshake()
        taken = not isinstance(h, wire.ERR)
        if taken:
            check(isinstance(x.login(), wire.OK), "login")
        sid_a = s.w.sessions[0].sid
        for op in order:
            if op == "end":
                s.w.release("close%d" % sid_a)
                s.w.settle()
            elif op == "again":
                if not taken:
                    x = s.w.connect()
                    h = x.handshake()
                    taken = not isinstance(h, wire.ERR)
                    if taken:
                        check(isinstance(x.login(), wire.OK), "login")
        check(taken, "service does not resume after the connection ended (%r)", order)
        s.id_of(x, FORMS[:1])
        refused(s, "after the successor of a closing connection arrived")
        check(admin.query("KILL %d" % x.hs.connection_id).kind == "ok", "KILL")
        s.w.run()
        for g in list(s.w.gates):
            s.w.release(g)
        s.w.settle()
        check(x.closed, "KILL %d does not reach the connection announced with it", x.hs.connection_id)
        check(not admin.closed, "the killer was closed")
        y = s.connect()
        s.id_of(y, FORMS[:1])
        refused(s, "full again")
        ctx.transition(4)
        ctx.state(("late", case["how"], tuple(order), taken))


def k_shared(case, ctx):
    """Two servers, one control; and two servers with a control each."""
    from mysql_mimic import MysqlServer
    with Srv(sid=5) as s:
        other = MysqlServer(session_factory=lambda: RecSession(s.w), control=s.control)
        s.w.loop.drive(other.start_server(port=3307))
        third = MysqlServer(session_factory=lambda: RecSession(s.w), control=LocalControl(server_id=6))
        s.w.loop.drive(third.start_server(port=3308))
        fs = [srv.factory for srv in s.w.loop.servers[-3:]]
        cl = []
        for i in range(9):
            s.w.factory = fs[i % 3]
            c = s.w.connect()
            check(isinstance(c.login(), wire.OK), "login")
            cl.append(c)
        ids = [c.hs.connection_id for c in cl]
        check(len(set(ids)) == 9, "ids of several servers: %r", ids)
        check([i >> 16 for i in ids] == [5, 5, 6] * 3, "upper halves %r", ids)
        for c in cl:
            s.id_of(c, FORMS[:1])
        closed = set()
        for killer, victim in ((0, 4), (1, 3), (0, 2), (2, 5), (8, 2)):
            cl[killer].query("KILL %d" % ids[victim])
            s.w.settle()
            if (killer % 3 == 2) == (victim % 3 == 2):
                closed.add(victim)
            check({i for i, c in enumerate(cl) if c.closed} == closed, "KILL %d from client %d: closed %r, expected %r", ids[victim], killer, [i for i, c in enumerate(cl) if c.closed], closed)
            ctx.transition()
        ctx.state(("shared",))


def k_real(case, ctx):
    """Tens of thousands of real connections, a few staying."""
    msg = forked(lambda: real(case, ctx))       # its memory goes away with it
    check(not msg, "%s", msg)
    ctx.transition(case["n"])
    ctx.state(("real", case["sid"], tuple(case["keep"])))


def real(case, ctx):
    with Srv(sid=case["sid"], session=RecSession) as s:
        stay = []
        for n in range(case["n"]):
            c = s.w.connect()
            if n in case["keep"]:
                check(isinstance(c.login(), wire.OK), "login")
                stay.append(c)
                s.clients.append(c)
                s.id_of(c, FORMS[:1])
            else:
                h = c.handshake()
                check(not isinstance(h, wire.ERR), "refused: %s", h)
                i = h.connection_id
                check(i >> 16 == case["sid"] and all(i != x.hs.connection_id for x in stay), "arrival %d got the id %d; alive: %r", n, i, [x.hs.connection_id for x in stay])
                c.eof()
                s.w.run()
                s.w.clients.pop()
            if n % 1000 == 0:
                s.w.log.clear()
                s.w.settle(1)
                s.w.sessions[:] = []
        for c in stay:
            s.id_of(c, FORMS[:1])
        a = s.connect()
        for c in stay:
            check(a.query("KILL %d" % c.hs.connection_id).kind == "ok", "KILL")
            s.w.settle()
            check(c.closed, "KILL of survivor %d", c.hs.connection_id)
            stay = [x for x in stay if x is not c]
            check(all(not x.closed for x in stay), "KILL of another survivor")


def cases(tier):
    th = tier == "thorough"
    out = [dict(k="sid", sid=s) for s in SIDS] + [dict(k="default"), dict(k="own"), dict(k="shared")]
    out += [dict(k="real", sid=4, n=66000, keep=[0, 1, 300, 65535])]
    for st in STATES:
        out += [dict(k="matrix", state=st, n=3), dict(k="busy", state=st, n=3), dict(k="others", state=st)]
    out += [dict(k="matrix", state=st, n=4) for st in (STATES if th else STATES[2:3])]
    for st in STATES[:4]:
        out += [dict(k="keeps", state=st, depth=3 if th else 2)]
    for st in (STATES[1], STATES[6], STATES[7]):
        out += [dict(k="together", state=st, n=n, rev=v) for n in (3, 12, 60) for v in (0, 1)]
    for sid in (0, 3, 65535):
        out += [dict(k="recover", sid=sid, free=f) for f in (1, 2)]
    for how in ("eof", "reset"):
        for o in (["end", "again"], ["again", "end", "again"]):
            out += [dict(k="late", how=how, order=o)]
    out += [dict(k="wrap", lo=i, hi=i + 16, sid=(0, 1, 65535)[i // 16 % 3], style=0, wraps=1) for i in range(0, 512, 16)]
    for style in (1, 2):
        out += [dict(k="wrap", lo=b, hi=b + 1, sid=9, style=style, wraps=2) for b in (0, 1, 0b111, 0b101, 0b101010101, 0b111000000, 0b100000001, 511)]
    out += [dict(k="wrap", lo=b, hi=b + 4, sid=9, style=0, wraps=2, replace=1) for b in range(0, 512, 64)]
    for size in (1, 2, 255, 256, 257, 32768, 65000, 65535):
        out += [dict(k="block", start=st, size=size, sid=11) for st in (0, 1, 255, 32767, 65280, 65533, 65535) if st + size <= N]
    ps = sorted(set(list(range(0, 200)) + list(range(65336, 65536)) + list(range(0, 65536, 331)) + [255, 256, 257, 32767, 32768, 32769]))
    out += [dict(k="full", sid=(0, 1, 65535)[i % 3], free=ps[i::16]) for i in range(16)]
    pp = [0, 1, 2, 255, 256, 32767, 32768, 65279, 65280, 65533, 65534, 65535]
    if th:
        pp = sorted(set(pp + list(range(0, 65536, 2341))))
    pairs = [list(x) for x in itertools.permutations(pp, 2)]
    out += [dict(k="full", sid=2, free=pairs[i::16]) for i in range(16)]
    out += [dict(k="hist", bits=b, sid=(1, 65535, 0)[b % 3], depth=7 if th else 5) for b in range(32)]
    for f in ([0], [65535], [100], [0, 65535], [65534, 65535], [0, 1], [0, 1, 2], [5, 40000, 65535]):
        out += [dict(k="scarce", free=f, sid=8, depth=5 if th else 4)]
    if th:
        out += [dict(k="wrap", lo=i, hi=i + 32, sid=(0, 1, 65535)[i // 32 % 3], style=0, wraps=2, t=1) for i in range(0, 8192, 32)]
        out += [dict(k="wrap", lo=i, hi=i + 16, sid=5, style=st, wraps=1) for i in range(0, 512, 16) for st in (1, 2)]
        out += [dict(k="full", sid=1, free=list(range(i, N, 128))) for i in range(128)]
        out += [dict(k="real", sid=65535, n=132000, keep=[1, 2, 65534, 65535, 65536])]
    return out




def CASE_CPU(case):
    return 400.0 if case.get("n", 0) > 70000 else 150.0 if case["k"] in ("real", "scarce") else 80.0


GC_EVERY = 1


def run_case(case, ctx):
    ctx.outcome((case['k'], str(case)))
    globals()["k_" + case["k"]](case, ctx)
