"""C12: results stream lazily with back-pressure and without starving other clients."""
import itertools

from harness import wire
from harness.world import World, RecBase, check
from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.types import ColumnType

ID = "C12"
LEVEL = "model_checking"
RULE = ("one execution = (protocol, declaration, row width, row source, byte positions at which the socket stops and resumes) or "
        "(protocol, row source, row at which another connection's commands arrive); the lag is checked at every pulled row")
BOUNDS = {
    "quick": "text/binary/cursor x typed/bare/all-NULL-bare x 6 widths x 5 sources; every stop byte 0..160, around every 32 KiB multiple "
             "to 256 KiB, all 2-step resume sequences over 7 increments; unbounded sources and finite ones; witness commands at rows "
             "0..2 and around 1000/10000/20000, 6 witness scripts incl. a new login, one or two streams",
    "thorough": "every stop byte 0..700, all 3-step resume sequences, more widths; witness at every row 0..60, 9900..10100, 19900..20100",
}
ASSUMPTIONS = ["fixed bound used: 1 MiB of row bytes (plus two rows) or 2000 rows between what was pulled and what the socket accepted",
               "bounded number of rows for the answer of another connection's command: 100000"]
BUFFER = 1 << 20
ROWS = 2000
FAIR = 100000
MEM = 4


class Stop(Exception):
    pass


class Src:
    """Instrumented application row source: fixed-size rows, numbered from 10^6."""

    def __init__(self, kind, decl, width, n, hook):
        self.kind, self.decl, self.n, self.hook = kind, decl, n, hook
        self.pad = "p" * width
        self.pulled = 0

    def row(self):
        if self.pulled == self.n or self.hook(self) is False:
            raise Stop()
        i = self.pulled
        self.pulled += 1
        if self.decl == "nulls":
            return (None, None)
        if self.decl == "half":
            return (1000000 + i, None)
        return (1000000 + i, self.pad)

    def make(self):
        src = self

        def gen():
            while True:
                try:
                    r = src.row()
                except Stop:
                    return
                yield r

        async def agen():
            while True:
                try:
                    r = src.row()
                except Stop:
                    return
                yield r

        class It:
            def __iter__(self):
                return self

            def __next__(self):
                try:
                    return src.row()
                except Stop:
                    raise StopIteration from None

        class AIt:
            def __aiter__(self):
                return self

            async def __anext__(self):
                try:
                    return src.row()
                except Stop:
                    raise StopAsyncIteration from None
        cols = ["a", "b"] if self.decl != "typed" else [ResultColumn("a", ColumnType.LONGLONG), ResultColumn("b", ColumnType.VARCHAR)]
        rows = {"gen": gen, "agen": agen, "it": It, "ait": AIt}.get(self.kind)
        if self.kind == "rs":
            return ResultSet(rows=gen(), columns=[ResultColumn("a", ColumnType.LONGLONG), ResultColumn("b", ColumnType.VARCHAR)])
        return (rows(), cols)


class A:
    pass


class Sess(RecBase):
    async def handle_query(self, sql, attrs):
        if sql == "w":
            return ([(1, "w")], ["a", "b"])
        return self.world.app.next(self)


PROTOS = ["text", "binary", "cursor"]
WIDTHS = [0, 10, 300, 5000, 40000, 200000]


def cases(tier):
    th = tier == "thorough"
    out = []
    # where the socket stops
    byte_stops = list(range(0, 700 if th else 160))
    edges = sorted({m + d for m in range(32768, 262145, 32768) for d in (-5, -1, 0, 1, 5, 17)})
    for proto in PROTOS:
        for decl in ("typed", "bare"):
            for lo in range(0, len(byte_stops), 20):
                out.append(dict(k="stall", p=proto, d=decl, w=300, src="gen", stops=byte_stops[lo:lo + 20], incs=[1, 70000], n=None))
            for w in WIDTHS:
                for src in ("gen", "agen", "it", "ait") + (("rs",) if decl == "typed" else ()):
                    if w == 0 and src not in ("gen", "agen") and not th:
                        continue
                    out.append(dict(k="stall", p=proto, d=decl, w=w, src=src, stops=[0, 100, 65536, 200001], incs=[100000], n=None))
                for lo in range(0, len(edges), 12):
                    if w >= 300 and (w <= 5000 or th):
                        out.append(dict(k="stall", p=proto, d=decl, w=w, src="agen" if lo % 24 else "gen", stops=edges[lo:lo + 12], incs=[65536], n=None))
        for decl in ("nulls", "half"):
            for src in ("gen", "agen", "it", "ait"):
                for stop in ([0], [50, 70000]):
                    out.append(dict(k="stall", p=proto, d=decl, w=0, src=src, stops=stop, incs=[100000], n=None))
        incs = [0, 1, 7, 4096, 32768, 65537, 300000]
        for seq in itertools.product(incs, repeat=3 if th else 2):
            for w in (300, 40000):
                out.append(dict(k="stall", p=proto, d="typed", w=w, src="gen", stops=[0, 50000], incs=list(seq), n=None))
                out.append(dict(k="stall", p=proto, d="bare", w=w, src="agen", stops=[0, 50000], incs=list(seq), n=2000 if w == 300 else 40))
        # finite results of growing size: the lag must not grow, and everything arrives in the end
        for n in (0, 1, 2, 10, 1000, 5000, 20000):
            for w in (10, 300):
                for decl in ("typed", "bare"):
                    out.append(dict(k="stall", p=proto, d=decl, w=w, src="gen", stops=[0, 1000, 100000], incs=[10, 40000], n=n))
        # the size of a fetch bounds what is pulled
        if proto == "cursor":
            for n in (1, 2, 10, 999, 1000, 1001, 5000, 10000, 10001):
                for decl in ("typed", "bare"):
                    for src in ("gen", "agen"):
                        out.append(dict(k="fetch", n=n, d=decl, src=src))
    # fairness
    rows = sorted(set(range(0, 61 if th else 3)) | {999, 1001, 9999, 10000, 10001, 20001}
                  | (set(range(9900, 10100)) | set(range(19900, 20100)) if th else set()))
    for proto in PROTOS:
        for decl in ("typed", "bare", "nulls", "half"):
            for src in ("gen", "agen", "it", "ait"):
                for r in rows:
                    if (decl in ("nulls", "half") or src in ("it", "ait")) and r not in (0, 1, 5, 999, 1001, 9999, 10001):
                        continue
                    out.append(dict(k="fair", p=proto, d=decl, src=src, w=0, at=r, script="ping"))
        for script in SCRIPTS:
            for src in ("gen", "agen"):
                for r in (0, 3, 1000, 9999, 10000, 12345):
                    out.append(dict(k="fair", p=proto, d="typed", src=src, w=0, at=r, script=script))
        for w in (10, 1000, 40000):
            for src in ("gen", "agen"):
                for r in (0, 1, 32, 33, 1000) if w < 40000 else (0, 1) if th else (1,):
                    out.append(dict(k="fair", p=proto, d="typed", src=src, w=w, at=r, script="ping"))
        for other in PROTOS:
            for r in (0, 1, 500, 10000):
                out.append(dict(k="fair", p=proto, d="typed", src="gen", w=0, at=r, script="ping", other=other))
    return out


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


class Rig:
    def __init__(self, proto, decl, width, src, n, hook):
        self.w = World(session=Sess, app=A())
        self.proto = proto
        self.sources = {}
        self.spec = (src, decl, width, n)

        def nxt(session):
            s = Src(src, decl, width, n, hook)
            self.sources[session.sid] = s
            return s.make()
        self.w.app.next = nxt
        self.c = self.w.login()
        self.b = self.w.login()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.w.close()

    def start(self, c, before=None):
        """Issue the streaming command without running the loop. Returns bytes already received."""
        if self.proto == "text":
            payload = wire.com_query("q", c.caps)
        else:
            p = c.prepare("q")
            if self.proto == "binary":
                payload = wire.com_execute(p.stmt_id, (), c.caps)
            else:
                e = c.execute(p.stmt_id, cursor=True)
                check(e.kind == "cursor", "cursor not opened: %s", e)
                self.cols = e.cols
                payload = wire.com_fetch(p.stmt_id, 2**32 - 1)
        c.start = len(c.t.out)
        if before:
            before()
        c.send(payload)


_sizes = {}


def sizes(proto, decl, width):
    """(bytes before the first row, bytes of one row) of a streaming response, measured on short results."""
    key = (proto, decl, width)
    if key not in _sizes:
        got = []
        for n in (1, 3):
            with Rig(proto, decl if decl == "typed" else "bare", width, "gen", n, lambda s: None) as r:
                r.start(r.c)
                r.w.run()
                got.append(len(r.c.t.out) - r.c.start)
        row = (got[1] - got[0]) // 2
        # the terminator is 11 bytes at most; only used for reporting and for the lag
        _sizes[key] = (max(0, got[0] - row - 16), row)
    return _sizes[key]


def k_stall(case, ctx):
    proto, decl, n = case["p"], case["d"], case["n"]
    head, row = sizes(proto, decl, case["w"])
    if decl in ("nulls", "half"):
        row = 6
    allowed = max(BUFFER // row + 2, ROWS)
    for stop in case["stops"]:
        worst = [0]
        over = []

        def hook(s, rig=None):
            c = box[0].c
            got = max(0, len(c.t.out) - c.start - head) // row if getattr(c, "start", None) is not None else 0
            lag = s.pulled - got
            if lag > worst[0]:
                worst[0] = lag
            if lag > allowed + 1:
                over.append(lag)
                return False
        box = [None]
        with Rig(proto, decl, case["w"], case["src"], n, hook) as r:
            box[0] = r

            def before():
                r.c.t.window = stop
            try:
                r.start(r.c, before)
            finally:
                check(not over, "%s rows pulled beyond what the socket accepted before the stream even started (%s, %s)", over[:1], proto, decl)
            states = []
            for inc in [None] + case["incs"]:
                if inc is not None:
                    r.c.t.open_window(inc)
                r.w.settle(60)
                src = r.sources.get(r.c and 0)
                pulled = src.pulled if src else 0
                check(not over, "stop after %d bytes (+%s): %d rows pulled beyond what the socket accepted (row size %d, %s %s %s)",
                      stop, inc, over[0] if over else 0, row, proto, decl, case["src"])
                check(len(r.c.t.out) - r.c.start <= stop + sum(case["incs"]), "harness: window exceeded")
                if n is None:
                    check(r.c.t.window == 0 or pulled == 0 and decl == "nulls", "stop after %d (+%s): the stream stalls although the socket accepts %s more bytes",
                          stop, inc, r.c.t.window)
                states.append(pulled)
                r.b.ping()
                ctx.transition()
                ctx.state((proto, decl, case["w"], case["src"], n, stop, inc, pulled))
            # the client reads everything: a finite result arrives completely
            if n is not None:
                r.c.t.open_window()
                r.w.settle(60)
                r.c.pos = r.c.start
                kind = {"text": "query", "binary": "execute", "cursor": "fetch"}[proto]
                res = r.c.read(kind, getattr(r, "cols", None))
                check(not res.failed and len(res.rows) == n, "%d of %d rows arrived: %s", len(res.rows), n, res)
                for i, x in enumerate(res.rows):
                    check(int(x[0]) == 1000000 + i, "row %d is %s", i, x)
                r.c.ping()
            ctx.outcome((proto, decl, case["w"], worst[0], tuple(states)))
            ctx.trace()


def k_fetch(case, ctx):
    over = []

    def hook(s):
        if s.pulled > 50000:
            over.append(s.pulled)
            return False
    with Rig("cursor", case["d"], 10, case["src"], None, hook) as r:
        p = r.c.prepare("q")
        e = r.c.execute(p.stmt_id, cursor=True)
        check(e.kind == "cursor", "cursor not opened: %s", e)
        src = r.sources[0]
        check(src.pulled <= ROWS, "%d rows pulled by opening a cursor", src.pulled)
        total = 0
        for k in range(3):
            f = r.c.fetch(p.stmt_id, case["n"], e.cols)
            check(len(f.rows) == case["n"], "fetch of %d returned %d rows", case["n"], len(f.rows))
            total += case["n"]
            check(src.pulled <= total + ROWS and not over, "%d rows pulled after fetching %d", src.pulled, total)
            ctx.transition()
            ctx.state(("fetch", case["n"], case["d"], case["src"], k, src.pulled - total))
        ctx.trace()


SCRIPTS = ["ping", "query", "prepexec", "initdb", "login", "change"]


def steps(rig, script):
    """Client-side generator: yields after sending something; resumed when a complete answer arrived. Ends when served."""
    w, b = rig.w, rig.b
    if script == "login":
        b = w.connect(run=False)
        rig.witness = b
        yield
        h = b.handshake()
        check(isinstance(h, wire.Handshake), "greeting: %s", h)
        b.caps = wire.FULL_CAPS & h.caps & ~wire.CONNECT_WITH_DB
        b.send(wire.handshake_response(b.caps, b"u", b"", None, b"mysql_native_password", None, 255), 1)
        yield
        r = b._auth_reply(2)
        if not isinstance(r, (wire.OK, wire.ERR)):
            b.send(b"", 3)
            yield
            r = b._auth_reply(4)
        check(isinstance(r, wire.OK), "login during a stream: %s", r)
        b.send(wire.COM_PING)
        yield
        check(b.read("ok").kind == "ok", "ping of the new connection")
        return
    rig.witness = b
    for payload in {"ping": [wire.COM_PING] * 3, "query": [wire.com_query("w", b.caps)] * 2, "initdb": [wire.com_init_db(b"db")],
                    "prepexec": [wire.com_prepare("w"), None], "change": [wire.COM_RESET_CONNECTION, wire.COM_DEBUG]}[script]:
        if payload is None:
            payload = wire.com_execute(res.stmt_id, (), b.caps)
        b.send(payload)
        yield
        res = b.read(wire.kind_of(payload))
        check(not res.failed, "witness command answered %s", res)


def k_fair(case, ctx):
    at = case["at"]
    st = dict(gen=None, since=None, done=False, fail=None, worst=0)
    streams = []

    def complete(b):
        """Has the whole answer to the last step arrived? (the server writes an answer without suspending on this transport)"""
        return b.unread() > 0 and not b.t._buffer

    def hook(s):
        if st["fail"] or st["done"]:
            return False
        if s is not streams[0]:
            return None
        if st["gen"] is None:
            if s.pulled < at:
                return None
            st["gen"] = steps(rig, case["script"])
            next(st["gen"])
            st["since"] = s.pulled
            return None
        waited = s.pulled - st["since"]
        if s.pulled % 16 == 0 or waited > FAIR - 20:
            b = rig.witness
            if b.unread():
                st["worst"] = max(st["worst"], waited)
                # let the rest of the answer be written: look again 16 rows later at the earliest
                try:
                    pos = b.pos
                    next(st["gen"])
                    st["since"] = s.pulled
                except StopIteration:
                    st["done"] = True
                    return False
                except wire.ProtocolViolation:
                    if waited > FAIR:
                        raise
                    b.pos = pos
            if waited > FAIR:
                st["fail"] = waited
                return False
        return None

    with Rig(case["p"], case["d"], case["w"], case["src"], None, hook) as rig:
        def nxt(session):
            s = Src(case["src"], case["d"], case["w"], None, hook)
            streams.append(s)
            return s.make()
        rig.w.app.next = nxt
        # the sockets of the streams accept everything; what they take is dropped
        cs = [rig.c]
        if case.get("other"):
            cs.append(rig.w.login())
        for i, c in enumerate(cs):
            rig.proto = case["p"] if i == 0 else case["other"]
            rig.start(c)
            c.t.on_send = lambda n, c=c: c.t.out.clear()
            c.t.out.clear()
        rig.w.run()
        check(st["fail"] is None, "a %s of another connection sent at row %d is not answered after %s rows (%s, %s, %s, width %d)",
              case["script"], at, st["fail"], case["p"], case["d"], case["src"], case["w"])
        if not st["done"]:
            check(streams[0].pulled >= at or case["d"] == "nulls", "the stream ended early at row %d", streams[0].pulled)
            raise AssertionError("witness script did not finish")
        ctx.transition(at)
        ctx.trace()
        ctx.state((case["p"], case["d"], case["src"], case["w"], at, case["script"], case.get("other")))
        ctx.outcome((case["p"], case["d"], case["script"], st["worst"] // 100))
