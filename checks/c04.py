"""C04: packet framing is lossless for every payload size and every stream segmentation."""
import asyncio
import os
import ssl

from harness import wire
from harness.simloop import SimLoop, SimTransport
from harness.world import World, RecBase, TLSClient, Violation, check
from mysql_mimic import ResultColumn
from mysql_mimic.stream import MysqlStream, ConnectionClosed
from mysql_mimic.types import ColumnType

ID = "C04"
LEVEL = "model_checking"
RULE = ("one execution = a client byte stream with one placement of cuts (or chunk size, or socket window schedule, or payload "
        "size) driven through the real server; state = (stream, cuts, delivery mode)")
BOUNDS = {"quick": "all 1- and 2-cut placements of a 17-command conversation (read by read to quiescence; cuts up to 24 apart also as back-to-back reads), all chunk sizes; all 1-cut (and "
                   "2-cut in the SSL request) placements of the TLS upgrade; every initial socket window; payload sizes 0..1100, "
                   "around 2^15/2^16 and k*(2^24-1)+{-1,0,1} for k<=8 (sent) and k<=2 (received), sequence ids wrapping inside a payload",
          "thorough": "all 3-cut placements over the first packets, k<=17, 2-cut TLS"}
ASSUMPTIONS = ["pipelined commands are legal", "the reader's 256 KiB recv() limit of asyncio bounds one read"]
MAXP = wire.MAXP
MEM = 8
GC_EVERY = 20

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLS = {}


def tls_context():
    if "c" not in TLS:
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        d = os.path.join(HERE, "harness", "tls")
        c.load_cert_chain(os.path.join(d, "cert.pem"), os.path.join(d, "key.pem"))
        TLS["c"] = c
    return TLS["c"]


class Sess(RecBase):
    async def handle_query(self, sql, attrs):
        self._rec("query", sql, dict(attrs))
        if sql.startswith("@"):
            n = int(sql.split()[1])
            return [(i, "r%d" % i) for i in range(n)], [ResultColumn("a", ColumnType.LONG),
                                                        ResultColumn("b", ColumnType.VARCHAR)]
        if sql.startswith("SHOW"):
            return [("a", "INT", "NO", "", None, "")], ["Field", "Type", "Null", "Key", "Default", "Extra"]
        return None


CAPS = wire.FULL_CAPS


def stream(quit_=True):
    """Client bytes after authentication."""
    cmds = [wire.com_query("@ 2 \u2665", CAPS, [(b"n", "VARCHAR", False, "v\u2665".encode())]), wire.COM_PING, wire.com_prepare("@ 3 ? ?"),
            wire.com_long_data(0, 5, b"ab"), wire.com_execute(0, [(b"", "VARCHAR", False, b"x\xc3\xa9"), (b"", "LONG", False, 7)], CAPS),
            wire.com_execute(0, [(b"", "LONG", False, 1), (b"", "NULL", False, None)], CAPS, cursor=True), wire.com_fetch(0, 2),
            wire.com_fetch(0, 2), b"", wire.com_init_db(b"d"), wire.com_field_list(b"t"), b"\x1d\x00",
            wire.com_query("none", CAPS), wire.com_reset(0), wire.com_close(0), wire.COM_PING]
    out = b"".join(wire.frame(c, 0) for c in cmds)
    return out + (wire.frame(wire.COM_QUIT, 0) if quit_ else b"")


KINDS = ["query", "ok", "prepare", "execute", "execute", "fetch", "fetch", "ok", "ok", "field_list", "ok", "query", "ok", "ok"]


def hs_response(c, caps=CAPS):
    caps &= c.hs.caps
    c.caps = caps & ~wire.SSL
    return wire.handshake_response(caps, b"u\xe2\x99\xa5", b"", b"db0", b"mysql_native_password", {b"k": b"v" * 9}, 255)


def world(**kw):
    return World(Sess, **kw)


def start(w, window=None):
    c = w.connect()
    c.handshake()
    c.first = c.pos
    c.t.window = window
    return c


def deliver(w, c, data, cuts, mode):
    """mode 'q': quiescence after each read; 's': reads in consecutive loop handles; 'i': one read per loop iteration."""
    pos = 0
    for e in list(cuts) + [len(data)]:
        if e <= pos:
            continue
        if mode == "q":
            c.t.feed(data[pos:e])
            w.run()
        else:
            c.t.feed(data[pos:e])
            w.loop.iteration() if mode == "i" else w.loop.step()
        pos = e
    w.run()


def observe(w, c):
    return bytes(c.t.out[c.first:]), [e for e in w.log], c.t.close_called


_ref = {}


def reference():
    if "r" not in _ref:
        with world() as w:
            c = start(w)
            data = wire.frame(hs_response(c), 1) + stream()
            # lockstep, decoded strictly
            deliver(w, c, data, [], "q")
            _ref["r"] = observe(w, c)
            _ref["data"] = data
    return _ref["r"], _ref["data"]


def k_ref(case, ctx):
    """The reference conversation itself, in lockstep and strictly decoded."""
    with world() as w:
        c = start(w)
        n1 = hs_response(c)
        c.send(n1, 1)
        w.run()
        r = c._auth_reply(2)
        check(isinstance(r, wire.OK), "login: %r", r)
        q = c.cmd
        r = q(wire.com_query("@ 2 \u2665", CAPS, [(b"n", "VARCHAR", False, "v\u2665".encode())]), "query")
        check(r.kind == "rows" and r.rows == [[b"0", b"r0"], [b"1", b"r1"]], "%r", r)
        c.ping()
        check(c.prepare("@ 3 ? ?").kind == "prepare", "prepare")
        c.silent(wire.com_long_data(0, 5, b"ab"))
        r = c.execute(0, [(b"", "VARCHAR", False, b"x\xc3\xa9"), (b"", "LONG", False, 7)])
        check(r.kind == "rows" and len(r.rows) == 3, "%r", r)
        r = c.execute(0, [(b"", "LONG", False, 1), (b"", "NULL", False, None)], cursor=True)
        check(r.kind == "cursor", "%r", r)
        cols = r.cols
        check(len(c.fetch(0, 2, cols).rows) == 2, "fetch")
        check(len(c.fetch(0, 2, cols).rows) == 1, "fetch")
        check(q(b"", "ok").kind == "err", "empty command")
        check(q(wire.com_init_db(b"d")).kind == "ok", "init db")
        r = q(wire.com_field_list(b"t"))
        check(not r.failed, "field list %r", r)
        check(q(b"\x1d\x00", "ok").kind == "err", "unknown command")
        check(q(wire.com_query("none", CAPS), "query").kind == "ok", "query")
        check(q(wire.com_reset(0)).kind == "ok", "reset")
        c.silent(wire.com_close(0))
        c.ping()
        c.send(wire.COM_QUIT)
        w.run()
        check(c.closed, "QUIT")
        got = observe(w, c)
        check(got == reference()[0], "pipelined conversation differs from the lockstep one")
        attrs = [e for e in w.log if e[1] == "query"]
        check(attrs[0][2:] == ("@ 2 \u2665", {"n": "v\u2665"}), "%r", attrs[0])
        check(w.sessions[0].username == "u\u2665", "user %r", w.sessions[0].username)
        ctx.trace()
        ctx.state("ref")
        ctx.outcome("ref")


def compare(w, c, what):
    ref = reference()[0]
    got = observe(w, c)
    check(got[1] == ref[1], "%s: the application sees something else: %r vs %r", what, *_diff(got[1], ref[1]))
    check(got[0] == ref[0], "%s: the client receives %d bytes, expected %d; first difference at %d", what, len(got[0]), len(ref[0]),
          next((i for i, (a, b) in enumerate(zip(got[0], ref[0])) if a != b), min(len(got[0]), len(ref[0]))))
    check(got[2] == ref[2], "%s: connection state", what)


def _diff(a, b):
    for i in range(max(len(a), len(b))):
        x, y = a[i:i + 1], b[i:i + 1]
        if x != y:
            return x, y
    return a[-1:], b[-1:]


def k_cut(case, ctx):
    """All placements with the first cut at case['a'] and the second in [b0, b1)."""
    data = reference()[1]
    for b in range(case["b0"], case["b1"]):
        with world() as w:
            c = start(w)
            cuts = [case["a"], b] + ([case["c"]] if "c" in case else [])
            deliver(w, c, data, sorted(cuts), case["m"])
            compare(w, c, f"cuts {cuts} mode {case['m']}")
            ctx.transition(len(set(cuts)) + 1)
            ctx.trace()
            ctx.state(("cut", case["m"], tuple(cuts)))
    ctx.outcome(("cut", case["m"], case["a"]))


def k_chunks(case, ctx):
    data = reference()[1]
    n = case["n"]
    with world() as w:
        c = start(w)
        deliver(w, c, data, range(case["off"], len(data), n), case["m"])
        compare(w, c, f"chunks of {n} bytes")
        ctx.transition(len(data) // n)
        ctx.trace()
        ctx.state(("chunks", n, case["off"], case["m"]))
        ctx.outcome(("chunks", n, case["m"]))


def k_window(case, ctx):
    """The socket accepts `a` bytes, later `step` more at a time."""
    data = reference()[1]
    with world() as w:
        c = start(w, window=case["a"])
        if case["lim"] is not None:
            c.t.set_write_buffer_limits(case["lim"], case["lim"] // 2)
        deliver(w, c, data, [case["cut"]] if case["cut"] else [], "q")
        for _ in range(5000):
            if c.t.closed or not c.t._buffer:
                break
            c.t.open_window(case["step"])
            w.run()
        c.t.open_window(None)
        w.run()
        compare(w, c, f"socket window {case}")
        ctx.transition(case["a"] // max(case["step"], 1) + 1)
        ctx.trace()
        ctx.state(repr(case))
        ctx.outcome(("window", case["a"], case["lim"]))


# ---- TLS ------------------------------------------------------------------------------
def tls_start(w):
    c = w.connect()
    c.handshake()
    check(c.hs.caps & wire.SSL, "server does not offer TLS")
    c.first = c.pos
    req = wire.frame(wire.ssl_request((CAPS | wire.SSL) & c.hs.caps, 255), 1)
    c.tls = TLSClient(c)
    return c, req


def tls_finish_handshake(w, c):
    for _ in range(10):
        c.tls._raw_in()
        try:
            c.tls.obj.do_handshake()
            c.tls.done = True
        except ssl.SSLWantReadError:
            pass
        d = c.tls.outg.read()
        if c.tls.done:
            return d
        if d:
            c.t.feed(d)
        w.run()
        if c.t.closed:
            break
        if not c.tls._progress():
            break
    raise Violation("TLS handshake does not complete")


def _progress(self):
    return True


TLSClient._progress = _progress


def tls_compare(w, c, what):
    ref = reference()[0]
    c.tls.pull()
    out = bytes(c.tls.plain)
    r = _seq_shift(ref[0])
    check(w.log == ref[1], "%s: the application sees something else: %r vs %r", what, *_diff(w.log, ref[1]))
    check(out == r, "%s: client receives %d bytes, expected %d", what, len(out), len(r))
    check(not w.control.live, "%s: connection left open", what)
    c.eof()
    w.settle(300)
    check(c.t.closed and not w.tasks(), "%s: socket left open", what)


def _seq_shift(out):
    """With TLS the authentication OK has sequence id 3 instead of 2."""
    b = bytearray(out)
    check(b[3] == 2, "reference")
    b[3] = 3
    return bytes(b)


def tls_data(c):
    # the reference handshake response, with the SSL flag
    return wire.frame(wire.handshake_response((CAPS | wire.SSL) & c.hs.caps, b"u\xe2\x99\xa5", b"", b"db0",
                                              b"mysql_native_password", {b"k": b"v" * 9}, 255), 2) + stream()


def k_tls(case, ctx):
    """Cuts in SSLRequest+ClientHello (part 'a') or in Finished+handshake response+commands (part 'b')."""
    for x in range(case["lo"], case["hi"]):
        with world(ssl=tls_context()) as w:
            c, req = tls_start(w)
            flight = req + c.tls.first_flight()
            cuts = [x] + ([case["y"]] if case.get("y") is not None else [])
            if case["part"] == "a":
                deliver(w, c, flight, sorted(cuts), case["m"])
            else:
                deliver(w, c, flight, [len(req)], "q")
            d = tls_finish_handshake(w, c)
            pos = c.t.out  # noqa: F841
            c.pos = 0
            data = tls_data(c)
            n = case.get("rec") or len(data)
            d += b"".join(c.tls.encrypt(data[i:i + n]) for i in range(0, len(data), n))
            if case["part"] == "b":
                deliver(w, c, d, sorted(cuts), case["m"])
            elif case["part"] == "c":
                deliver(w, c, d, range(x + 1, len(d), x + 1), case["m"])
            else:
                deliver(w, c, d, [], "q")
            w.run()
            tls_compare(w, c, f"TLS {case['part']} cuts {cuts}")
            ctx.transition(3)
            ctx.trace()
            ctx.state(("tls", case["part"], tuple(cuts), case["m"], case.get("rec")))
    ctx.outcome(("tls", case["part"], case["lo"], case["m"], case.get("y")))


def k_tlsbytes(case, ctx):
    """The whole TLS conversation in chunks of n bytes."""
    n = case["n"]
    with world(ssl=tls_context()) as w:
        c, req = tls_start(w)
        flight = req + c.tls.first_flight()
        deliver(w, c, flight, range(case["off"], len(flight), n), case["m"])
        d = tls_finish_handshake(w, c)
        c.pos = 0
        d += c.tls.encrypt(tls_data(c))
        deliver(w, c, d, range(n, len(d), n), case["m"])
        tls_compare(w, c, f"TLS chunks of {n}")
        ctx.transition(len(d) // n)
        ctx.trace()
        ctx.state(("tlsbytes", n, case["off"], case["m"]))
        ctx.outcome(("tlsbytes", n))


# ---- payload sizes -------------------------------------------------------------------------
def pattern(n, seed=0):
    base = bytes((i * 7 + seed) % 251 for i in range(251 * 4))
    return (base * (n // len(base) + 1))[:n]


class BigSess(RecBase):
    async def handle_query(self, sql, attrs):
        w = self.world
        w.sql = sql
        return w.result


def row_len(n):
    """Cell length such that the text row payload (lenenc string) has exactly n bytes; None if impossible."""
    for h in (1, 3, 4, 9):
        m = n - h
        if m >= 0 and len(wire.lenenc(m)) == h:
            return m
    return None


def k_server(case, ctx):
    """Rows whose payloads have the given lengths: server -> client."""
    lens = case["lens"]
    with World(BigSess) as w:
        c = w.login(caps=CAPS if case.get("dep", 1) else CAPS & ~wire.DEPRECATE_EOF)
        cells = []
        for i, n in enumerate(lens):
            if case["proto"] == "text":
                m = row_len(n)
            else:
                m = row_len(n - 2) if n >= 2 else None
            if m is None:
                continue
            cells.append(pattern(m, i))
        w.result = ([(x,) for x in cells], [ResultColumn("b", ColumnType.BLOB)])
        if case["proto"] == "text":
            payload = wire.com_query("q", c.caps)
        else:
            r = c.prepare("q")
            payload = wire.com_execute(r.stmt_id, (), c.caps, cursor=case["proto"] == "cursor")
        if case.get("window") is not None:
            c.t.window = case["window"]
        c.send(payload)
        w.run()
        k = 0
        if case["proto"] == "cursor":
            c.t.open_window(1000)
            w.run()
            r = c.read("execute")
            c.send(wire.com_fetch(0, len(cells) + 1))
            w.run()
        while c.t._buffer and k < 100000:
            c.t.open_window(case.get("step") or 65536)
            w.run()
            k += 1
        c.t.open_window(None)
        w.run()
        if case["proto"] == "cursor":
            r = c.read("fetch", r.cols)
        else:
            r = c.read("query" if case["proto"] == "text" else "execute")
        check(not r.failed, "result: %r", r.kind)
        got = [bytes(x[0]) for x in r.rows]
        check(len(got) == len(cells), "%d rows of %d", len(got), len(cells))
        for i, (a, b) in enumerate(zip(got, cells)):
            check(a == b, "row %d of payload length %d is corrupt (got %d bytes, expected %d)", i, lens[i], len(a), len(b))
        w.result = None
        c.ping()
        ctx.transition(len(cells))
        ctx.trace()
        ctx.state(repr(case))
        ctx.outcome((case["proto"], tuple(lens)))


def k_client(case, ctx):
    """A COM_QUERY of exactly n payload bytes: client -> server, cut into chunks."""
    with World(BigSess) as w:
        c = w.login(caps=CAPS & ~wire.QUERY_ATTRIBUTES)
        w.result = None
        ping = wire.frame(wire.COM_PING)
        for n in range(case["lo"], case["hi"], case.get("step", 1)):
            if n < 1:
                continue
            text = bytes(x % 95 + 32 for x in pattern(min(n, 5000), n))
            text = (text * (n // len(text) + 1))[:n - 1]
            w.sql = None
            data = wire.frame(bytes([wire.QUERY]) + text) + ping
            cuts = case.get("cuts", [])
            cuts = [x if x >= 0 else len(data) + x for x in cuts]
            if "chunk" in case:
                cuts = range(case["chunk"], len(data), case["chunk"])
            deliver(w, c, data, cuts, case.get("m", "q"))
            want = text.decode()
            check(w.sql is not None, "query of %d bytes not delivered", n)
            check(len(w.sql) == len(want), "query of %d payload bytes arrives with %d of %d characters", n, len(w.sql), len(want))
            check(w.sql == want, "query of %d bytes corrupted", n)
            pk = c.packets()
            check(len(pk) == 2, "%d responses to a query of %d bytes and a ping", len(pk), n)
            for want, (s, _, p) in zip((n // MAXP + 1, 1), pk):
                check(s == want, "sequence id %d, expected %d", s, want)
                wire.parse_ok(p, c.caps)
            ctx.transition()
            ctx.state(("client", n, tuple(case.get("cuts", ())), case.get("chunk")))
        ctx.trace()
        ctx.outcome(repr(case))


def k_stream(case, ctx):
    """MysqlStream itself: payload sequences written and read back, lossless, with the right sequence ids."""
    loop = SimLoop()
    loop.enter()
    try:
        reader = asyncio.StreamReader(loop=loop)
        proto = asyncio.StreamReaderProtocol(reader, loop=loop)
        t = SimTransport(loop, proto)
        loop.run()
        writer = asyncio.StreamWriter(t, proto, reader, loop)
        bs = case.get("bs")
        s = MysqlStream(reader, writer) if bs is None else MysqlStream(reader, writer, buffer_size=bs)
        want = [pattern(n, i) for i, n in enumerate(case["lens"])]

        async def write():
            for i, p in enumerate(want):
                await s.write(p, drain=bool(case["drain"] >> i & 1))
            await s.drain()
        loop.drive(write())
        out = bytes(t.out)
        seqs, pos = [], 0
        pk, n, ok = wire.split(out)
        check(ok and n == len(out), "stream ends inside a packet")
        check([p for _, _, p in pk] == want, "payload lengths written %r, reassembled %r", case["lens"], [len(p) for _, _, p in pk])
        exp = 0
        for q, k, _ in pk:
            check(q == exp & 255, "sequence id %d, expected %d", q, exp & 255)
            exp += k
        s.reset_seq()
        got = []

        async def read():
            for _ in want:
                got.append(await s.read())
            try:
                got.append(await s.read())
            except ConnectionClosed:
                got.append("closed")
        task = loop.create_task(read())
        ch = case["chunk"] or len(out) + 1
        for i in range(0, len(out), ch):
            t.feed(out[i:i + ch])
            loop.run()
        t.feed_eof()
        loop.run()
        check(task.done(), "read() does not return")
        task.result()
        check(got[:-1] == want and got[-1] == "closed", "payload lengths %r read back as %r", case["lens"],
              [len(x) for x in got])
        ctx.transition(2 * len(want))
        ctx.trace()
        ctx.state(repr(case))
        ctx.outcome(("stream", tuple(case["lens"])))
    finally:
        for x in asyncio.all_tasks(loop):
            x.cancel()
        loop.run()
        loop.leave()
        loop.close()


def cases(tier):
    big = tier == "thorough"
    out = [dict(k="ref")]
    try:
        data = reference()[1]
        n, m = len(data), len(reference()[0][0])
    except Exception:
        return out
    for mode in ("q", "s"):
        for a in range(0, n + 1):
            if mode == "s":
                out.append(dict(k="cut", a=a, b0=a, b1=min(n + 1, a + 24), m=mode))
                continue
            for lo in range(a, n + 1, 100):
                out.append(dict(k="cut", a=a, b0=lo, b1=min(n + 1, lo + 100), m=mode))
    for mode in ("q", "s", "i"):
        for ch in range(1, n + 1):
            for off in ((ch,) if ch > 12 else range(1, ch + 1)):
                out.append(dict(k="chunks", n=ch, off=off, m=mode))
    for a in range(0, m + 1):
        for lim, step in ((None, 1), (0, 1), (0, 7), (16, 64), (None, 10 ** 6)):
            out.append(dict(k="window", a=a, lim=lim, step=step, cut=0))
        out.append(dict(k="window", a=a, lim=0, step=3, cut=n // 2))
    if big:
        hs = n - len(stream())
        for a in range(hs - 8, hs + 40):
            for c in range(a, hs + 60):
                out.append(dict(k="cut", a=a, c=c, b0=a, b1=c + 1, m="q"))
                out.append(dict(k="cut", a=a, c=c, b0=a, b1=c + 1, m="s"))
        for a in range(0, 60):
            for c in range(a, 80):
                out.append(dict(k="cut", a=a, c=c, b0=a, b1=c + 1, m="q"))
    # TLS
    for mode in ("q", "s", "i"):
        for lo in range(0, 640, 10):
            out.append(dict(k="tls", part="a", lo=lo, hi=lo + 10, m=mode))
        for lo in range(0, 900, 10):
            out.append(dict(k="tls", part="b", lo=lo, hi=lo + 10, m=mode))
        for rec in (1, 3, 4, 5, 40):
            out.append(dict(k="tls", part="c", lo=0, hi=6, m=mode, rec=rec))
            out.append(dict(k="tls", part="b", lo=0, hi=3, m=mode, rec=rec))
    for y in (range(0, 48) if not big else range(0, 600)):
        for lo in range(y, 640, 100 if big else 60):
            out.append(dict(k="tls", part="a", lo=lo, hi=lo + (100 if big else 20), y=y, m="q"))
            if y < 48:
                out.append(dict(k="tls", part="a", lo=lo, hi=lo + 20, y=y, m="s"))
    for mode in ("q", "s"):
        for ch in list(range(1, 70)) + [100, 200, 300, 516, 517, 518, 553, 554]:
            out.append(dict(k="tlsbytes", n=ch, off=ch, m=mode))
            out.append(dict(k="tlsbytes", n=ch, off=36, m=mode))
    # sizes
    for proto in ("text", "binary", "cursor"):
        for lo in range(1, 1100, 50):
            out.append(dict(k="server", proto=proto, lens=list(range(lo, lo + 50))))
        for n0 in (2 ** 15, 2 ** 16):
            for d in range(-24, 25):
                out.append(dict(k="server", proto=proto, lens=[n0 + d]))
                out.append(dict(k="server", proto=proto, lens=[n0 + d, 5, n0 + d, 1], dep=0))
                out.append(dict(k="server", proto=proto, lens=[10, n0 + d - 14, 3, n0 + d], window=1000, step=5000))
        for d in range(-24, 25):      # several rows fill the send buffer exactly
            out.append(dict(k="server", proto=proto, lens=[2 ** 14, 2 ** 14 + d, 9, 9]))
            out.append(dict(k="server", proto=proto, lens=[2 ** 13 + d] * 9, window=0, step=1 << 14))
        for k in range(1, 5 if big else 3):
            for d in (-2, -1, 0, 1):
                out.append(dict(k="server", proto=proto, lens=[k * MAXP + d, 7]))
            out.append(dict(k="server", proto=proto, lens=[20, k * MAXP, 7], window=65536, step=1 << 22))
        for k in ((3, 4, 5, 8) if proto == "text" else (3,)):
            for d in ((-1, 0, 1) if k < 6 else (0,)):
                out.append(dict(k="server", proto=proto, lens=[k * MAXP + d, 7]))
        for d in range(1, 6):        # sequence ids wrap inside a payload
            out.append(dict(k="server", proto=proto, lens=[9] * (253 - d) + [2 * MAXP + d, 9]))
        if big and proto == "text":
            out.append(dict(k="server", proto=proto, lens=[17 * MAXP + 1, 7]))
        out.append(dict(k="server", proto=proto, lens=[3, MAXP + 3, MAXP, 3, MAXP - 1, 2]))
        out.append(dict(k="server", proto=proto, lens=[9] * 700))
    for lo in range(1, 1100, 100):
        for chunk in (None, 1, 4, 5, 7, 64):
            out.append(dict(k="client", lo=lo, hi=lo + 100, **({} if chunk is None else {"chunk": chunk})))
    for n0 in (2 ** 15, 2 ** 16, 2 ** 17, 2 ** 18):
        for chunk in (None, 1000, 4096, 65536):
            out.append(dict(k="client", lo=n0 - 6, hi=n0 + 7, **({} if chunk is None else {"chunk": chunk})))
    for k in range(1, 5 if big else 3):
        for d in (-2, -1, 0, 1, 2):
            n0 = k * MAXP + d
            out.append(dict(k="client", lo=n0, hi=n0 + 1))
            for cut in (1, 2, 3, 4, 5, MAXP + 3, MAXP + 4, MAXP + 5, MAXP + 6, MAXP + 7, MAXP + 8, MAXP + 9, -1, -2, -4, -5, -6, -8, -9):
                if cut < n0:
                    out.append(dict(k="client", lo=n0, hi=n0 + 1, cuts=[cut], m="q"))
        out.append(dict(k="client", lo=k * MAXP, hi=k * MAXP + 1, chunk=300001))
    for k in (3, 4, 5, 8, 17) if big else (3, 4, 5, 8):
        for d in (-1, 0, 1) if k < 6 else (0,):
            n0 = k * MAXP + d
            out.append(dict(k="client", lo=n0, hi=n0 + 1))
            out.append(dict(k="client", lo=n0, hi=n0 + 1, cuts=[(k - 1) * (MAXP + 4) + 2, n0 + 4 * k], m="q"))
    sizes = [0, 1, 2, 3, 4, 5, 8, 12]
    for bs in (1, 4, 5, 8, 9, 16, None):
        for a in sizes:
            for b in sizes:
                for c in (0, 1, 5):
                    for dr in range(8):
                        out.append(dict(k="stream", lens=[a, b, c], drain=dr, bs=bs, chunk=[0, 1, 3, 4, 5][(a + b + dr) % 5]))
    for lens in ([MAXP - 1], [MAXP], [MAXP + 1], [MAXP, 0, MAXP, 1], [0, MAXP, 0], [2 * MAXP, 5], [2 * MAXP + 1, 0], [2 * MAXP - 1]):
        for dr in (0, 255):
            for chunk in (0, 1 << 20, MAXP, MAXP + 4, MAXP + 5):
                out.append(dict(k="stream", lens=lens, drain=dr, bs=None, chunk=chunk))
    out.append(dict(k="stream", lens=[1] * 600, drain=0, bs=None, chunk=0))
    out.append(dict(k="stream", lens=[1] * 254 + [MAXP, MAXP, 3, 3], drain=0, bs=None, chunk=0))
    # heavy cases first for balance
    out.sort(key=lambda x: -(max(x.get("lens", [0])) > 10 ** 6 or x.get("lo", 0) > 10 ** 6))
    return out


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)
    if case["k"] in ("cut", "tls", "server"):
        ctx.sample(case)
