"""C11: server-side cursors deliver every row exactly once, in order."""
import itertools

from harness import wire
from harness.world import World, RecBase, App, Violation, check
from mysql_mimic import ResultColumn, ResultSet
from mysql_mimic.constants import KillKind
from mysql_mimic.errors import MysqlError
from mysql_mimic.types import ColumnType

ID = "C11"
LEVEL = "model_checking"
RULE = ("one execution = row source x result length x sequence of fetch sizes (or program of execute/fetch/reset/close "
        "over several statements); state = (source, N, rows delivered, sequence so far)")
BOUNDS = {"quick": "all fetch-size sequences for N<=6 (sizes 0..N+1) on 5 sources, N<=8 on one; all 4-step programs over 3 "
                   "statements; boundary sizes up to 2^32-1 for N up to 70001; up to 1025 open cursors at once",
          "thorough": "N<=8 on all sources; all 5-step programs, 6-step over a reduced alphabet; up to 70000 open cursors"}
ASSUMPTIONS = ["a fetch that asks for exactly the remaining rows may or may not be flagged",
               "after the flagged end a further fetch may be ERR or empty"]


def val(i, tag=0):
    return (i, f"{tag}:{i}" if i % 4 != 3 else None)


TCOLS = [ResultColumn("a", ColumnType.LONG), ResultColumn("b", ColumnType.VARCHAR)]


class AIter:
    def __init__(self, rows):
        self.it = iter(rows)

    def __aiter__(self):
        return self

    async def __anext__(self):
        try:
            return next(self.it)
        except StopIteration:
            raise StopAsyncIteration from None


def source(w, kind, n, tag=0, width=0):
    rows = [val(i, tag) for i in range(n)]
    if width:
        rows = [(i, "x" * width) for i in range(n)]
    cols = TCOLS

    def gen():
        yield from rows

    async def agen():
        for r in rows:
            yield r

    async def susp():
        import asyncio
        for r in rows:
            await asyncio.sleep(0)
            yield r
            await asyncio.sleep(0)

    async def slow():
        import asyncio
        for r in rows:
            await asyncio.sleep(1000)
            yield r
        await asyncio.sleep(1000)

    async def gated():
        for i, r in enumerate(rows):
            await w.gate("row")
            yield r

    def fail():
        yield from rows[:2]
        raise MysqlError("row source failed")

    async def afail():
        for r in rows[:2]:
            yield r
        raise ValueError("row source failed")
    return {"list": lambda: (list(rows), cols), "names": lambda: (list(rows), ["a", "b"]), "gen": lambda: (gen(), cols),
            "agen": lambda: (agen(), cols), "anames": lambda: (agen(), ["a", "b"]), "susp": lambda: (susp(), cols), "slow": lambda: (slow(), cols),
            "iter": lambda: (AIter(rows), cols), "rs": lambda: ResultSet(rows=gen(), columns=cols),
            "gated": lambda: (gated(), cols), "fail": lambda: (fail(), cols), "afail": lambda: (afail(), cols)}[kind]()


class Sess(RecBase):
    async def handle_query(self, sql, attrs):
        w = sql.split()
        if w[0] != "@":
            return None
        return source(self.world, w[1], int(w[2]), w[3] if len(w) > 3 else 0, int(w[4]) if len(w) > 4 else 0)


SOURCES = ["list", "names", "gen", "agen", "anames", "susp", "iter", "rs", "slow"]


def sequences(n, zeros):
    """All fetch-size sequences until exhaustion is flagged for sure (a fetch that cannot be filled)."""
    out = []

    def rec(seq, d, z):
        for k in range(0 if z else 1, n + 2):
            s = seq + [k]
            if k > n - d:
                out.append(s)
            else:
                rec(s, d + k, z - (k == 0))
    rec([], 0, zeros)
    return out


OPS = ["E0", "E1", "E2", "X0", "f0.1", "f0.2", "f0.9", "f1.1", "f1.2", "f1.9", "f2.1", "f2.9", "R0", "R1", "C0", "L0"]
OPS5 = ["E0", "E1", "X0", "f0.1", "f0.2", "f0.9", "f1.1", "f1.9", "R0", "C0"]


def cases(tier):
    out = []
    big = 8
    for src in SOURCES:
        for n in range(0, (big if src in ("gen",) or tier == "thorough" else 6) + 1):
            for dep in (True, False):
                seqs = sequences(n, 1 if n <= 4 else 0)
                for lo in range(0, len(seqs), 40):
                    out.append(dict(k="seq", src=src, n=n, dep=dep, lo=lo, hi=min(lo + 40, len(seqs))))
    for src in (("fail", "list", "agen"), ("list", "afail", "names"), ("slow", "susp", "fail")):
        for p in itertools.product(OPS, repeat=4 if tier == "thorough" else 3):
            out.append(dict(k="prog", src=src, dep=True, prog=["E0", "E1"] + list(p)))
    for p in itertools.product(OPS, repeat=4):
        out.append(dict(k="prog", src=("gen", "agen", "fail"), dep=False, prog=list(p)))
    if tier == "thorough":
        for p in itertools.product(OPS5, repeat=6):
            out.append(dict(k="prog", src=("gen", "list", "fail"), dep=True, prog=["E0"] + list(p)))
    for n in (0, 1, 99, 1000, 3000, 9999, 10000, 10001, 20001):
        for size in (7, 100, 999, 1000, 1001, 4096, 9999, 10000, 10001, 20000, 20001, 20002, 2**16, 2**24, 2**31 - 1, 2**31, 2**32 - 1):
            if n / size > 500:
                continue
            for src in ("gen", "agen", "names"):
                out.append(dict(k="big", src=src, n=n, sizes=[size]))
    for n in (70001,) + ((300000,) if tier == "thorough" else ()):
        for size in (32768, 65535, 65536, 70000, 70001, 2**31 - 1):
            out.append(dict(k="big", src="gen", n=n, sizes=[size]))
    for n, width in ((50, 1000), (400, 100), (40, 33000), (3, 70000), (300, 300)):
        for size in (1, 2, 3, 7, 31, 32, 33, 299, 300, 10**6):
            out.append(dict(k="big", src="gen", n=n, sizes=[size], width=width))
    for sizes in ([1, 9998, 1, 1, 20000], [5000, 5000, 5000, 5000, 5000], [10000, 1, 9999, 5], [1, 2, 3, 4, 5, 6, 9000]):
        for src in ("gen", "agen", "susp"):
            out.append(dict(k="big", src=src, n=15000 if src != "susp" else 200, sizes=sizes))
    for n in (9, 17, 33, 65, 129, 257, 300, 1025) + ((4097, 17000, 70000) if tier == "thorough" else ()):
        for early in (True, False):
            for back in (True, False):
                if n < 5000 or early == back:
                    out.append(dict(k="many", n=n, early=early, back=back, dep=back))
    # kills and failures during a fetch
    for n in range(1, 5):
        for size in range(1, n + 2):
            for before in range(0, n):
                for at in range(1, size + 1):
                    out.append(dict(k="kill", n=n, size=size, before=before, at=at))
    return out


def run_case(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


def login(w, dep=True):
    caps = wire.FULL_CAPS if dep else wire.FULL_CAPS & ~wire.DEPRECATE_EOF
    w.patient = True
    return w.login(caps=caps)


class Model:
    """One statement: cursor state as the property defines it."""

    def __init__(self, c, src, n, tag, width=0):
        self.c, self.src, self.n, self.tag, self.width = c, src, n, tag, width
        r = c.prepare(f"@ {src} {n} {tag} {width}")
        check(r.kind == "prepare", "prepare: %r", r)
        self.id = r.stmt_id
        self.cols = None       # set while a cursor is open
        self.d = 0             # rows delivered
        self.end = False       # exhaustion has been flagged
        self.dead = False
        self.closed = False

    def execute(self, cursor=True):
        r = self.c.execute(self.id, cursor=cursor)
        if self.closed:
            check(r.kind == "err", "execute of a closed statement: %r", r)
            return
        self.cols, self.d, self.end, self.dead = None, 0, False, False
        if cursor:
            check(r.kind == "cursor" and len(r.cols) == 2, "execute with cursor: %r", r)
            self.cols = r.cols
        elif "fail" not in self.src:
            check(r.kind == "rows" and not r.failed, "execute: %r", r)
            self.compare(r.rows, 0)
            check(len(r.rows) == self.n, "execute returned %d of %d rows", len(r.rows), self.n)
        else:
            check(r.failed, "execute: %r", r)

    def compare(self, rows, start):
        for i, r in enumerate(rows):
            a, b = val(start + i, self.tag)
            if self.width:
                b = "x" * self.width
            check(r == [a, b.encode() if b is not None else None], "row %d is %r", start + i, r)

    def reset(self):
        r = self.c.cmd(wire.com_reset(self.id))
        if self.closed:
            check(r.kind == "err", "reset of a closed statement: %r", r)
            return
        check(r.kind == "ok", "reset: %r", r)
        self.cols = None

    def close(self):
        self.c.silent(wire.com_close(self.id))
        self.closed = True
        self.cols = None

    def fetch(self, k):
        r = self.c.fetch(self.id, k, self.cols or [])
        if self.closed or self.cols is None:
            check(r.kind == "err" and not r.rows, "fetch(%d) without an open cursor: %r", k, r)
            return r
        if "fail" in self.src:
            return self.fetch_failing(k, r)
        left = self.n - self.d
        if self.end:
            if r.kind == "err":
                return r
            check(not r.rows, "fetch(%d) after the end: %r", k, r)
            check(r.failed or k == 0 or r.term.status & wire.ST_LAST_ROW_SENT, "fetch after the end not flagged: %r", r)
            return r
        if left == 0 and r.kind == "err":      # everything delivered, server may have dropped the cursor
            check(False, "fetch(%d) failed although the end was never flagged: %r", k, r)
        check(r.kind == "fetch" and not r.failed, "fetch(%d): %r", k, r)
        check(len(r.rows) == min(k, left), "fetch(%d) with %d rows left returned %d rows", k, left, len(r.rows))
        self.compare(r.rows, self.d)
        self.d += len(r.rows)
        flag = bool(r.term.status & wire.ST_LAST_ROW_SENT)
        if k > left:
            check(flag, "exhaustion not flagged by fetch(%d) with %d rows left: %r", k, left, r.term)
        elif k < left:
            check(not flag, "exhaustion flagged by fetch(%d) although %d rows remain", k, left - k)
        self.end = self.end or flag
        return r

    def fetch_failing(self, k, r):
        good = min(2, self.n)
        check(self.d + len(r.rows) <= good, "fetch of a failing source: %r", r)
        if not r.rows or True:
            self.compare(r.rows, self.d)
        self.d += len(r.rows)
        if self.dead:
            check(r.failed and not r.rows, "fetch(%d) after the row source failed: %r", k, r)
            return r
        if r.failed:
            check(self.d + k > good or True, "")
            self.dead = True
            return r
        check(len(r.rows) == k, "unfilled fetch(%d) from a failing source reported success: %r", k, r)
        check(not r.term.status & wire.ST_LAST_ROW_SENT or k == 0, "failing source flagged exhausted: %r", r)
        return r


def k_seq(case, ctx):
    seqs = sequences(case["n"], 1 if case["n"] <= 4 else 0)[case["lo"]:case["hi"]]
    with World(Sess) as w:
        c = login(w, case["dep"])
        m = Model(c, case["src"], case["n"], 7)
        for seq in seqs:
            m.execute()
            for i, k in enumerate(seq):
                m.fetch(k)
                ctx.transition()
                ctx.state((case["src"], case["n"], case["dep"], tuple(seq[:i + 1])))
            check(m.end and m.d == case["n"], "sequence %r ended with %d of %d rows", seq, m.d, case["n"])
            m.fetch(1)
            m.fetch(5)
            ctx.trace()
            ctx.outcome((case["src"], case["n"], tuple(seq)))
        c.ping()
        if case["n"] == 3:
            ctx.sample(dict(case=case, sequence=seqs[-1]), cap=1)


def k_prog(case, ctx):
    with World(Sess) as w:
        c = login(w, case["dep"])
        ms = [Model(c, s, n, t) for s, n, t in zip(case["src"], (3, 2, 4), "pqr")]
        for i, op in enumerate(case["prog"]):
            m = ms[int(op[1])]
            if op[0] == "E":
                m.execute()
            elif op[0] == "X":
                m.execute(False)
            elif op[0] == "R":
                m.reset()
            elif op[0] == "C":
                m.close()
            elif op[0] == "L":
                c.silent(wire.com_long_data(m.id, 0, b"x"))
            else:
                m.fetch(int(op.split(".")[1]))
            ctx.transition()
            ctx.state((case["src"], tuple((x.cols is None, x.d, x.end, x.dead, x.closed) for x in ms),
                       tuple(case["prog"][:i + 1])))
        # drain what is still open: rows must be complete
        for m in ms:
            if m.cols is not None and not m.end and not m.dead and not m.closed:
                m.fetch(100)
                if "fail" not in m.src:
                    check(m.d == m.n, "cursor delivered %d of %d rows", m.d, m.n)
        r = c.fetch(0x7FFFFFFF, 1, [])
        check(r.kind == "err", "fetch from an unknown statement: %r", r)
        c.ping()
        ctx.trace()
        ctx.outcome(tuple(case["prog"]))


def k_big(case, ctx):
    with World(Sess) as w:
        c = login(w)
        m = Model(c, case["src"], case["n"], 7, case.get("width", 0))
        m.execute()
        for i in itertools.count():
            k = case["sizes"][min(i, len(case["sizes"]) - 1)]
            c.send(wire.com_fetch(m.id, k))
            w.settle(1000)
            r = c.read("fetch", m.cols)
            c.send = lambda *a: None      # hand the decoded response to the model
            c.read = lambda *a: r
            c.unread = lambda: 0
            m.fetch(k)
            del c.send, c.read, c.unread
            ctx.transition()
            if m.end:
                break
        check(m.d == case["n"], "%d of %d rows", m.d, case["n"])
        ctx.trace()
        ctx.state(repr(case))
        ctx.outcome(repr(case))


def k_many(case, ctx):
    """Many statements, each with its own open cursor, used round robin."""
    with World(Sess) as w:
        c = login(w, case["dep"])
        ms = []
        for i in range(case["n"]):
            m = Model(c, SOURCES[i % len(SOURCES)], 3, i)
            ms.append(m)
            if case["early"]:
                m.execute()
        if not case["early"]:
            for m in ms:
                m.execute()
        order = ms if not case["back"] else ms[::-1]
        for k in (1, 1, 5):
            for m in order:
                m.fetch(k)
                ctx.transition()
        check(all(m.end for m in ms), "the end of a cursor wasn't flagged")
        for m in order[::2]:
            m.close()
        for m in order[1::2][-5:]:
            m.execute()
            m.fetch(9)
        ctx.trace()
        ctx.state(repr(case))
        ctx.outcome(repr(case))


def k_kill(case, ctx):
    """KILL QUERY while a fetch waits for its row source: no row may be skipped silently afterwards."""
    with World(Sess) as w:
        c = login(w)
        m = Model(c, "gated", case["n"], 7)
        m.execute()

        def feed(n):
            for _ in range(n):
                w.release("row")
                w.run()
        got = 0
        for _ in range(case["before"]):
            c.send(wire.com_fetch(m.id, 1))
            w.run()
            feed(1)
            r = c.read("fetch", m.cols)
            m.compare(r.rows, got)
            got += len(r.rows)
        c.send(wire.com_fetch(m.id, case["size"]))
        w.run()
        feed(case["at"] - 1)
        w.loop.drive(w.control.kill(c.hs.connection_id, KillKind.QUERY))
        w.run()
        r = c.read("fetch", m.cols)
        if r.failed:
            m.compare(r.rows, got)
            got += len(r.rows)
        else:
            m.compare(r.rows, got)
            got += len(r.rows)
        check(not c.closed, "connection closed")
        ended = not r.failed and bool(r.term.status & wire.ST_LAST_ROW_SENT)
        for _ in range(case["n"] + 2):
            c.send(wire.com_fetch(m.id, 2))
            w.run()
            feed(2)
            r = c.read("fetch", m.cols)
            if r.failed:
                break
            m.compare(r.rows, got)
            got += len(r.rows)
            if r.term.status & wire.ST_LAST_ROW_SENT or ended:
                check(got == case["n"], "exhaustion flagged after %d of %d rows", got, case["n"])
                break
        c.ping()
        m.execute()
        ctx.transition(case["before"] + 2)
        ctx.trace()
        ctx.state(repr(case))
        ctx.outcome((repr(case), got))
