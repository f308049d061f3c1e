"""Deterministic asyncio event loop, virtual time and simulated sockets.

The loop is CPython's BaseEventLoop (so tasks, futures, streams, sslproto are
the real ones); only the selector, the clock and the sockets are replaced.
`SimTransport` follows asyncio.selector_events._SelectorSocketTransport of
CPython 3.12 statement by statement where it is observable: the write path keeps
a memoryview of what the kernel did not take, the protocol is paused above the
high-water mark, closing with a non-empty buffer defers connection_lost, a
failed send schedules connection_lost(exc), and so on.
"""
import asyncio
import collections
import heapq
import sys
from asyncio import events, base_events, protocols, constants

HIGH_WATER = 64 * 1024
MAX_READ = 256 * 1024


class Hang(KeyboardInterrupt):
    """Raised into code under test that does not return (propagates through asyncio)."""


class SimServer(events.AbstractServer):
    def __init__(self, loop, factory):
        self.loop, self.factory, self.closed = loop, factory, False
        self.sockets = ()

    def close(self):
        self.closed = True

    def is_serving(self):
        return not self.closed

    async def wait_closed(self):
        return None

    async def serve_forever(self):
        await self.loop.create_future()


class SimLoop(base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._now = 1000.0
        self.servers = []
        self.errors = []  # contexts passed to the exception handler
        self.handles_run = 0
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))
        self.set_debug(False)
        self._on = False

    # -- replaced infrastructure ------------------------------------------
    def time(self):
        return self._now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    async def create_server(self, protocol_factory, host=None, port=None, **kw):
        s = SimServer(self, protocol_factory)
        self.servers.append(s)
        return s

    async def create_unix_server(self, protocol_factory, path=None, **kw):
        return await self.create_server(protocol_factory)

    # -- stepping ------------------------------------------------------------
    def enter(self):
        self._old_hooks = sys.get_asyncgen_hooks()
        sys.set_asyncgen_hooks(
            firstiter=self._asyncgen_firstiter_hook,
            finalizer=self._asyncgen_finalizer_hook,
        )
        events._set_running_loop(self)
        import threading
        self._thread_id = threading.get_ident()
        self._on = True

    def leave(self):
        if self._on:
            events._set_running_loop(None)
            sys.set_asyncgen_hooks(*self._old_hooks)
            self._thread_id = None
            self._on = False

    def step(self):
        """Run one ready handle. Returns False if nothing was ready."""
        ready = self._ready
        while ready:
            h = ready.popleft()
            if h._cancelled:
                continue
            self.handles_run += 1
            h._run()
            return True
        return False

    def iteration(self):
        """One event-loop iteration: run the handles that are ready now."""
        n = len(self._ready)
        ran = False
        for _ in range(n):
            if not self._ready:
                break
            h = self._ready.popleft()
            if h._cancelled:
                continue
            self.handles_run += 1
            ran = True
            h._run()
        return ran

    def ready(self):
        return any(not h._cancelled for h in self._ready)

    def run(self, limit=2_000_000):
        """Run until quiescent (virtual time does not move)."""
        n = 0
        while self.iteration():
            n += 1
            if n > limit:
                raise Hang("event loop does not become quiescent")
        return n

    def fire_timers(self, until=None):
        """Advance virtual time to the next timer (or to `until`); True if one fired."""
        sch = self._scheduled
        while sch and sch[0]._cancelled:
            h = heapq.heappop(sch)
            h._scheduled = False
        if not sch:
            return False
        if until is not None and sch[0]._when > until:
            self._now = max(self._now, until)
            return False
        self._now = max(self._now, sch[0]._when)
        while sch and sch[0]._when <= self._now:
            h = heapq.heappop(sch)
            h._scheduled = False
            if not h._cancelled:
                self._ready.append(h)
        return True

    def advance(self, seconds):
        until = self._now + seconds
        self.run()
        while self.fire_timers(until):
            self.run()
        self._now = max(self._now, until)

    def drive(self, coro):
        """Run a coroutine to completion (helper for set-up code)."""
        t = self.create_task(coro)
        while not t.done():
            if not self.iteration() and not t.done():
                if not self.fire_timers():
                    raise RuntimeError("drive: deadlock")
        return t.result()


class SimSocket:
    def getsockname(self):
        return ("sim", 3306)

    def getpeername(self):
        return ("peer", 1)

    def fileno(self):
        return -1

    def setsockopt(self, *a):
        pass

    family = 2
    type = 1
    proto = 6


class SimTransport(asyncio.Transport):
    """Server side of one simulated TCP connection."""

    _start_tls_compatible = True

    def __init__(self, loop, protocol, window=None):
        super().__init__({"peername": ("peer", 1), "sockname": ("sim", 3306),
                          "socket": SimSocket()})
        self._loop = loop
        self._protocol = protocol
        self._buffer = collections.deque()
        self._high, self._low = HIGH_WATER, HIGH_WATER // 4
        self._protocol_paused = False
        self._closing = False
        self._conn_lost = 0
        self._eof = False
        self._paused = False
        self._reading = False
        self._lost_called = False
        # environment side
        self.out = bytearray()        # bytes the peer's kernel accepted
        self.window = window          # bytes the kernel will still take (None = unlimited)
        self.inbox = bytearray()      # bytes sent by the peer, not yet read by the server
        self.in_eof = False           # peer sent FIN (after inbox)
        self.in_eof_delivered = False
        self.in_reset = None          # peer reset: exception instance
        self.sends = 0                # number of send() calls on the socket
        self.fail_send = None         # fail the n-th send (0-based) and later ones
        self.fail_exc = None
        self.closed = False           # socket closed (connection_lost delivered)
        self.close_called = False
        self.on_send = None           # callback(nbytes) for instrumentation
        self.read_sizes = None        # optional iterator of max sizes for each recv
        loop.call_soon(self._start)

    def _start(self):
        self._protocol.connection_made(self)
        self._loop.call_soon(self._begin_reading)

    def _begin_reading(self):
        if self._closing or self._conn_lost:
            return
        self._reading = True
        self._pump()

    # ---- read side --------------------------------------------------------
    def _pump(self):
        """Schedule a read-ready callback if data waits (one per loop iteration)."""
        if self._pump_needed() and not getattr(self, "_pump_pending", False):
            self._pump_pending = True
            self._loop.call_soon(self._read_ready)

    def _pump_needed(self):
        return (self._reading and not self._paused and not self._closing
                and not self._conn_lost
                and (self.inbox or self.in_reset
                     or (self.in_eof and not self.in_eof_delivered)))

    def _read_ready(self):
        self._pump_pending = False
        if not self._pump_needed():
            return
        if self.inbox:
            n = MAX_READ
            try:
                if isinstance(self._protocol, protocols.BufferedProtocol):
                    buf = self._protocol.get_buffer(-1)
                    n = min(len(buf), n)
                    data = bytes(self.inbox[:n])
                    del self.inbox[:n]
                    buf[: len(data)] = data
                    self._protocol.buffer_updated(len(data))
                else:
                    data = bytes(self.inbox[:n])
                    del self.inbox[:n]
                    self._protocol.data_received(data)
            except (SystemExit, KeyboardInterrupt):
                raise
            except BaseException as exc:
                self._fatal_error(exc)
                return
        elif self.in_reset:
            self._force_close(self.in_reset)
            return
        elif self.in_eof:
            self.in_eof_delivered = True
            keep_open = self._protocol.eof_received()
            if keep_open:
                self._reading = False
            else:
                self.close()
            return
        self._pump()

    def feed(self, data):
        """Peer sends bytes; they become readable as one unit."""
        self.inbox += data
        self._pump()

    def feed_now(self, data):
        """Deliver bytes in exactly one read, right now (between loop handles)."""
        assert not self.inbox
        self.inbox += data
        if self._pump_needed():
            self._read_ready()

    def feed_eof(self):
        self.in_eof = True
        self._pump()

    def feed_reset(self):
        self.in_reset = ConnectionResetError(104, "Connection reset by peer")
        self.inbox.clear()
        # later writes fail too
        self.fail_send = 0
        if self._buffer:
            self._loop.call_soon(self._write_ready)
        self._pump()

    def is_reading(self):
        return not self.is_closing() and not self._paused

    def pause_reading(self):
        if not self.is_reading():
            return
        self._paused = True

    def resume_reading(self):
        if self._closing or not self._paused:
            return
        self._paused = False
        if self._conn_lost == 0 and self.in_eof_delivered and not self._reading:
            # resume_reading re-registers the reader, so the EOF is reported again
            self.in_eof_delivered = False
            self._reading = True
        self._pump()

    # ---- write side -------------------------------------------------------
    def _send(self, data):
        """socket.send(): returns accepted byte count or raises."""
        n = self.sends
        self.sends += 1
        if self.fail_send is not None and n >= self.fail_send:
            raise self.fail_exc or BrokenPipeError(32, "Broken pipe")
        if self.window is None:
            take = len(data)
        else:
            take = min(len(data), self.window)
            if take == 0:
                raise BlockingIOError()
            self.window -= take
        self.out += data[:take]
        if self.on_send:
            self.on_send(take)
        return take

    def write(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError(f"data argument must be a bytes-like object, not {type(data).__name__!r}")
        if self._eof:
            raise RuntimeError("Cannot call write() after write_eof()")
        if not data:
            return
        if self._conn_lost:
            self._conn_lost += 1
            return
        if not self._buffer:
            try:
                n = self._send(data)
            except (BlockingIOError, InterruptedError):
                n = 0
            except BaseException as exc:
                self._fatal_error(exc)
                return
            data = memoryview(data)[n:]
            if not data:
                return
        # As CPython 3.12 does: what the kernel did not take is kept by reference (the
        # caller's object itself when nothing was taken, a memoryview of it otherwise).
        self._buffer.append(data)
        self._maybe_pause_protocol()

    def writelines(self, list_of_data):
        for d in list_of_data:
            self.write(d)

    def open_window(self, n=None):
        """The peer reads n bytes (None: everything from now on)."""
        if n is None:
            self.window = None
        elif self.window is not None:
            self.window += n
        if self._buffer:
            self._loop.call_soon(self._write_ready)

    def _write_ready(self):
        if self._conn_lost:
            return
        if self._buffer:
            try:
                nbytes = self._send(b"".join(self._buffer))  # one sendmsg()
            except (BlockingIOError, InterruptedError):
                return
            except BaseException as exc:
                self._buffer.clear()
                self._fatal_error(exc)
                return
            while nbytes or (self._buffer and not len(self._buffer[0])):
                b = self._buffer.popleft()
                if len(b) <= nbytes:
                    nbytes -= len(b)
                else:
                    self._buffer.appendleft(memoryview(b)[nbytes:])
                    break
        self._maybe_resume_protocol()
        if not self._buffer and self._closing:
            self._call_connection_lost(None)

    def get_write_buffer_size(self):
        return sum(map(len, self._buffer))

    def get_write_buffer_limits(self):
        return (self._low, self._high)

    def set_write_buffer_limits(self, high=None, low=None):
        if high is None:
            high = HIGH_WATER if low is None else 4 * low
        if low is None:
            low = high // 4
        self._high, self._low = high, low
        self._maybe_pause_protocol()

    def _maybe_pause_protocol(self):
        if self.get_write_buffer_size() <= self._high:
            return
        if not self._protocol_paused:
            self._protocol_paused = True
            self._protocol.pause_writing()

    def _maybe_resume_protocol(self):
        if self._protocol_paused and self.get_write_buffer_size() <= self._low:
            self._protocol_paused = False
            self._protocol.resume_writing()

    def can_write_eof(self):
        return True

    def write_eof(self):
        self._eof = True

    # ---- lifecycle --------------------------------------------------------
    def get_protocol(self):
        return self._protocol

    def set_protocol(self, protocol):
        self._protocol = protocol

    def is_closing(self):
        return self._closing

    def close(self):
        self.close_called = True
        if self._closing:
            return
        self._closing = True
        self._reading = False
        if not self._buffer:
            self._conn_lost += 1
            self._loop.call_soon(self._call_connection_lost, None)

    def abort(self):
        self.close_called = True
        self._force_close(None)

    def _fatal_error(self, exc):
        if not isinstance(exc, OSError):
            self._loop.call_exception_handler(
                {"message": "Fatal error on transport", "exception": exc, "transport": self})
        self._force_close(exc)

    def _force_close(self, exc):
        if self._conn_lost:
            return
        self._buffer.clear()
        self._closing = True
        self._reading = False
        self._conn_lost += 1
        self._loop.call_soon(self._call_connection_lost, exc)

    def _call_connection_lost(self, exc):
        if self._lost_called:
            return
        self._lost_called = True
        self._conn_lost += 1
        try:
            self._protocol.connection_lost(exc)
        finally:
            self.closed = True
