"""Deterministic in-process network for the real asyncio server code.

SimLoop is a real asyncio selector event loop; only the selector, the clock and the OS sockets
are replaced.  Transports are asyncio's own `_SelectorSocketTransport`s over SimSockets.
"""
import asyncio
import collections
import errno
import selectors
import signal
import socket as _socket
import sys
import threading
from asyncio import events

IDLE_HORIZON = 5.0  # timers further away than this (TLS timeouts, ...) are not waited for


class CpuTimeout(KeyboardInterrupt):
    """CPU budget of one case exceeded (subclass of KeyboardInterrupt so asyncio lets it through)."""


class cpu_guard:
    """Bound the CPU time of a block of code; raises CpuTimeout inside it."""

    def __init__(self, seconds):
        self.seconds = seconds

    def _fire(self, *_):
        raise CpuTimeout(f"more than {self.seconds} s of CPU time")

    def __enter__(self):
        self.old = signal.signal(signal.SIGPROF, self._fire)
        # re-fire periodically in case the first one is swallowed
        signal.setitimer(signal.ITIMER_PROF, self.seconds, 1.0)
        return self

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        return False


class SimSocket:
    family = _socket.AF_UNIX
    type = _socket.SOCK_STREAM
    proto = 0
    _next_fd = 1_000_000

    def __init__(self, name="c"):
        SimSocket._next_fd += 1
        self._fd = SimSocket._next_fd
        self.name = name
        # client -> server
        self.rx = collections.deque()
        self.rx_eof = False
        self.rx_error = None
        # server -> client
        self.tx = bytearray()
        self.tx_total = 0
        self.window = None  # bytes the peer will still accept (None = unlimited)
        self.max_send = None
        self.tx_error = None
        self.fail_send_at = None  # fail the k-th send call (0-based)
        self.fail_exc = None
        self.send_calls = 0
        self.tx_eof = False
        self.closed = False
        self.close_count = 0
        self.on_send = None

    # -- server side (socket API used by asyncio) ---------------------------------------------
    def fileno(self):
        return -1 if self.closed else self._fd

    def setblocking(self, flag):
        pass

    def getsockopt(self, *a):
        return 0

    def setsockopt(self, *a):
        pass

    def getsockname(self):
        return "/sim/server"

    def getpeername(self):
        return ""

    def gettimeout(self):
        return 0.0

    def _recv(self, n):
        if self.closed:
            raise OSError(errno.EBADF, "closed")
        if self.rx:
            chunk = self.rx.popleft()
            if len(chunk) > n:
                self.rx.appendleft(chunk[n:])
                chunk = chunk[:n]
            return bytes(chunk)
        if self.rx_error:
            raise self.rx_error
        if self.rx_eof:
            return b""
        raise BlockingIOError()

    def recv(self, n, flags=0):
        return self._recv(n)

    def recv_into(self, buf, nbytes=0, flags=0):
        data = self._recv(nbytes or len(buf))
        buf[: len(data)] = data
        return len(data)

    def send(self, data, flags=0):
        if self.closed:
            raise OSError(errno.EBADF, "closed")
        n = self.send_calls
        self.send_calls += 1
        if self.tx_error:
            raise self.tx_error
        if self.fail_send_at is not None and n >= self.fail_send_at:
            raise self.fail_exc or BrokenPipeError(errno.EPIPE, "broken pipe")
        size = len(data)
        if self.window is not None:
            size = min(size, self.window)
        if self.max_send is not None:
            size = min(size, self.max_send)
        if size == 0 and len(data):
            self.send_calls -= 1
            raise BlockingIOError()
        self.tx += data[:size]
        self.tx_total += size
        if self.window is not None:
            self.window -= size
        if self.on_send:
            self.on_send(self, size)
        return size

    def sendmsg(self, buffers, *a):
        return self.send(b"".join(bytes(b) for b in buffers))

    def shutdown(self, how):
        if how in (_socket.SHUT_WR, _socket.SHUT_RDWR):
            self.tx_eof = True

    def close(self):
        self.close_count += 1
        self.closed = True

    def detach(self):
        self.closed = True
        return self._fd

    # -- readiness ----------------------------------------------------------------------------
    def readable(self):
        return bool(self.rx) or self.rx_eof or self.rx_error is not None or self.closed

    def writable(self):
        if self.closed or self.tx_error or self.fail_send_at is not None:
            return True
        return self.window is None or self.window > 0


class SimSelector(selectors._BaseSelectorImpl):
    def __init__(self):
        super().__init__()
        self.socks = {}
        self.loop = None
        self.order = None  # optional callable permuting the ready list

    def ready_list(self):
        out = []
        for fd, key in self._fd_to_key.items():
            s = self.socks.get(fd)
            if s is None:
                continue
            ev = 0
            if key.events & selectors.EVENT_READ and s.readable():
                ev |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and s.writable():
                ev |= selectors.EVENT_WRITE
            if ev:
                out.append((key, ev))
        return out

    def select(self, timeout=None):
        out = self.ready_list()
        if self.order is not None:
            out = self.order(out)
        if not out and timeout is not None and timeout > 0:
            self.loop.now += timeout
        return out


class SimServer:
    def __init__(self, loop, factory):
        self.loop = loop
        self.factory = factory
        self.sockets = ()
        self.closed = False
        self._serving = None

    def close(self):
        self.closed = True

    async def wait_closed(self):
        return None

    def is_serving(self):
        return not self.closed

    async def start_serving(self):
        return None

    async def serve_forever(self):
        await self.loop.create_future()

    # asyncio internals some transports call
    def _attach(self, *a):
        pass

    def _detach(self, *a):
        pass


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.now = 1000.0
        self.sim_selector = SimSelector()
        super().__init__(self.sim_selector)
        self.sim_selector.loop = self
        self.servers = []
        self.exceptions = []
        self.set_exception_handler(self._record_exception)
        self.iterations = 0
        self._entered = False

    def _record_exception(self, loop, ctx):
        self.exceptions.append(ctx)

    def time(self):
        return self.now

    def _make_self_pipe(self):
        self._ssock = self._csock = None

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        pass

    async def create_server(self, protocol_factory, host=None, port=None, **kw):
        s = SimServer(self, protocol_factory)
        self.servers.append(s)
        return s

    async def create_unix_server(self, protocol_factory, path=None, **kw):
        s = SimServer(self, protocol_factory)
        self.servers.append(s)
        return s

    # -- manual stepping ----------------------------------------------------------------------
    def enter(self):
        assert not self._entered
        self._entered = True
        self._old_agen = sys.get_asyncgen_hooks()
        self._thread_id = threading.get_ident()
        sys.set_asyncgen_hooks(
            firstiter=self._asyncgen_firstiter_hook, finalizer=self._asyncgen_finalizer_hook
        )
        self._old_running = events._get_running_loop()
        events._set_running_loop(self)

    def leave(self):
        if self._entered:
            self._entered = False
            self._thread_id = None
            events._set_running_loop(self._old_running)
            sys.set_asyncgen_hooks(*self._old_agen)

    def has_work(self):
        """Would another iteration do anything (not counting far timers)?"""
        if self._ready:
            return True
        if self.sim_selector.ready_list():
            return True
        sched = [h for h in self._scheduled if not h._cancelled]
        if sched and min(h._when for h in sched) <= self.now + IDLE_HORIZON:
            return True
        return False

    def step(self):
        self.iterations += 1
        self._run_once()

    def settle(self, limit=200_000, until=None):
        """Run until nothing is left to do; returns True when quiescent (or `until()` became true)."""
        for _ in range(limit):
            if until is not None and until():
                return True
            if not self.has_work():
                return until is None
            self.step()
        return False

    def run_coro(self, coro, limit=100_000):
        t = self.create_task(coro)
        self.settle(limit, until=t.done)
        if not t.done():
            t.cancel()
            raise RuntimeError("harness coroutine did not finish")
        return t.result()

    def connect(self, server, sock):
        """Open a connection: what asyncio does in BaseSelectorEventLoop._accept_connection2."""
        self.sim_selector.socks[sock._fd] = sock
        protocol = server.factory()
        return self._make_socket_transport(sock, protocol, extra={"peername": ""}, server=server)
