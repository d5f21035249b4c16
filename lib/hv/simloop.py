"""Deterministic asyncio event loop

Virtual time, simulated executors (functions run atomically at a virtual
point of time, FIFO for each executor), and an in-memory network implementing
``create_connection``/``create_server`` with FIFO, arbitrarily delayed byte
streams, so that unmodified networking code runs deterministically.

Ready callbacks keep asyncio's FIFO order; only environment timing (network,
executor, timers) is randomised, so that every explored schedule is one that
a standard event loop can produce.
"""

import asyncio
import collections
import contextlib
import contextvars
import heapq
import random
import signal
import time as _time
import typing


class Deadlock(Exception):
    """Nothing is scheduled and the main coroutine has not finished"""


class Hang(KeyboardInterrupt):
    """Real time budget of one simulation is exceeded"""


class SimLoop(asyncio.BaseEventLoop):

    def __init__(self, rng: random.Random | None = None):
        super().__init__()
        self.rng = rng or random.Random(0)
        self._now = 0.0
        self._selector = self
        self._clock_resolution = 1e-6
        self._executors = {}
        self.exec_delay = lambda: 0.0
        self.net = Network(self)
        self.errors = []
        self.set_exception_handler(self._on_exception)
        # usual runs have a few thousands of iterations
        self.max_steps = 60_000
        self._steps = 0

    def _on_exception(self, loop, context):
        self.errors.append(context)

    # BaseEventLoop interface

    def time(self):
        return self._now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def select(self, timeout):
        self._steps += 1
        if self._steps > self.max_steps:
            raise Hang('too many loop iterations')
        if timeout is None:
            raise Deadlock()
        if timeout > 0:
            # advance exactly to the first scheduled timer
            when = self._now + timeout
            if self._scheduled:
                when = max(self._scheduled[0]._when, self._now)
            self._now = max(when, self._now)
        return []

    def close(self):
        if self.is_running():
            raise RuntimeError('running')
        self._selector = None
        super().close()

    # executors

    def run_in_executor(self, executor, func, *args):
        self._check_closed()
        key = id(executor) if executor is not None else None
        state = self._executors.get(key)
        if state is None:
            state = self._executors[key] = [executor, 0.0,
                                            collections.deque()]
        future = self.create_future()
        when = max(self._now, state[1]) + self.exec_delay()
        state[1] = when

        def run():
            if future.cancelled():
                return
            try:
                result = func(*args)
            except StopIteration as e:
                future.set_exception(RuntimeError(str(e)))
            except Exception as e:
                future.set_exception(e)
            else:
                future.set_result(result)

        # order of timers with the same time isn't defined
        state[2].append(run)
        self.call_at(when, lambda: state[2].popleft()())
        return future

    async def shutdown_default_executor(self, timeout=None):
        pass

    # signals (asyncio.run like helpers)

    def add_signal_handler(self, sig, callback, *args):
        pass

    def remove_signal_handler(self, sig):
        return True

    # network

    async def create_connection(self, protocol_factory, host=None, port=None,
                                **kwargs):
        return await self.net.connect(protocol_factory, host, port)

    async def create_server(self, protocol_factory, host=None, port=None,
                            **kwargs):
        return self.net.listen(protocol_factory, host, port)


# identifies who is connecting
link_tag = contextvars.ContextVar('link_tag', default=None)


class Network:
    """In-memory network"""

    def __init__(self, loop):
        self._loop = loop
        self._servers = {}
        self._next_port = 50000
        self.links = []
        # delay of a chunk/connection establishment
        self.delay = lambda: 0.001
        # ports to which connecting is refused
        self.refused = set()
        self.chunk = None
        # called with link once data is delivered to its client side
        self.on_client_data = None
        # time between last data and end of stream
        self.eof_gap = 0

    def listen(self, protocol_factory, host, port):
        if port in self._servers:
            raise OSError('address already in use')
        server = _Server(self, protocol_factory, host, port)
        self._servers[port] = server
        return server

    async def connect(self, protocol_factory, host, port):
        await asyncio.sleep(self.delay())
        server = self._servers.get(port)
        if server is None or port in self.refused:
            raise ConnectionRefusedError(port)
        self._next_port += 1
        client_addr = ('127.0.0.1', self._next_port)
        server_addr = (host, port)
        link = Link(self, port, self._next_port)
        link.tag = link_tag.get()
        client = _Transport(self, link, client_addr, server_addr)
        remote = _Transport(self, link, server_addr, client_addr)
        client.peer, remote.peer = remote, client
        link.client, link.server = client, remote
        self.links.append(link)
        server.transports.add(remote)
        remote.owner = server
        # the server side is accepted later than the client is connected
        remote_protocol = server.protocol_factory()
        remote.start(remote_protocol, self.delay())
        protocol = protocol_factory()
        client.start(protocol, 0)
        while not client.started:
            if client.lost:
                raise ConnectionResetError('simulated')
            await asyncio.sleep(0)
        return client, protocol


class Link:

    def __init__(self, net, port, client_port):
        self._net = net
        self.port = port
        self.client_port = client_port
        self.client = None
        self.server = None

    @property
    def is_open(self):
        return not (self.client.lost and self.server.lost)

    def cut(self):
        """Abrupt connection loss seen by both sides"""
        for i in (self.client, self.server):
            i.abort_later(ConnectionResetError('simulated'))

    def cut_side(self, server: bool):
        (self.server if server else self.client).abort_later(
            ConnectionResetError('simulated'))


class _Server(asyncio.AbstractServer):

    def __init__(self, net, protocol_factory, host, port):
        self._net = net
        self.protocol_factory = protocol_factory
        self.host = host
        self.port = port
        self.transports = set()
        self._closed = False
        self.sockets = [_Socket((host, port))]

    def close(self):
        if self._closed:
            return
        self._closed = True
        if self._net._servers.get(self.port) is self:
            del self._net._servers[self.port]

    def is_serving(self):
        return not self._closed

    def get_loop(self):
        return self._net._loop

    async def wait_closed(self):
        pass

    async def start_serving(self):
        pass

    async def serve_forever(self):
        await self._net._loop.create_future()


class _Socket:

    def __init__(self, name):
        self._name = name

    def getsockname(self):
        return self._name

    def setsockopt(self, *args):
        pass

    def getsockopt(self, *args):
        return 0

    family = 2
    type = 1
    proto = 0


class _Transport(asyncio.Transport):

    def __init__(self, net, link, local, remote):
        super().__init__({'sockname': local, 'peername': remote,
                          'socket': _Socket(local), 'sslcontext': None,
                          'ssl_object': None, 'peercert': None,
                          'cipher': None, 'compression': None})
        self._net = net
        self._loop = net._loop
        self._link = link
        self.peer = None
        self.owner = None
        self._protocol = None
        self.started = False
        self._closing = False
        self.lost = False
        self._eof = False
        self._paused = False
        # bytes from the peer which have arrived but aren't read
        self._inbox = collections.deque()
        self._arriving = collections.deque()
        self._last_arrival = 0.0

    def start(self, protocol, delay):
        self._protocol = protocol

        def connected():
            if self.lost:
                return
            self.started = True
            self._protocol.connection_made(self)
            self._pump()

        if delay:
            self._loop.call_later(delay, connected)
        else:
            self._loop.call_soon(connected)

    # transport interface

    def set_protocol(self, protocol):
        self._protocol = protocol

    def get_protocol(self):
        return self._protocol

    def is_closing(self):
        return self._closing

    def is_reading(self):
        return not self._paused and not self._closing

    def pause_reading(self):
        self._paused = True

    def resume_reading(self):
        self._paused = False
        self._pump()

    def get_write_buffer_size(self):
        return 0

    def get_write_buffer_limits(self):
        return (0, 65536)

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def write(self, data):
        if self._closing or self._eof or not data:
            return
        self.peer._arrive(bytes(data))

    def writelines(self, lines):
        self.write(b''.join(bytes(i) for i in lines))

    def can_write_eof(self):
        return True

    def write_eof(self):
        if self._closing or self._eof:
            return
        self._eof = True
        self.peer._arrive(None)

    def close(self):
        if self._closing:
            return
        self._closing = True
        # written data is delivered before the end of stream
        if not self._eof:
            self._eof = True
            self.peer._arrive(None)
        self._loop.call_soon(self._lose, None)

    def abort(self):
        self.abort_later(None)

    def abort_later(self, exc):
        if self.lost:
            return
        self._closing = True
        self._loop.call_soon(self._lose, exc)
        if not self._eof:
            self._eof = True
            self.peer._arrive(ConnectionResetError('simulated'))

    # delivery

    def _arrive(self, item):
        when = max(self._loop.time() + self._net.delay(), self._last_arrival)
        if not isinstance(item, bytes) and self._net.eof_gap:
            when += self._net.eof_gap
        self._last_arrival = when
        items = [item]
        if isinstance(item, bytes) and self._net.chunk and len(item) > 1:
            items = self._net.chunk(item)

        def arrive():
            self._inbox.extend(self._arriving.popleft())
            self._pump()

        # order of timers with the same time isn't defined
        self._arriving.append(items)
        self._loop.call_at(when, arrive)

    def _pump(self):
        while (self._inbox and self.started and not self._paused and
                not self.lost):
            item = self._inbox.popleft()
            if isinstance(item, bytes):
                if not self._closing:
                    self._protocol.data_received(item)
                    if self._net.on_client_data and self is self._link.client:
                        self._net.on_client_data(self._link)
            elif item is None:
                if not self._closing:
                    keep = self._protocol.eof_received()
                    if not keep:
                        self.close()
            else:
                if not self._closing:
                    self._closing = True
                    self._eof = True
                self._loop.call_soon(self._lose, item)

    def _lose(self, exc):
        if self.lost:
            return
        self.lost = True
        self._closing = True
        if self.owner:
            self.owner.transports.discard(self)
        if self.started:
            self._protocol.connection_lost(exc)


@contextlib.contextmanager
def patched_clock(clock):
    """Replace `time.time` (wall clock seen by the code under test)"""
    original = _time.time
    _time.time = clock
    try:
        yield
    finally:
        _time.time = original


@contextlib.contextmanager
def real_time_limit(seconds):
    """Interrupt code that does not return (has to run in main thread)"""

    def on_alarm(signum, frame):
        raise Hang('real time limit')

    previous = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, previous)


def run(coro_fn: typing.Callable, rng: random.Random, *,
        real_limit: float = 20, configure=None):
    """Run coroutine function in new simulated loop

    Returns (outcome, value, loop) where outcome is 'ok', 'error',
    'deadlock' or 'hang'.
    """
    loop = SimLoop(rng)
    if configure:
        configure(loop)
    try:
        asyncio.set_event_loop(loop)
        with real_time_limit(real_limit):
            try:
                result = loop.run_until_complete(coro_fn(loop))
                return 'ok', result, loop
            except Deadlock:
                return 'deadlock', None, loop
            except Hang as e:
                return 'hang', e, loop
            except Exception as e:
                return 'error', e, loop
    finally:
        asyncio.set_event_loop(None)
        _discard(loop)


def _discard(loop):
    """Drop loop with everything that is still running in it"""
    try:
        with real_time_limit(10):
            tasks = asyncio.all_tasks(loop)
            for task in tasks:
                task._log_destroy_pending = False
            loop._ready.clear()
            loop._scheduled.clear()
            loop.close()
    except BaseException:
        pass
