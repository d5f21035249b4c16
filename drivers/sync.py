"""Histories of synchronisation with a remote server (SyncTrace.tla)"""

import asyncio
import random

from hv import simloop

from hat import aio
from hat.drivers import tcp

from hat.event import common
from hat.event import eventer
from hat.event.server import eventer_client as module

from drivers import content
from drivers import world


class Failure(Exception):
    pass


port = 23012

statuses = {i.name: i for i in common.Status}


class Remote:
    """Remote event server: history of persisted events and eventer server"""

    def __init__(self, run):
        self._run = run
        rng = run.rng
        self.persisted = []         # common.Event
        self.pending = []           # sessions which aren't persisted
        self.session = rng.choice([0, 1, 255, 2 ** 40])
        self.other_session = 0
        self.max_results = rng.choice([1, 2, 3, 5, 1000])
        self.server = None
        self.conn_ids = {}

    async def listen(self):
        self.server = await eventer.listen(
            tcp.Address('127.0.0.1', port),
            status=statuses[self._run.rng.choice(sorted(statuses))],
            connected_cb=self.on_connected,
            register_cb=self.on_register,
            query_cb=self.on_query)

    async def on_connected(self, info):
        run = self._run
        self.conn_ids[info.id] = run.n_conns
        run.log('rconn', n=run.n_conns, name=info.client_name,
                token='none' if info.client_token is None
                else info.client_token,
                persisted=bool(info.persisted),
                srv=info.server_id == run.remote_id)

    async def on_register(self, info, events):
        run = self._run
        n = self.conn_ids[info.id]
        for event in events:
            ok = (tuple(event.type) == ('event', str(run.local_id), 'synced',
                                        str(run.remote_id)) and
                  event.source_timestamp is None)
            run.log('rsynced', n=n, ok=ok, **run.synced_data(event))
        if run.rng.random() < run.p_remote_error:
            run.log('cause', n=n)
            raise Failure('engine closed')
        return

    async def on_query(self, info, params):
        run = self._run
        rng = run.rng
        n = self.conn_ids[info.id]
        ok = (isinstance(params, common.QueryServerParams) and
              params.server_id == run.remote_id and params.persisted is True)
        last = params.last_event_id
        run.log('rquery', n=n, ok=ok, last=run.index(last) if last else 0)
        await run.nap(run.remote_delay)
        if rng.random() < run.p_remote_error:
            run.log('cause', n=n)
            raise Failure('query')
        events = sorted(i for i in self.persisted
                        if i.id.server == params.server_id and
                        (last is None or i.id > last))
        size = self.max_results
        if params.max_results is not None:
            size = min(size, params.max_results)
        result = common.QueryResult(events[:size], len(events) > size)
        run.log('rqueryend', n=n,
                evs=[run.index(i.id) for i in result.events],
                more=result.more_follows)
        await run.nap(run.respond_delay)
        return result

    def new_session(self):
        """Session which is registered (but isn't persisted)"""
        run = self._run
        rng = run.rng
        other = rng.random() < 0.2
        if other:
            self.other_session += 1
            server, session = run.other_id, self.other_session
        else:
            self.session += rng.choice([1, 1, 2])
            server, session = run.remote_id, self.session
        return [common.Event(
            id=common.EventId(server, session, i + 1),
            type=tuple(world.random_type(rng)),
            timestamp=content.rand_ts(rng),
            source_timestamp=rng.choice([None, content.rand_ts(rng)]),
            payload=world.random_payload(rng))
            for i in range(rng.choice([1, 1, 2, 3, 4]))]

    async def register(self):
        events = self.new_session()
        self.pending.append(events)
        if self.server and self.server.is_open:
            await self.server.notify_events(events, False)

    async def persist(self):
        run = self._run
        sessions, self.pending = self.pending, []
        if run.rng.random() < 0.1 and len(sessions) > 1:
            # crash of the remote server
            sessions = sessions[:-1]
        for events in sessions:
            self.persisted.extend(events)
            if events[0].id.server == run.remote_id:
                run.add_session(events)
        if not self.server or not self.server.is_open:
            return
        for events in sessions:
            await self.server.notify_events(events, True)


class Backend(common.Backend):
    """Local backend which stores what it gets"""

    def __init__(self, run):
        self._run = run
        self._async_group = aio.Group()
        self.events = []
        self.flushed = 0

    @property
    def async_group(self):
        return self._async_group

    async def get_last_event_id(self, server_id):
        await self._run.nap(self._run.local_delay)
        return max((i.id for i in self.events if i.id.server == server_id),
                   default=common.EventId(server_id, 0, 0))

    async def register(self, events):
        run = self._run
        events = list(events)
        if run.rng.random() < run.p_local_error:
            run.log('cause', n=run.n_conns)
            raise Failure('register')
        self.events.extend(events)
        run.log('lreg', evs=[run.eid(i) for i in events])
        await run.nap(run.local_delay)
        return events

    async def query(self, params):
        raise NotImplementedError()

    async def flush(self):
        pass


class Run:

    def __init__(self, seed, focus):
        self.rng = rng = random.Random(f'{seed}/{focus}')
        self.lines = []
        self.local_id, self.remote_id, self.other_id = rng.sample(
            [0, 1, 2, 3, 1000, 2 ** 40], 3)
        self.indexes = {}
        self.keys = []
        self.spread = rng.choice([0.05, 0.3, 2])
        self.net_delay = rng.choice([0, 0.001, 0.1, 1])
        self.local_delay = rng.choice([0, 0, 0.1, 1])
        self.remote_delay = rng.choice([0, 0, 0.1, 1])
        self.respond_delay = rng.choice([0, 0, 0.1])
        self.cb_delay = rng.choice([0, 0, 0.1, 1])
        if rng.random() < 0.4:
            # registrations are much faster than storing
            self.spread = 0.3
            self.net_delay = rng.choice([0.001, 0.1])
            self.local_delay = 1
        faulty = rng.random() < 0.5
        self.p_local_error = rng.choice([0, 0.02, 0.1]) if faulty else 0
        self.p_remote_error = rng.choice([0, 0.02, 0.1]) if faulty else 0
        self.p_cb_error = rng.choice([0, 0, 0.1]) if faulty else 0
        self.faulty = faulty
        self.n_conns = 0
        self.gave_up = False
        self.token = rng.choice([None, 'abc'])
        self.client = None
        self.finished = False

    def log(self, op, **kwargs):
        self.lines.append({'op': op, **kwargs})

    async def nap(self, limit):
        if limit and self.rng.random() < 0.8:
            await asyncio.sleep(self.rng.random() * limit)
        elif self.rng.random() < 0.5:
            await asyncio.sleep(0)

    def configure(self, loop):
        rng = random.Random(self.rng.random())
        base = self.net_delay
        loop.net.delay = lambda: base * rng.random()

    # projection

    def index(self, event_id):
        """Index of event in the remote history"""
        if event_id.server != self.remote_id:
            return -1
        if event_id in self.indexes:
            return self.indexes[event_id]
        return 0 if event_id.session == 0 and event_id.instance == 0 else -1

    def eid(self, event):
        try:
            i = self.index(event.id)
            return (i if i > 0 and self.keys[i - 1] == world.event_key(event)
                    else 0)
        except Exception:
            return 0

    def add_session(self, events):
        for event in events:
            self.keys.append(world.event_key(event))
            self.indexes[event.id] = len(self.keys)
        self.n_sessions += 1
        self.log('persist', sess=[self.n_sessions for _ in events])

    def synced_data(self, event):
        data = getattr(event.payload, 'data', None)
        if not isinstance(data, dict):
            return {'state': '?', 'count': -1}
        keys = {'state', 'count'} if data.get('state') == 'SYNCED' else \
            {'state'}
        if set(data) != keys:
            return {'state': '?', 'count': -1}
        count = data.get('count')
        return {'state': data['state'],
                'count': -1 if count is None else count}

    # local server

    async def on_synced(self, n, state, count):
        self.log('synced', n=n, state=state.name,
                 count=-1 if count is None else count)
        await self.nap(self.cb_delay)
        if self.rng.random() < self.p_cb_error:
            self.log('cause', n=n)
            raise Failure('synced')

    async def on_status(self, n, status):
        self.log('lstatus', n=n, s=status.name)
        await self.nap(self.cb_delay)

    async def follow(self):
        """Local server keeps connecting"""
        while True:
            self.n_conns += 1
            n = self.n_conns
            if n > 60 and not self.gave_up:
                # more than enough for all the faults
                self.gave_up = True
                self.log('stuck')
            if self.gave_up:
                await asyncio.sleep(1000)
                continue
            self.log('connect', n=n)
            simloop.link_tag.set(n)
            down = not self.remote.server.is_open
            try:
                client = await module.create_eventer_client(
                    tcp.Address('127.0.0.1', port), 'event/local',
                    self.local_id, self.remote_id, self.backend,
                    client_token=self.token,
                    status_cb=lambda s: self.on_status(n, s),
                    synced_cb=lambda s, c: self.on_synced(n, s, c))
            except asyncio.CancelledError:
                raise
            except Exception as e:
                if down or not self.remote.server.is_open:
                    self.log('cause', n=n)
                self.log('connfail', n=n, exc=repr(e))
                await asyncio.sleep(self.rng.random() + 0.01)
                continue
            self.log('opened', n=n, s=client.status.name)
            self.client = client
            try:
                await client.wait_closing()
                self.log('ended', n=n)
            finally:
                await aio.uncancellable(client.async_close())
                self.client = None
            await asyncio.sleep(self.rng.random() * 0.5 + 0.001)

    async def local(self, n):
        """Crashes of the local server"""
        rng = self.rng
        self.follower = self.loop.create_task(self.follow())
        for _ in range(n):
            await asyncio.sleep(rng.random() * self.spread * 5)
            if rng.random() < 0.4:
                self.backend.flushed = len(self.backend.events)
                self.log('lflush')
                continue
            self.log('cause', n=self.n_conns)
            self.follower.cancel()
            await asyncio.wait([self.follower])
            self.log('lcrash')
            del self.backend.events[self.backend.flushed:]
            await asyncio.sleep(rng.random())
            self.follower = self.loop.create_task(self.follow())

    async def history(self, n):
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(rng.choice([0, rng.random() * self.spread]))
            await self.remote.register()
            if rng.random() < 0.5:
                await asyncio.sleep(rng.random() * self.spread)
                await self.remote.persist()
        await self.remote.persist()

    async def change_status(self, n):
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(rng.random() * self.spread * 2)
            s = rng.choice(sorted(statuses) + ['OPERATIONAL'])
            if self.remote.server.is_open:
                await self.remote.server.set_status(statuses[s])

    async def faults(self, n):
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(rng.random() * self.spread * 4)
            if rng.random() < 0.3:
                # restart of the remote server
                self.log('cause', n=self.n_conns)
                await self.remote.server.async_close()
                await asyncio.sleep(rng.random())
                await self.remote.listen()
            elif self.loop.net.links:
                link = self.loop.net.links[-1]
                self.log('cause', n=link.tag)
                link.cut()

    # run

    async def main(self, loop):
        rng = self.rng
        self.loop = loop
        self.remote = Remote(self)
        self.backend = Backend(self)
        self.n_sessions = 0
        self.follower = None
        for _ in range(rng.choice([0, 0, 2, 5, 10])):
            self.remote.pending.append(self.remote.new_session())
        await self.remote.persist()
        await self.remote.listen()
        work = [self.history(rng.choice([0, 2, 5, 10, 20])),
                self.local(rng.choice([0, 0, 2, 4])),
                self.change_status(rng.choice([0, 0, 2, 4]))]
        if self.faulty:
            work.append(self.faults(rng.choice([0, 1, 2, 3])))
        work = [loop.create_task(i) for i in work]
        await asyncio.wait(work, timeout=10000)
        self.p_local_error = self.p_remote_error = self.p_cb_error = 0
        await asyncio.sleep(500)
        self.log('quiet', open=self.client is not None,
                 state=(self.client.synced.name
                        if self.client and self.client.synced else 'none'))
        self.log('cause', n=self.n_conns)
        self.follower.cancel()
        await asyncio.wait([self.follower], timeout=100)
        for i in work:
            i.result()
        await self.remote.server.async_close()
        self.finished = True


def run_one(seed, index, focus, scratch):
    run = Run(seed, focus)
    outcome, value, loop = simloop.run(run.main, run.rng,
                                       configure=run.configure)
    if outcome == 'error':
        raise value
    if not run.finished:
        run.log('stuck')
    return {'lines': run.lines, 'token': run.token or 'none',
            'seed': seed, 'focus': focus}
