"""Histories of a whole event server (ServerTrace.tla)"""

import asyncio
import functools
import random
import sys
import types

from hv import simloop

from hat import aio
from hat.drivers import tcp
import hat.monitor.common
import hat.monitor.observer.server

from hat.event import common
from hat.event import eventer
from hat.event.server import main_runner as module

from drivers import world


class Failure(Exception):
    pass


monitor_port = 23010
server_port = 23012
adminer_port = 23014
remote_port = 23020

statuses = {i.name: i for i in common.Status}


class Backend(common.Backend):
    """Backend which persists events on flush"""

    def __init__(self, run, registered_cb, flushed_cb):
        self._run = run
        self._registered_cb = registered_cb
        self._flushed_cb = flushed_cb
        self._async_group = aio.Group()
        self._last_ids = {}
        self._pending = []
        self._lock = asyncio.Lock()
        self._async_group.spawn(aio.call_on_cancel, self._on_close)
        if run.flush_period:
            self._async_group.spawn(self._flush_loop)

    @property
    def async_group(self):
        return self._async_group

    def _use(self, what):
        if not self.is_open:
            self._run.log('buse', what=what, stop=self._run.stopped)
            raise common.BackendClosedError()

    async def _on_close(self):
        self._run.log('bclosing')
        await self._run.nap(self._run.close_delay)
        self._run.log('bclosed')

    async def _flush_loop(self):
        try:
            while True:
                await asyncio.sleep(self._run.flush_period)
                await self._flush()
        except Failure:
            self._run.log('cause', kind='backend')
            self.close()

    async def get_last_event_id(self, server_id):
        run = self._run
        if not self.is_open:
            # connections to other servers are created again at once
            await asyncio.sleep(0.3)
        self._use('last event id')
        if server_id == run.server_id:
            run.n_engines += 1
            run.log('create')
        await run.nap(run.backend_delay)
        return self._last_ids.get(server_id, common.EventId(server_id, 0, 0))

    async def register(self, events):
        run = self._run
        self._use('register')
        await run.nap(run.backend_delay)
        self._use('register')
        if run.rng.random() < run.p_backend_error:
            run.log('cause', kind='register')
            raise Failure('register')
        # registration can be cancelled only before or after this
        events = list(events)
        for i in events:
            self._last_ids[i.id.server] = i.id
        run.on_events(events)
        self._pending.append(events)
        run.log('notify', p=False, evs=[run.index(i) for i in events])
        await aio.call(self._registered_cb, events)
        await run.nap(run.backend_delay)
        return events

    async def query(self, params):
        self._use('query')
        return common.QueryResult([], False)

    async def flush(self):
        self._use('flush')
        await self._flush()

    async def _flush(self):
        run = self._run
        async with self._lock:
            await run.nap(run.flush_delay)
            if run.rng.random() < run.p_flush_error:
                run.log('cause', kind='flush')
                raise Failure('flush')
            pending, self._pending = self._pending, []
            for events in pending:
                run.log('notify', p=True, evs=[run.index(i) for i in events])
                await aio.call(self._flushed_cb, events)


class Module(common.Module):

    def __init__(self, run):
        self._run = run
        self._async_group = aio.Group()
        self._subscription = common.create_subscription([])
        self._async_group.spawn(aio.call_on_cancel, self._on_close)

    @property
    def async_group(self):
        return self._async_group

    @property
    def subscription(self):
        return self._subscription

    async def _on_close(self):
        slow, self._run.slow = self._run.slow, 0
        await asyncio.sleep(slow)
        await self._run.nap(self._run.module_delay)
        self._run.log('mclosed')

    async def on_session_start(self, session_id):
        pass

    async def on_session_stop(self, session_id):
        pass

    async def process(self, source, event):
        pass


class Remote:
    """Other event server (r is its number, 0 for the server itself)"""

    def __init__(self, run, r):
        self.run = run
        self.r = r
        self.server_id = run.server_id + r
        self.port = remote_port + r
        self.status = 'STANDBY'
        self.server = None
        self.session = 0
        self.conns = {}

    async def listen(self):
        self.server = await eventer.listen(
            tcp.Address('127.0.0.1', self.port),
            status=statuses[self.status],
            connected_cb=self.on_connected,
            disconnected_cb=self.on_disconnected,
            register_cb=self.on_register,
            query_cb=self.on_query)
        self.run.log('rup', r=self.r, s=self.status)

    def close(self):
        self.run.log('rdown', r=self.r)
        self.server.close()

    async def set_status(self, status):
        self.status = status
        self.run.log('rstatus', r=self.r, s=status)
        if self.server and self.server.is_open:
            await self.server.set_status(statuses[status])

    def on_connected(self, info):
        run = self.run
        run.n_conns += 1
        self.conns[info.id] = run.n_conns
        run.log('rconn', r=self.r, n=run.n_conns,
                ok=(info.client_name == 'event/srv' and
                    info.client_token == run.token and
                    info.server_id == self.server_id and
                    info.persisted is True))

    def on_disconnected(self, info):
        self.run.log('rdisc', r=self.r, n=self.conns[info.id])

    async def on_register(self, info, events):
        return

    async def on_query(self, info, params):
        await self.run.nap(self.run.backend_delay)
        return common.QueryResult([], False)

    async def notify(self):
        if not self.server or not self.server.is_open:
            return
        self.session += 1
        await self.server.notify_events(
            [common.Event(id=common.EventId(self.server_id, self.session, 1),
                          type=('remote', ),
                          timestamp=common.Timestamp(100, 0),
                          source_timestamp=None,
                          payload=None)], True)


class Monitor:
    """Monitor server"""

    def __init__(self, run):
        self.run = run
        self.server = None
        self.blessed = False
        self.token = 0
        self.components = {}        # r: data of component
        self.bad = []
        self.announced = False
        self.ready = None

    async def close(self):
        """Orderly closing waits for components"""
        run = self.run
        run.log('mclose')
        t = run.loop.time()
        await self.server.async_close()
        run.log('mgone', waited=run.stopped or run.loop.time() - t > 2.9)

    async def listen(self):
        self.server = await hat.monitor.observer.server.listen(
            tcp.Address('127.0.0.1', monitor_port),
            state_cb=self.on_state)

    def info(self, cid, mid, name, group, data, req, res):
        return hat.monitor.common.ComponentInfo(
            cid=cid, mid=mid, name=name, group=group, data=data, rank=1,
            blessing_req=hat.monitor.common.BlessingReq(token=req,
                                                        timestamp=None),
            blessing_res=hat.monitor.common.BlessingRes(token=res,
                                                        ready=True))

    async def on_state(self, server, state):
        for i in state.local_components:
            if i.name is None:
                continue
            ready = i.blessing_res.ready, i.blessing_res.token is not None
            if ready != self.ready:
                self.ready = ready
                self.run.log('ready', on=ready[0], res=ready[1])
        await self.update()

    async def update(self):
        # own component is seen only by its monitor server
        run = self.run
        if not self.server or not self.server.is_open:
            return
        infos = []
        own = None
        for i in self.server.state.local_components:
            if i.name is None:
                continue
            if not self.announced:
                self.announced = True
                conf = run.conf
                data = {'server_id': run.server_id,
                        'eventer_server': conf['eventer_server'],
                        'server_token': run.token}
                run.log('own', ok=(i.name == 'srv' and i.group == 'group' and
                                   i.data == data))
            own = i._replace(
                mid=1,
                blessing_req=hat.monitor.common.BlessingReq(
                    token=self.token if self.blessed else None,
                    timestamp=None))
            infos.append(own)
        for r, data in self.components.items():
            infos.append(self.info(100 + r, 2, f'r{r}', 'group', data,
                                   None, None))
        for k, (group, data) in enumerate(self.bad):
            infos.append(self.info(200 + k, 2, f'b{k}', group, data, None,
                                   None))
        run.shuffled.shuffle(infos)
        infos.sort(key=lambda i: i.cid % 7)
        await self.server.update(1, infos)

    async def bless(self, on):
        if on == self.blessed:
            return
        self.token += 1
        self.blessed = on
        self.run.log('bless', on=on)
        await self.update()

    async def rebless(self):
        """Other token"""
        if not self.blessed:
            return
        self.token += 1
        self.run.log('rebless')
        await self.update()

    async def present(self, r, on):
        run = self.run
        if not on:
            self.components.pop(r, None)
        else:
            remote = run.remotes[r]
            self.components[r] = {
                'server_id': remote.server_id,
                'eventer_server': {'host': '127.0.0.1', 'port': remote.port},
                'server_token': run.remote_token}
        run.log('comp', r=r, on=on)
        await self.update()


class Run:

    def __init__(self, seed, focus):
        self.rng = rng = random.Random(f'{seed}/{focus}')
        self.shuffled = random.Random(f'{seed}/shuffle')
        self.focus = focus
        self.lines = []
        self.server_id = rng.choice([0, 1, 7, 2 ** 40])
        self.with_monitor = rng.random() < (0.95 if focus == 'R03' else 0.7)
        self.token = rng.choice([None, None, 'abc'])
        self.remote_token = (rng.choice([None, 'abc', 'xyz'])
                             if not self.token else self.token)
        self.net_delay = rng.choice([0, 0.001, 0.1, 0.5])
        self.backend_delay = rng.choice([0, 0, 0.1, 0.5])
        self.flush_delay = rng.choice([0, 0.1, 0.5])
        self.flush_period = rng.choice([0, 0, 1, 10])
        self.close_delay = rng.choice([0, 0.5])
        self.module_delay = rng.choice([0, 0, 0.1, 1])
        self.spread = rng.choice([0.1, 1, 5, 20])
        faulty = rng.random() < (0.1 if focus == 'R03' else 0.5)
        self.p_backend_error = rng.choice([0, 0, 0.05]) if faulty else 0
        self.p_flush_error = rng.choice([0, 0, 0.1]) if faulty else 0
        self.p_create_error = rng.choice([0, 0, 0.2]) if faulty else 0
        self.p_fail = rng.choice([0, 0, 0.1]) if faulty else 0
        self.p_start_error = rng.choice([0, 0, 0.1]) if faulty else 0
        self.n_mods = rng.choice([1, 1, 2])
        self.n_remotes = rng.choice([1, 1, 2, 3]) if self.with_monitor else 0
        self.adminer = rng.random() < 0.5
        self.modules = []
        self.engine = None
        self.engine_number = 0
        self.n_engines = 0
        self.n_conns = 0
        self.n_clients = 0
        self.clients = {}
        self.busy = []
        self.indexes = {}
        self.types = []
        self.stopped = False
        self.finished = False
        self.main_runner = None
        self.tasks = []
        self.slow = 0

    def log(self, op, **kwargs):
        self.lines.append({'op': op, 't': int(self.loop.time() * 1000),
                           **kwargs})

    async def nap(self, limit):
        if limit and self.rng.random() < 0.8:
            await asyncio.sleep(self.rng.random() * limit)
        elif self.rng.random() < 0.5:
            await asyncio.sleep(0)

    def configure(self, loop):
        rng = random.Random(self.rng.random())
        base = self.net_delay
        loop.net.delay = lambda: base * rng.random()
        # reading is faster than closing
        loop.net.eof_gap = 0.01

    # projection

    def on_events(self, events):
        for i in events:
            self.types.append(list(i.type))
            self.indexes[i.id] = len(self.types)
        kinds = []
        sync = []
        for i in events:
            if (i.id.server == self.server_id and
                    i.type[:3] == ('event', str(self.server_id), 'synced')):
                r = {str(x.server_id): x.r
                     for x in self.remotes.values()}.get(i.type[3], 0)
                data = i.payload.data
                sync.append([r, (data['state']
                                 if data.get('count', 0) == 0 and
                                 ('count' in data) == (data['state'] ==
                                                       'SYNCED')
                                 else '?')])
            if i.id.server != self.server_id:
                kinds.append('remote')
            elif (i.type == ('event', str(self.server_id), 'engine')):
                kinds.append(i.payload.data)
            else:
                kinds.append('other')
        self.log('reg', kinds=kinds, sync=sync)

    def index(self, event):
        return self.indexes.get(event.id, 0)

    # environment

    async def create_backend(self, conf, registered_cb, flushed_cb):
        await self.nap(self.backend_delay)
        if self.rng.random() < self.p_start_error:
            self.log('cause', kind='start')
            raise Failure('create backend')
        self.backend = Backend(self, registered_cb, flushed_cb)
        self.log('bcreated')
        return self.backend

    async def create_module(self, conf, engine, source):
        await self.nap(self.module_delay)
        if self.rng.random() < self.p_create_error:
            self.log('cause', kind='create')
            raise Failure('create')
        result = Module(self)
        self.engine = engine
        self.engine_number = self.n_engines
        self.modules.append(result)
        self.log('mcreated')
        return result

    async def client(self, persisted):
        """Client of the event server"""
        rng = self.rng
        self.n_clients += 1
        c = self.n_clients
        simloop.link_tag.set(c)

        def on_events(client, events):
            self.log('cevents', c=c, evs=[self.index(i) for i in events])

        def on_status(client, status):
            self.log('cstatus', c=c, s=status.name)

        try:
            client = await eventer.connect(
                tcp.Address('127.0.0.1', server_port), f'c{c}',
                subscriptions=[('*', )],
                persisted=persisted,
                events_cb=on_events,
                status_cb=on_status)
        except Exception:
            return
        self.log('copen', c=c, p=persisted, s=client.status.name)
        self.clients[c] = client
        await client.wait_closing()
        self.log('cclose', c=c, busy=c in self.busy)

    async def client_register(self):
        rng = self.rng
        clients = [c for c, i in self.clients.items() if i.is_open]
        if not clients:
            return
        c = rng.choice(clients)
        # closing of engine during registration closes the connection
        self.busy.append(c)
        with_response = rng.random() < 0.8
        try:
            await self.clients[c].register(
                [common.RegisterEvent(
                    type=tuple(world.random_type(rng)) + ('x', ),
                    source_timestamp=None,
                    payload=None)],
                with_response=with_response)
        except Exception:
            return
        if with_response:
            self.busy.remove(c)

    async def act(self):
        rng = self.rng
        kind = rng.choices(
            ['monitor', 'remote', 'client', 'cut', 'restart', 'reset', 'fail',
             'register'],
            [0.25 if self.with_monitor else 0,
             0.3 if self.with_monitor else 0,
             0.1, 0.05, 0.08, 0.08 if self.with_monitor else 0,
             self.p_fail, 0.15])[0]
        if kind == 'monitor':
            await self.monitor_act()
        elif kind == 'remote':
            await self.remote_act()
        elif kind == 'client':
            self.tasks.append(self.loop.create_task(
                self.client(rng.random() < 0.5)))
        elif kind == 'cut':
            links = [i for i in self.loop.net.links
                     if i.is_open and i.port == server_port]
            if links:
                link = rng.choice(links)
                self.log('ccut', c=link.tag or 0)
                link.cut()
        elif kind == 'restart':
            if self.engine and self.engine.is_open:
                self.log('restart', e=self.engine_number)
                self.engine.restart()
        elif kind == 'reset':
            if self.engine and self.engine.is_open:
                self.log('restart', e=self.engine_number)
                if rng.random() < 0.2:
                    self.slow = 31
                self.engine.reset_monitor_ready()
                if self.slow:
                    # the runner isn't waited for that long
                    await asyncio.sleep(50)
                    self.slow = 0
        elif kind == 'fail':
            await self.fail()
        else:
            self.tasks.append(self.loop.create_task(self.client_register()))

    async def fail(self):
        rng = self.rng
        kind = rng.randrange(3)
        if kind == 0:
            mods = [i for i in self.modules if i.is_open]
            if mods:
                self.log('cause', kind='module')
                mods[-1].close()
        elif kind == 1 and self.backend:
            self.log('cause', kind='backend')
            self.backend.close()
        elif self.with_monitor and kind == 2 and self.monitor.server:
            links = [i for i in self.loop.net.links
                     if i.is_open and i.port == monitor_port]
            self.log('cause', kind='monitor')
            self.monitor_lost = True
            if links and rng.random() < 0.5:
                links[-1].cut()
            else:
                self.tasks.append(self.loop.create_task(
                    self.monitor.close()))

    async def monitor_act(self):
        rng = self.rng
        kind = rng.randrange(10)
        if kind < 6:
            await self.monitor.bless(not self.monitor.blessed)
        elif kind < 7:
            await self.monitor.rebless()
        else:
            r = rng.randint(1, self.n_remotes)
            await self.monitor.present(r, r not in self.monitor.components)

    async def remote_act(self):
        rng = self.rng
        remote = self.remotes[rng.randint(1, self.n_remotes)]
        kind = rng.randrange(10)
        if kind < 5:
            await remote.set_status(
                rng.choice([*statuses, 'STANDBY', 'STANDBY', 'OPERATIONAL']))
        elif kind < 7:
            await remote.notify()
        elif kind < 8:
            links = [i for i in self.loop.net.links
                     if i.is_open and i.port == remote.port]
            if links:
                links[-1].cut()
        elif remote.server:
            remote.close()
            await remote.server.wait_closed()
            remote.server = None
        else:
            await remote.listen()

    async def quiet(self):
        await asyncio.sleep(60)
        self.log('quiet',
                 open=self.main_runner.is_open,
                 eng=bool(self.engine and self.engine.is_open),
                 e=self.engine_number)

    def add_bad_components(self):
        """Components to which the server must not connect"""
        rng = self.rng
        bad = Remote(self, 9)
        bad.port = remote_port + 9
        self.remotes[9] = bad
        addr = {'host': '127.0.0.1', 'port': bad.port}
        good = {'server_id': bad.server_id, 'eventer_server': addr,
                'server_token': self.remote_token}
        choices = [('other', good),
                   ('group', {**good, 'server_id': 'x'}),
                   ('group', {**good, 'server_id': self.server_id}),
                   ('group', {**good, 'eventer_server': {'host': 1,
                                                         'port': 2}}),
                   ('group', {**good, 'eventer_server': {'host': 'x'}}),
                   ('group', {**good, 'server_token': 123}),
                   ('group', None),
                   ('group', 'abc'),
                   ('group', [good])]
        if self.token:
            choices.extend([('group', {**good, 'server_token': None}),
                            ('group', {**good, 'server_token': 'x'})])
        self.monitor.bad = rng.sample(choices, rng.choice([1, 2, 3]))

    # run

    async def main(self, loop):
        rng = self.rng
        self.loop = loop
        self.backend = None
        self.monitor = None
        self.monitor_lost = False
        self.remotes = {r: Remote(self, r)
                        for r in range(1, self.n_remotes + 1)}
        for i in list(self.remotes.values()):
            i.status = rng.choice(['STANDBY', 'STANDBY', 'OPERATIONAL',
                                   'STARTING'])
            if rng.random() < 0.8:
                await i.listen()
        conf = {'name': 'srv',
                'server_id': self.server_id,
                'backend': {'module': 'hv_server_backend'},
                'modules': [{'module': 'hv_server_module'}
                            for _ in range(self.n_mods)],
                'eventer_server': {'host': '127.0.0.1', 'port': server_port}}
        if self.token is not None:
            conf['server_token'] = self.token
        if self.adminer:
            conf['adminer_server'] = {'host': '127.0.0.1',
                                      'port': adminer_port}
        if self.with_monitor:
            conf['monitor_component'] = {'host': '127.0.0.1',
                                         'port': monitor_port,
                                         'group': 'group'}
            self.monitor = Monitor(self)
            if rng.random() < 0.4:
                self.add_bad_components()
                await self.remotes[9].listen()
            if rng.random() < self.p_start_error:
                self.log('cause', kind='start')
                self.monitor_lost = True
            else:
                await self.monitor.listen()
            for r in range(1, self.n_remotes + 1):
                if rng.random() < 0.8:
                    await self.monitor.present(r, True)
            if rng.random() < 0.5:
                await self.monitor.bless(True)
        if rng.random() < self.p_start_error:
            self.log('cause', kind='start')
            await loop.create_server(asyncio.Protocol, '127.0.0.1',
                                     (rng.choice([server_port, adminer_port])
                                      if self.adminer else server_port))

        self.log('start', mon=self.with_monitor)
        self.conf = conf
        self.main_runner = module.MainRunner(conf)
        loop.create_task(self.watch())

        if rng.random() < 0.9:
            await asyncio.sleep(0.5 * rng.choice([1, 1, 10]))
        for _ in range(rng.choice([1, 2, 3])):
            self.tasks.append(loop.create_task(
                self.client(rng.random() < 0.5)))
        for _ in range(rng.choice([0, 1, 2, 3])):
            for _ in range(rng.choice([0, 1, 2, 4, 8])):
                await asyncio.sleep(rng.choice([0, rng.random() *
                                                self.spread]))
                await self.act()
            if rng.random() < 0.7:
                await self.quiet()

        if (self.with_monitor and self.monitor.server and
                self.monitor.server.is_open and rng.random() < 0.3):
            self.log('cause', kind='monitor')
            self.monitor_lost = True
            await self.monitor.close()
            await asyncio.sleep(rng.choice([0, 30]))

        if self.n_remotes and rng.random() < 0.4:
            # other servers don't stop
            self.tasks.append(loop.create_task(self.remote_events()))
        self.log('stop')
        self.stopped = True
        self.main_runner.close()
        if rng.random() < 0.4:
            for _ in range(3):
                await asyncio.sleep(rng.random())
                await self.act()
        await asyncio.wait([loop.create_task(self.main_runner.wait_closed())],
                           timeout=300)
        self.log('end', closed=self.main_runner.is_closed,
                 bclosed=self.backend is None or self.backend.is_closed)
        await asyncio.sleep(5)
        self.log('final')
        self.finished = True

    async def remote_events(self):
        period = self.rng.choice([0.02, 0.1, 0.3])
        for _ in range(20):
            for i in range(1, self.n_remotes + 1):
                await self.remotes[i].notify()
            await asyncio.sleep(self.rng.random() * period)

    async def watch(self):
        await self.main_runner.wait_closing()
        self.log('closing')


def run_one(seed, index, focus, scratch):
    run = Run(seed, focus)
    m = types.ModuleType('hv_server_module')
    m.info = common.ModuleInfo(create=run.create_module)
    sys.modules['hv_server_module'] = m
    m = types.ModuleType('hv_server_backend')
    m.info = common.BackendInfo(create=run.create_backend)
    sys.modules['hv_server_backend'] = m
    outcome, value, loop = simloop.run(run.main, run.rng,
                                       configure=run.configure)
    if outcome == 'error':
        raise value
    if not run.finished:
        run.log('stuck')
    return {'lines': run.lines, 'seed': seed, 'focus': focus}
