"""Histories of several event servers with LMDB backends (ClusterTrace.tla)

Servers can crash: a copy of the database at that moment is what the next
incarnation of the server starts with, everything else the crashed one does is
cut off (its connections are lost, new ones are refused).
"""

from pathlib import Path
import asyncio
import contextvars
import random
import shutil
import sys
import tempfile
import types

from hv import lmdbproxy
from hv import simloop

from hat import aio
from hat.drivers import tcp
import hat.monitor.observer.server

from hat.event import common
from hat.event import eventer
from hat.event.backends import lmdb
from hat.event.server import main_runner as module

from drivers import world


monitor_port = 23010
base_port = 23100

base_time = 1_700_000_000


class Backend(common.Backend):
    """LMDB backend with recorded calls"""

    def __init__(self, node, backend):
        self._node = node
        self._backend = backend

    @property
    def async_group(self):
        return self._backend.async_group

    async def get_last_event_id(self, server_id):
        return await self._backend.get_last_event_id(server_id)

    async def register(self, events):
        events = list(events)
        # events are accepted without delay
        if self._backend.is_open:
            self._node.log('reg', evs=self._node.run.eids(events))
        return await self._backend.register(events)

    async def query(self, params):
        return await self._backend.query(params)

    async def flush(self):
        await self._backend.flush()


class Module(common.Module):
    """Creates additional events of a session"""

    def __init__(self, run, engine, source):
        self._run = run
        self._async_group = aio.Group()
        self._subscription = common.create_subscription([('x', '*')])

    @property
    def async_group(self):
        return self._async_group

    @property
    def subscription(self):
        return self._subscription

    async def on_session_start(self, session_id):
        pass

    async def on_session_stop(self, session_id):
        pass

    async def process(self, source, event):
        rng = self._run.rng
        await self._run.nap(self._run.module_delay)
        return [common.RegisterEvent(('y', *event.type[1:]), None, None)
                for _ in range(rng.choice([0, 1, 2]))]


class Incarnation:
    """One process of a server"""

    def __init__(self, node, number):
        self.node = node
        self.run = node.run
        self.number = number
        self.alive = True
        self.main_runner = None
        self.backend = None
        self.db_path = node.dir / f'db{number}'

    def log(self, op, **kwargs):
        if self.alive:
            self.run.log(op, n=self.node.n, **kwargs)

    async def create_backend(self, conf, registered_cb, flushed_cb):

        async def on_flushed(events):
            self.log('flushed', evs=self.run.eids(events))
            if (self.alive and not self.run.healing and
                    self.run.rng.random() < self.run.flush_crashes):
                self.node.crash()
            await aio.call(flushed_cb, events)

        backend = await aio.call(lmdb.info.create, conf, registered_cb,
                                 on_flushed)
        hist = []
        for server_id in self.run.server_ids:
            result = await backend.query(
                common.QueryServerParams(server_id=server_id))
            hist.append(self.run.eids(result.events))
        self.log('open', hist=hist)
        if self.alive:
            self.node.opened = True
        return Backend(self, backend)

    def start(self):
        run = self.run
        conf = {'name': f'n{self.node.n}',
                'server_id': run.server_ids[self.node.n - 1],
                'backend': {
                    'module': 'hv_cluster_backend',
                    'db_path': str(self.db_path),
                    'identifier': None,
                    'flush_period': run.flush_period,
                    'cleanup_period': 1000,
                    'conditions': [],
                    'latest': {'subscriptions': [['*']]},
                    'timeseries': [{'order_by': 'TIMESTAMP',
                                    'subscriptions': [['*']]}]},
                'modules': [{'module': 'hv_cluster_module'}
                            for _ in range(run.n_mods)],
                'eventer_server': {'host': '127.0.0.1',
                                   'port': self.node.port},
                'monitor_component': {'host': '127.0.0.1',
                                      'port': monitor_port,
                                      'group': 'group'}}
        if run.token:
            conf['server_token'] = run.token

        ctx = contextvars.copy_context()
        ctx.run(incarnation_var.set, self)
        ctx.run(simloop.link_tag.set, (self.node.n, self.number))
        self.main_runner = ctx.run(module.MainRunner, conf)

    async def watch(self):
        await self.main_runner.wait_closing()
        if self.alive and not self.node.closing:
            self.log('died')


incarnation_var = contextvars.ContextVar('incarnation')


class Node:

    def __init__(self, run, n):
        self.run = run
        self.n = n
        self.port = base_port + n
        self.dir = run.dir / f'n{n}'
        self.dir.mkdir()
        self.current = None
        self.incarnations = 0
        self.opened = False
        self.closing = False

    @property
    def up(self):
        return self.current is not None

    def start(self):
        self.incarnations += 1
        previous = self.dir / f'db{self.incarnations - 1}'
        self.current = Incarnation(self, self.incarnations)
        if previous.exists():
            previous.rename(self.current.db_path)
        self.opened = False
        self.closing = False
        self.run.log('start', n=self.n)
        self.current.start()
        self.run.loop.create_task(self.current.watch())

    def crash(self):
        inc = self.current
        run = self.run
        inc.log('crash')
        inc.alive = False
        self.current = None
        # state of the disk is taken over by the next incarnation
        if inc.db_path.exists():
            data = inc.db_path.read_bytes()
            inc.db_path.rename(inc.db_path.with_suffix('.dead'))
            inc.db_path.write_bytes(data)
        run.dead.add((self.n, inc.number))
        server = run.loop.net._servers.get(self.port)
        if server:
            server.close()
        for i in run.loop.net.links:
            if i.is_open and (i.port == self.port or
                              i.tag == (self.n, inc.number)):
                i.cut()
        run.zombies.append(inc)
        inc.main_runner.close()

    async def stop(self, inc):
        if inc is None or inc is not self.current:
            return
        self.closing = True
        inc.log('close')
        inc.main_runner.close()
        await inc.main_runner.wait_closed()
        inc.log('closed')
        if inc.alive:
            inc.alive = False
            self.current = None


class Run:

    def __init__(self, seed, focus, scratch):
        self.rng = rng = random.Random(f'{seed}/{focus}')
        self.focus = focus
        self.dir = Path(tempfile.mkdtemp(dir=scratch))
        self.lines = []
        self.events = []
        self.event_keys = {}
        self.n_nodes = rng.choice([1, 2, 2, 2, 3] if focus == 'G02' else
                                  [2, 2, 2, 3])
        self.server_ids = rng.sample([0, 1, 2, 3, 7, 300, 2 ** 40],
                                     self.n_nodes)
        self.token = rng.choice([None, None, 'abc'])
        self.net_delay = rng.choice([0.001, 0.01, 0.1])
        self.exec_delay = rng.choice([0, 0.001, 0.05])
        self.module_delay = rng.choice([0, 0, 0.05])
        self.flush_period = rng.choice([0.2, 1, 5, 30])
        self.spread = rng.choice([0.2, 1, 3, 10])
        self.n_mods = rng.choice([0, 1, 1])
        self.crashes = {'G01': 0.2, 'G02': 0.2, 'G03': 0.12}[focus]
        self.zombies = []
        self.dead = set()
        self.clients = {}
        self.tasks = []
        self.n_clients = 0
        self.n_queries = 0
        self.n_registers = 0
        self.finished = False
        self.healing = False
        self.flush_crashes = rng.choice([0, 0, 0.02])

    def log(self, op, **kwargs):
        self.lines.append({'op': op, 't': int(self.loop.time() * 1000),
                           **kwargs})

    async def nap(self, limit):
        if limit and self.rng.random() < 0.8:
            await asyncio.sleep(self.rng.random() * limit)

    # projection

    def eids(self, events):
        return [self.eid(i) for i in events]

    def eid(self, event):
        key = world.event_key(event)
        if key not in self.event_keys:
            self.events.append(
                {'o': (self.server_ids.index(event.id.server) + 1
                       if event.id.server in self.server_ids else 0),
                 's': min(event.id.session, 2 ** 30),
                 'i': min(event.id.instance, 2 ** 30)})
            self.event_keys[key] = len(self.events)
        return self.event_keys[key]

    # monitor

    async def start_monitor(self):
        self.best = None
        self.best_since = 0
        self.token_number = 0
        self.bless_wait = self.rng.choice([0, 1, 10])
        self.ranks = {n: self.rng.choice([1, 1, 2]) for n in self.nodes}
        self.monitor = await hat.monitor.observer.server.listen(
            tcp.Address('127.0.0.1', monitor_port), state_cb=self.on_monitor)

    async def on_monitor(self, server, state):
        await self.update_monitor()

    async def update_monitor(self):
        """One of the ready components with the lowest rank is blessed, once
        others have given up (which is waited for only for a while)"""
        server = self.monitor
        if not server.is_open:
            return
        infos = [i._replace(mid=1, rank=self.ranks[int(i.name[1:])])
                 for i in server.state.local_components
                 if i.name is not None]
        ready = [i for i in infos if i.blessing_res.ready]
        best = min(ready, default=None, key=lambda i: (
            i.rank, i.blessing_req.token is None, i.name))
        if best and best.cid != self.best:
            self.best = best.cid
            self.best_since = self.loop.time()
        late = self.best_since + self.bless_wait - self.loop.time()
        if (best and late > 0 and best.blessing_req.token is None and
                any(i.blessing_res.token for i in infos if i is not best)):
            self.loop.call_later(
                late + 0.01,
                lambda: self.loop.create_task(self.update_monitor()))
            best = None
        result = []
        for i in infos:
            req = i.blessing_req
            if i is not best:
                req = req._replace(token=None)
            elif req.token is None:
                self.token_number += 1
                req = req._replace(token=self.token_number)
            result.append(i._replace(blessing_req=req))
        await server.update(1, result)

    # clients

    async def client(self, n):
        self.n_clients += 1
        c = self.n_clients
        node = self.nodes[n]
        inc = node.current
        persisted = self.rng.random() < 0.5

        def on_events(client, events):
            self.log('note', n=n, inc=inc.number, p=persisted,
                     evs=self.eids(events))

        try:
            client = await eventer.connect(
                tcp.Address('127.0.0.1', node.port), f'c{c}',
                client_token=None,
                subscriptions=[('*', )],
                persisted=persisted,
                events_cb=on_events)
        except Exception:
            return
        if not inc.alive:
            # it may be connected to the next incarnation
            await client.async_close()
            return
        self.clients[c] = (n, inc.number, client)
        await client.wait_closing()
        del self.clients[c]

    def some_client(self):
        clients = [i for i in self.clients.values() if i[2].is_open]
        return self.rng.choice(clients) if clients else None

    async def client_register(self, given=None):
        rng = self.rng
        selected = given or self.some_client()
        if not selected:
            return
        n, inc, client = selected
        events = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            self.n_registers += 1
            events.append(common.RegisterEvent(
                type=(rng.choice('xz'), str(rng.randrange(3))),
                source_timestamp=None,
                payload=common.EventPayloadJson(self.n_registers)))
        try:
            result = await client.register(events, with_response=True)
        except Exception:
            self.log('cres', n=n, inc=inc, ok=False, own=True, evs=[],
                     must=given is not None)
            return
        self.log('cres', n=n, inc=inc, ok=result is not None,
                 own=(result is None or
                      [(i.type, i.payload) for i in result] ==
                      [(i.type, i.payload) for i in events]),
                 evs=[] if result is None else self.eids(result),
                 must=given is not None)

    async def client_query(self):
        rng = self.rng
        selected = self.some_client()
        if not selected:
            return
        n, inc, client = selected
        self.n_queries += 1
        q = self.n_queries
        o = rng.randint(0, self.n_nodes)
        persisted = rng.random() < 0.3
        if o:
            params = common.QueryServerParams(
                server_id=self.server_ids[o - 1], persisted=persisted)
        else:
            persisted = False
            params = common.QueryTimeseriesParams(
                order=common.Order.ASCENDING)
        self.log('qstart', q=q, n=n, o=o)
        try:
            result = await client.query(params)
        except Exception:
            return
        self.log('qend', q=q, n=n, o=o, inc=inc, p=persisted,
                 evs=self.eids(result.events))

    # environment

    async def act(self):
        rng = self.rng
        kind = rng.choices(
            ['client', 'register', 'query', 'cut', 'crash', 'stop', 'start',
             'rank'],
            [0.15, 0.5, 0.15, 0.1, self.crashes, 0.05, 0.3, 0.1])[0]
        nodes = list(self.nodes.values())
        up = [i for i in nodes if i.up and not i.closing]
        if kind == 'client' and up:
            self.spawn(self.client(rng.choice(up).n))
        elif kind == 'register':
            self.spawn(self.client_register())
        elif kind == 'query':
            self.spawn(self.client_query())
        elif kind == 'cut':
            links = [i for i in self.loop.net.links
                     if i.is_open and i.port != monitor_port]
            if links:
                rng.choice(links).cut()
        elif kind == 'crash':
            crashable = [i for i in nodes if i.up]
            if crashable:
                rng.choice(crashable).crash()
        elif kind == 'stop' and up:
            node = rng.choice(up)
            node.closing = True
            self.spawn(node.stop(node.current))
        elif kind == 'start':
            down = [i for i in nodes if not i.up]
            if down:
                rng.choice(down).start()
        elif kind == 'rank':
            n = rng.choice(nodes).n
            self.ranks[n] = rng.choice([1, 2, 3])
            await self.update_monitor()

    def spawn(self, coro):
        self.tasks.append(self.loop.create_task(coro))

    async def main(self, loop):
        rng = self.rng
        self.loop = loop
        self.nodes = {}
        for n in range(1, self.n_nodes + 1):
            self.nodes[n] = Node(self, n)
        await self.start_monitor()
        for i in self.nodes.values():
            if rng.random() < 0.8:
                i.start()
                await self.nap(self.spread)
        for i in self.nodes.values():
            if i.up:
                self.spawn(self.client(i.n))
        await asyncio.sleep(rng.choice([0, 1, 5, 12]))

        for _ in range(rng.choice([5, 15, 30])):
            await self.nap(self.spread)
            for _ in range(rng.choice([1, 1, 1, 3])):
                await self.act()

        # everything is repaired
        self.healing = True
        for i in self.nodes.values():
            while i.closing and i.up:
                await asyncio.sleep(1)
            if not i.up:
                i.start()
        await asyncio.sleep(100)
        await self.final()
        self.finished = True

    async def final(self):
        rng = self.rng
        connected = {}
        for n, node in self.nodes.items():
            try:
                client = await eventer.connect(
                    tcp.Address('127.0.0.1', node.port), 'final')
            except Exception:
                self.log('unreachable', n=n)
                continue
            connected[n] = client
        active = [n for n, i in connected.items()
                  if i.status == common.Status.OPERATIONAL]
        blessed = [int(i.name[1:])
                   for i in self.monitor.state.global_components
                   if i.blessing_req.token is not None]
        self.log('status', blessed=blessed, active=active,
                 standby=[n for n, i in connected.items()
                          if i.status == common.Status.STANDBY])
        for n in active:
            node = self.nodes[n]
            await self.client_register((n, node.current.number,
                                        connected[n]))
        await asyncio.sleep(60 + self.flush_period)
        for n in active:
            own = str(self.server_ids[n - 1])
            states = {}
            try:
                result = await connected[n].query(common.QueryLatestParams(
                    [('event', '*')]))
                states = {i.type: i.payload.data for i in result.events}
            except Exception:
                pass
            self.log('announced', n=n,
                     engine=states.get(('event', own, 'engine'), ''),
                     synced=[m for m in self.nodes if m != n and states.get(
                         ('event', str(self.server_ids[m - 1]), 'synced',
                          own), {}).get('state') == 'SYNCED'])
        if rng.random() < 0.3:
            # answers of the last phase are those of the disk
            for i in self.nodes.values():
                await i.stop(i.current)
                i.start()
                await asyncio.sleep(100)
            await asyncio.sleep(100)
            for n, node in self.nodes.items():
                try:
                    connected[n] = await eventer.connect(
                        tcp.Address('127.0.0.1', node.port), 'final')
                except Exception:
                    self.log('unreachable', n=n)
                    connected.pop(n, None)
            await asyncio.sleep(60 + self.flush_period)
        for n, client in connected.items():
            hist = []
            for server_id in self.server_ids:
                try:
                    result = await client.query(common.QueryServerParams(
                        server_id=server_id, persisted=True))
                    hist.append(self.eids(result.events))
                except Exception:
                    hist.append([])
            self.log('final', n=n, hist=hist)

    def configure(self, loop):
        rng = random.Random(self.rng.random())
        base = self.net_delay
        loop.max_steps = 400_000
        loop.net.delay = lambda: base * rng.random()
        if self.exec_delay:
            loop.exec_delay = lambda: self.exec_delay * rng.random()

        connect = loop.net.connect

        async def guarded(protocol_factory, host, port):
            if simloop.link_tag.get() in self.dead:
                raise ConnectionRefusedError(port)
            result = await connect(protocol_factory, host, port)
            if simloop.link_tag.get() in self.dead:
                result[0].abort()
                raise ConnectionRefusedError(port)
            return result

        listen = loop.net.listen

        def guarded_listen(protocol_factory, host, port):
            if simloop.link_tag.get() in self.dead:
                raise OSError('dead')
            return listen(protocol_factory, host, port)

        loop.net.connect = guarded
        loop.net.listen = guarded_listen


def run_one(seed, index, focus, scratch):
    run = Run(seed, focus, scratch)
    m = types.ModuleType('hv_cluster_module')
    m.info = common.ModuleInfo(
        create=lambda conf, engine, source: Module(run, engine, source))
    sys.modules['hv_cluster_module'] = m

    async def create_backend(conf, registered_cb, flushed_cb):
        return await incarnation_var.get().create_backend(
            conf, registered_cb, flushed_cb)

    m = types.ModuleType('hv_cluster_backend')
    m.info = common.BackendInfo(create=create_backend)
    sys.modules['hv_cluster_backend'] = m

    current = {}

    def configure(loop):
        current['loop'] = loop
        run.configure(loop)

    with (lmdbproxy.released(),
          simloop.patched_clock(lambda: base_time + current['loop'].time())):
        outcome, value, loop = simloop.run(run.main, run.rng,
                                           configure=configure,
                                           real_limit=40)
    shutil.rmtree(run.dir, ignore_errors=True)
    if outcome == 'error':
        raise value
    if not run.finished:
        run.log('stuck', outcome=outcome)
    return {'lines': run.lines, 'events': run.events or [{}],
            'nodes': run.n_nodes, 'seed': seed, 'focus': focus}
