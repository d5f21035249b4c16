"""Histories of a component (ComponentTrace.tla)"""

import asyncio
import random

from hv import simloop

from hat import aio
from hat.drivers import tcp
import hat.monitor.common
import hat.monitor.observer.server

from hat.event import common
from hat.event import eventer
from hat.event import component as module


class Failure(Exception):
    pass


monitor_port = 23010
server_port = 23020

statuses = {i.name: i for i in common.Status}


class Runner(aio.Resource):

    def __init__(self, run, k, c, client):
        self.run = run
        self.k = k
        self.c = c
        self.client = client
        self._async_group = aio.Group()
        self._async_group.spawn(aio.call_on_cancel, self._on_close)
        if run.rng.random() < run.p_follow:
            # runner which closes itself once its connection is lost
            self._async_group.spawn(aio.call_on_done, client.wait_closing(),
                                    self.close)
        run.runners.append(self)

    @property
    def async_group(self):
        return self._async_group

    async def _on_close(self):
        self.run.log('rclosing', k=self.k)
        await self.run.nap(self.run.close_delay)
        self.run.log('rclosed', k=self.k)


class Server:
    """Event server number r"""

    def __init__(self, run, r):
        self.run = run
        self.r = r
        self.server_id = 10 + r
        self.port = server_port + r
        self.server = None
        self.status = 'OPERATIONAL'
        self.conns = {}
        self.sent = 0
        self.aliases = [r]

    def data(self, run):
        result = {'server_id': self.server_id,
                  'eventer_server': {'host': '127.0.0.1', 'port': self.port}}
        if run.server_token is not None:
            result['server_token'] = run.server_token
        return result

    async def listen(self):
        self.server = await eventer.listen(
            tcp.Address('127.0.0.1', self.port),
            status=statuses[self.status],
            connected_cb=self.on_connected,
            disconnected_cb=self.on_disconnected,
            register_cb=self.on_register,
            query_cb=self.on_query)
        for r in self.aliases:
            self.run.log('sup', r=r)

    async def close(self):
        for r in self.aliases:
            self.run.log('sdown', r=r)
        await self.server.async_close()
        self.server = None

    async def set_status(self, status):
        self.status = status
        if self.server and self.server.is_open:
            for r in self.aliases:
                self.run.log('sstatus', r=r, s=status)
            await self.server.set_status(statuses[status])

    def on_connected(self, info):
        run = self.run
        run.n_conns += 1
        kwargs = run.eventer_kwargs
        # server is chosen by its id if address is shared
        r = next((i for i in self.aliases if len(self.aliases) > 1 and
                  run.servers[i].server_id == info.server_id), self.r)
        self.conns[info.id] = run.n_conns, r
        run.log('sconn', r=r, n=run.n_conns, s=self.status,
                ok=(info.client_name == 'client' and
                    info.client_token == kwargs.get('client_token') and
                    info.server_id == kwargs.get('server_id',
                                                 run.servers[r].server_id) and
                    info.persisted == kwargs.get('persisted', False) and
                    set(info.subscription.get_query_types()) ==
                    set(kwargs.get('subscriptions', []))))

    def on_disconnected(self, info):
        n, r = self.conns[info.id]
        self.run.log('sdisc', r=r, n=n)

    async def on_register(self, info, events):
        n, r = self.conns[info.id]
        self.run.log('sreg', r=r, n=n, k=events[0].payload.data)
        return []

    async def on_query(self, info, params):
        return common.QueryResult([], False)

    async def notify(self):
        if not self.server or not self.server.is_open:
            return
        self.sent += 1
        event = common.Event(
            id=common.EventId(self.server_id, self.sent, 1),
            type=('a', ),
            timestamp=common.Timestamp(100, 0),
            source_timestamp=None,
            payload=common.EventPayloadJson([self.r, self.sent]))
        if self.run.eventer_kwargs.get('server_id') in (None,
                                                        self.server_id):
            self.run.log('snotify', r=self.r, i=self.sent)
        for persisted in (False, True):
            await self.server.notify_events([event], persisted)


class Alias:
    """Event server which has the address of another one"""

    def __init__(self, run, r, primary):
        self.run = run
        self.r = r
        self.server_id = 10 + r
        self.port = primary.port
        self.primary = primary
        self.sent = 0
        primary.aliases.append(r)

    data = Server.data
    notify = Server.notify

    @property
    def server(self):
        return self.primary.server

    async def listen(self):
        if not self.server:
            await self.primary.listen()

    async def close(self):
        await self.primary.close()

    async def set_status(self, status):
        await self.primary.set_status(status)


class Monitor:

    def __init__(self, run):
        self.run = run
        self.server = None
        self.blessed = False
        self.token = 1
        self.active = 0
        self.present = set()
        self.other = None
        self.bad = None
        self.others = []
        self.first = True

    async def listen(self):
        self.server = await hat.monitor.observer.server.listen(
            tcp.Address('127.0.0.1', monitor_port),
            state_cb=self.on_state)

    async def on_state(self, server, state):
        await self.update()

    def info(self, cid, name, group, data, req, res):
        return hat.monitor.common.ComponentInfo(
            cid=cid, mid=2, name=name, group=group, data=data, rank=1,
            blessing_req=hat.monitor.common.BlessingReq(token=req,
                                                        timestamp=None),
            blessing_res=hat.monitor.common.BlessingRes(token=res,
                                                        ready=True))

    async def update(self):
        run = self.run
        if not self.server or not self.server.is_open:
            return
        infos = []
        for i in self.server.state.local_components:
            if i.name is None:
                continue
            if i.name != 'name' or i.group != 'group' or i.data is not None:
                run.log('own', ok=False)
            infos.append(i._replace(
                mid=1,
                blessing_req=hat.monitor.common.BlessingReq(
                    token=self.token if self.blessed else None,
                    timestamp=None)))
        infos = infos + self.others if self.first else self.others + infos
        await self.server.update(1, infos)

    def decide(self):
        run = self.run
        rng = run.rng
        self.others = []
        self.first = rng.random() < 0.5
        for r in range(1, run.n_servers + 1):
            data = run.servers[r].data(run)
            if self.bad and self.bad[0] == r:
                data = self.bad[1]
            if r == self.active:
                self.others.append(
                    self.info(100 + r, f's{r}', 'servers', data,
                              50 + self.token, 50 + self.token))
            elif r in self.present:
                # different tokens don't make it active
                req, res = rng.choice([(None, None), (1, None), (None, 1),
                                       (1, 2), (5, 4)])
                self.others.append(self.info(100 + r, f's{r}', 'servers', data,
                                             req, res))
        if self.other is not None:
            self.others.append(
                self.info(99, 'o', 'others', run.servers[self.other].data(run),
                          5, 5))
        rng.shuffle(self.others)

    async def close(self):
        run = self.run
        run.log('cause', kind='mclose')
        await self.server.async_close()

    async def act(self):
        rng = self.run.rng
        run = self.run
        kind = rng.randrange(12)
        if kind < 2 or not self.blessed and kind < 8:
            self.blessed = not self.blessed
            self.token += 1
        elif kind < 7:
            self.active = rng.choice([0, *range(1, run.n_servers + 1),
                                      *range(1, run.n_servers + 1)])
            self.bad = None
        elif kind == 7:
            self.active = rng.randint(1, run.n_servers)
            server = run.servers[self.active]
            good = server.data(run)
            self.bad = (self.active, rng.choice(
                [None, {}, 'abc', {**good, 'server_id': 'x'},
                 {**good, 'server_id': None},
                 {**good, 'eventer_server': {'host': 'x'}},
                 {**good, 'eventer_server': {'host': 7, 'port': 7}},
                 {**good, 'server_token': 7}]))
        elif kind == 8:
            self.present = set(rng.sample(range(1, run.n_servers + 1),
                                          rng.randint(0, run.n_servers)))
            self.other = rng.choice([None, *range(1, run.n_servers + 1)])
        else:
            # new token of the same blessing
            self.token += 1
        self.decide()
        await self.update()


class Run:

    def __init__(self, seed, focus):
        self.rng = rng = random.Random(f'{seed}/{focus}')
        self.focus = focus
        self.lines = []
        self.net_delay = rng.choice([0, 0.001, 0.1, 0.5])
        self.create_delay = rng.choice([0, 0, 0.1, 1, 3])
        self.close_delay = rng.choice([0, 0, 0.1, 1])
        self.callback_delay = rng.choice([0, 0, 0.1, 0.5])
        self.spread = rng.choice([0.01, 0.1, 1, 5])
        self.n_servers = rng.choice([1, 2, 2, 3])
        self.p_follow = rng.choice([0, 0, 1])
        self.p_create_error = rng.choice([0, 0, 0, 0.05])
        self.p_use = rng.choice([0, 0.5, 1])
        self.p_stubborn = rng.choice([0, 0, 0.3])
        self.sync_cb = rng.random() < 0.2
        self.client_token = rng.choice([None, None, 'abc'])
        self.server_token = rng.choice([None, 'abc', 'abc', 'x'])
        if self.client_token is not None and rng.random() < 0.9:
            self.server_token = self.client_token
        self.eventer_kwargs = {'subscriptions': [('*', )]}
        if self.client_token is not None:
            self.eventer_kwargs['client_token'] = self.client_token
        if rng.random() < 0.3:
            self.eventer_kwargs['server_id'] = rng.choice([None, 11])
        if rng.random() < 0.5:
            self.eventer_kwargs['persisted'] = rng.random() < 0.5
        self.p_fail = rng.choice([0, 0.1, 0.2])
        self.n_conns = 0
        self.n_runs = 0
        self.clients = []
        self.busy = []
        self.runners = []
        self.finished = False
        self.tasks = []

    def log(self, op, **kwargs):
        self.lines.append({'op': op, 't': int(self.loop.time() * 1000),
                           **kwargs})

    async def nap(self, limit):
        if limit and self.rng.random() < 0.8:
            await asyncio.sleep(self.rng.random() * limit)
        elif self.rng.random() < 0.5:
            await asyncio.sleep(0)

    def configure(self, loop):
        rng = random.Random(self.rng.random())
        base = self.net_delay
        loop.net.delay = lambda: base * rng.random()

    def client_number(self, client):
        for c, i in enumerate(self.clients, 1):
            if i is client:
                return c
        self.clients.append(client)
        return len(self.clients)

    # callbacks

    def start(self, component, server_data, client):
        self.n_runs += 1
        k = self.n_runs
        r = 0
        for i in self.servers.values():
            if i.server_id == server_data.server_id:
                r = i.r
        ok = (r > 0 and component is self.component_seen(component) and
              server_data.addr == tcp.Address('127.0.0.1',
                                              self.servers[r].port) and
              server_data.server_token == self.server_token)
        self.log('rcb', k=k, r=r, c=self.client_number(client), ok=ok)
        return k

    def component_seen(self, component):
        if self.component is None:
            self.component = component
        return self.component

    def on_runner_sync(self, component, server_data, client):
        k = self.start(component, server_data, client)
        self.log('rnew', k=k)
        return Runner(self, k, self.client_number(client), client)

    async def on_runner(self, component, server_data, client):
        k = self.start(component, server_data, client)
        c = self.client_number(client)
        stubborn = self.rng.random() < self.p_stubborn
        try:
            try:
                await self.nap(self.create_delay)
            except asyncio.CancelledError:
                # creation which can't be cancelled any more
                if not stubborn:
                    raise
            if not stubborn and self.rng.random() < self.p_use:
                await client.register(
                    [common.RegisterEvent(
                        type=('k', ), source_timestamp=None,
                        payload=common.EventPayloadJson(k))],
                    with_response=True)
                await self.nap(self.create_delay)
            if self.rng.random() < self.p_create_error:
                if client.is_open:
                    self.log('cause', kind='create')
                raise Failure('create')
        except BaseException:
            self.log('rerr', k=k)
            raise
        self.log('rnew', k=k)
        return Runner(self, k, c, client)

    async def on_state(self, component, state):
        self.component_seen(component)
        self.state = state
        self.log_state(state)
        await self.nap(self.callback_delay)

    def log_state(self, state):
        active = [i for i in state.components
                  if i.group == 'servers' and
                  i.blessing_req.token is not None and
                  i.blessing_req.token == i.blessing_res.token]
        a = 0
        if active:
            r = int(active[0].name[1:])
            if active[0].data == self.servers[r].data(self) and (
                    self.client_token is None or
                    self.server_token == self.client_token):
                a = r
        info = state.info
        tok = info.blessing_req.token if info else None
        self.log('seen', a=a, on=tok is not None, tok=tok or 0)

    async def on_close_req(self, component):
        self.log('closereq')

    async def on_status(self, component, client, status):
        c = self.client_number(client)
        self.log('cstatus', c=c, s=status.name, busy=c in self.busy,
                 ok=status == client.status and component is self.component)
        await self.callback(c)

    async def on_events(self, component, client, events):
        c = self.client_number(client)
        self.log('cevents', c=c, r=events[0].payload.data[0],
                 evs=[i.payload.data[1] for i in events], busy=c in self.busy)
        await self.callback(c)

    async def callback(self, c):
        self.busy.append(c)
        try:
            await self.nap(self.callback_delay)
        finally:
            self.busy.remove(c)

    # environment

    async def act(self):
        rng = self.rng
        kind = rng.choices(['monitor', 'server', 'cut', 'notify', 'ready',
                            'fail'],
                           [0.25, 0.15, 0.2, 0.25, 0.1, self.p_fail])[0]
        if kind == 'monitor':
            await self.monitor.act()
        elif kind == 'server':
            server = self.servers[rng.randint(1, self.n_servers)]
            if rng.random() < 0.5:
                await server.set_status(rng.choice(list(statuses)))
            elif server.server and not server.server.is_open:
                pass
            elif server.server:
                self.tasks.append(self.loop.create_task(server.close()))
            else:
                await server.listen()
        elif kind == 'cut':
            links = [i for i in self.loop.net.links
                     if i.is_open and i.port != monitor_port]
            if links:
                self.log('cut')
                links[-1].cut()
        elif kind == 'notify':
            for _ in range(rng.choice([1, 1, 5])):
                await self.servers[rng.randint(1, self.n_servers)].notify()
        elif kind == 'ready':
            if not self.component_open():
                return
            on = rng.random() < (0.3 if self.comp.ready else 0.9)
            self.log('ready', on=on)
            try:
                await self.comp.set_ready(on)
            except ConnectionError:
                pass
        else:
            await self.fail()

    async def fail(self):
        rng = self.rng
        kind = rng.randrange(4)
        if kind in (0, 3):
            runners = [i for i in self.runners
                       if i.is_open and i.client.is_open]
            if runners:
                self.log('self', k=runners[-1].k)
                runners[-1].close()
        elif kind == 1:
            links = [i for i in self.loop.net.links
                     if i.is_open and i.port == monitor_port]
            if links:
                self.log('cause', kind='monitor')
                links[-1].cut()
        else:
            self.tasks.append(self.loop.create_task(self.monitor.close()))

    def component_open(self):
        return self.comp.is_open

    async def quiet(self):
        await asyncio.sleep(60)
        same = False
        if self.comp.is_open:
            same = (self.state is not None and
                    self.comp.state == self.state and
                    self.comp.state.components ==
                    self.monitor.server.state.global_components)
        self.log('quiet', open=self.comp.is_open, state=same,
                 live=[i.c for i in self.runners
                       if i.is_open and i.client.is_open],
                 st=[i.client.status.name for i in self.runners if i.is_open])

    async def close_runner(self):
        runners = [i for i in self.runners if i.is_open and i.client.is_open]
        if not runners:
            return
        self.log('self', k=runners[-1].k)
        runners[-1].close()
        await self.quiet()

    async def watch(self):
        await self.comp.wait_closing()
        self.log('closing')

    async def main(self, loop):
        rng = self.rng
        self.loop = loop
        self.state = None
        self.component = None
        self.servers = {r: Server(self, r)
                        for r in range(1, self.n_servers + 1)}
        if ('server_id' not in self.eventer_kwargs and self.n_servers > 1 and
                rng.random() < 0.4):
            self.servers[2] = Alias(self, 2, self.servers[1])
        for i in self.servers.values():
            if rng.random() < 0.85:
                await i.listen()
        self.monitor = Monitor(self)
        await self.monitor.listen()
        for _ in range(rng.choice([0, 1, 3])):
            await self.monitor.act()

        self.comp = await module.connect(
            tcp.Address('127.0.0.1', monitor_port),
            'name', 'group', 'servers', 'client',
            self.on_runner_sync if self.sync_cb else self.on_runner,
            state_cb=self.on_state,
            close_req_cb=self.on_close_req,
            status_cb=self.on_status,
            events_cb=self.on_events,
            eventer_kwargs=self.eventer_kwargs)
        self.component_seen(self.comp)
        loop.create_task(self.watch())
        if rng.random() < 0.9:
            self.log('ready', on=True)
            await self.comp.set_ready(True)
        if rng.random() < 0.9:
            self.monitor.blessed = True
            if rng.random() < 0.8:
                self.monitor.active = 1
                self.monitor.bad = None
            self.monitor.decide()
            await self.monitor.update()

        for _ in range(rng.choice([1, 2, 3])):
            for _ in range(rng.choice([0, 1, 2, 4, 8, 16])):
                await asyncio.sleep(rng.choice([0, rng.random() *
                                                self.spread]))
                await self.act()
            if rng.random() < 0.7:
                await self.quiet()
                if rng.random() < self.p_fail:
                    await self.close_runner()

        self.log('stop')
        self.comp.close()
        if rng.random() < 0.3:
            for _ in range(3):
                await asyncio.sleep(rng.random() * 0.5)
                await self.act()
        await asyncio.wait([loop.create_task(self.comp.wait_closed())],
                           timeout=300)
        self.log('end', closed=self.comp.is_closed)
        await asyncio.sleep(5)
        self.log('final', mon=any(i.is_open for i in loop.net.links
                                  if i.port == monitor_port))
        self.finished = True


def run_one(seed, index, focus, scratch):
    run = Run(seed, focus)
    outcome, value, loop = simloop.run(run.main, run.rng,
                                       configure=run.configure)
    if outcome == 'error':
        raise value
    if not run.finished:
        run.log('stuck')
    return {'lines': run.lines, 'seed': seed, 'focus': focus}
