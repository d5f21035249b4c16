"""Histories of the event server's eventer server (EventerServerTrace.tla)"""

import asyncio
import random

from hv import simloop

from hat.drivers import tcp

from hat.event import common
from hat.event import eventer
from hat.event.server import eventer_server as module

from drivers import content
from drivers import world


class Failure(Exception):
    pass


port = 23012


class Engine:
    """Engine with the behaviour of the real one (see EngineTrace.tla)"""

    def __init__(self, run, n):
        self._run = run
        self._n = n
        self._open = True
        self._pending = []

    @property
    def is_open(self):
        return self._open

    def close(self):
        if not self._open:
            return
        self._open = False
        self._run.log('engclose', e=self._n)
        for i in self._pending:
            if not i.done():
                i.set_exception(Failure('engine closed'))

    async def register(self, source, events):
        run = self._run
        i = run.n_regs
        run.n_regs += 1
        rec = run.project(source, list(events))
        run.log('ereg', i=i, e=self._n, **rec)
        if not self._open:
            run.log('eregend', i=i, out='error', res=[])
            raise Failure('engine closed')
        future = run.loop.create_future()
        self._pending.append(future)
        run.loop.call_later(run.delay(run.engine_delay), lambda: (
            None if future.done() else future.set_result(None)))
        try:
            await future
        except asyncio.CancelledError:
            run.log('eregend', i=i, out='cancelled', res=[])
            raise
        except Failure:
            run.log('eregend', i=i, out='error', res=[])
            raise
        if run.rng.random() < run.p_none:
            run.log('eregend', i=i, out='none', res=[])
            return
        res = [run.contents.new_event() for _ in events]
        run.log('eregend', i=i, out='ok', res=res)
        return [run.contents.event(j) for j in res]


class Backend(common.Backend):

    def __init__(self, run):
        self._run = run

    @property
    def async_group(self):
        raise NotImplementedError()

    async def get_last_event_id(self, server_id):
        raise NotImplementedError()

    async def register(self, events):
        raise NotImplementedError()

    async def flush(self):
        raise NotImplementedError()

    async def query(self, params):
        run = self._run
        data = run.contents.pid(params)
        run.log('bquery', data=data)
        await run.nap(run.engine_delay)
        if run.rng.random() < run.p_query_error:
            run.log('bqueryend', data=data, out='error', res=0)
            raise Failure('query')
        res = run.contents.new_result()
        run.log('bqueryend', data=data, out='ok', res=res)
        return run.contents.results[res - 1]


class Run:

    def __init__(self, seed, focus):
        self.rng = rng = random.Random(f'{seed}/{focus}')
        self.lines = []
        self.contents = content.Contents(rng)
        self.server_id = rng.choice([0, 1, 7, 2 ** 31])
        self.server_token = rng.choice([None, 'abc', 'ž', ''])
        self.batches = []
        self.n_conns = 0
        self.n_regs = 0
        self.n_queries = 0
        self.names = {}
        self.clients = {}
        self.tasks = []
        self.engine = None
        self.n_engines = 0
        self.connecting = 0
        self.spread = rng.choice([0.05, 0.5, 2, 5])
        self.engine_delay = rng.choice([0, 0.1, 1, 3])
        self.net_delay = rng.choice([0, 0.001, 0.1, 0.5])
        self.p_none = rng.choice([0, 0.1])
        self.p_query_error = rng.choice([0, 0, 0, 0.05])
        self.p_fault = rng.choice([0, 1, 1])
        self.finished = False

    def log(self, op, **kwargs):
        self.lines.append({'op': op, **kwargs})

    def delay(self, limit):
        return self.rng.random() * limit

    async def nap(self, limit):
        if limit and self.rng.random() < 0.8:
            await asyncio.sleep(self.rng.random() * limit)
        elif self.rng.random() < 0.5:
            await asyncio.sleep(0)

    def configure(self, loop):
        rng = random.Random(self.rng.random())
        base = self.net_delay
        loop.net.delay = lambda: base * rng.random()

    def project(self, source, events):
        src = [source.type.name, str(source.id)]
        prefix = ('event', str(self.server_id), 'eventer')
        if (len(events) == 1 and tuple(events[0].type[:3]) == prefix and
                len(events[0].type) == 4):
            event = events[0]
            payload = (event.payload.data if isinstance(
                event.payload, common.EventPayloadJson) else None)
            kind = (payload if payload in ('CONNECTED', 'DISCONNECTED')
                    else 'unknown')
            # connection whose processing caused this registration
            return {'src': src, 'kind': kind, 'name': event.type[3],
                    'k': simloop.link_tag.get() or 0,
                    'data': 0, 'sts': event.source_timestamp is not None}
        ids = [self.contents.rid(i) for i in events]
        data = self.batches.index(ids) + 1 if ids in self.batches else 0
        return {'src': src, 'kind': 'data', 'name': '', 'k': 0,
                'data': data, 'sts': False}

    # clients

    async def client(self):
        rng = self.rng
        await asyncio.sleep(rng.random() * self.spread)
        while self.quiet:
            await asyncio.sleep(0.01)
        self.n_conns += 1
        k = self.n_conns
        name = rng.choice([f'client/{k}', f'c{k}', f'a/b/{k}', f'ž {k}', 'same',
                           'same'])
        token = rng.choice([None, None, self.server_token, 'abc', '', 'bad'])
        valid = token is None or token == self.server_token
        sub = (world.random_subscription(rng, 0.5) if rng.random() < 0.8
               else [])
        srv = rng.choice([0, 0, 0, 1, 2, 3])
        persisted = rng.random() < 0.3
        self.log('connect', k=k, name=name, valid=valid, sub=sub, srv=srv,
                 persisted=persisted)
        n_reqs = 0

        async def on_events(client, events):
            self.log('evcb', k=k, evs=[self.contents.eid(i) for i in events])
            await self.nap(self.engine_delay)
            self.log('evend', k=k)

        async def request():
            nonlocal n_reqs
            if rng.random() < 0.25:
                await self.query(k, client)
                return
            n_reqs += 1
            r = n_reqs
            ids = [self.contents.new_register()
                   for _ in range(rng.choice([1, 1, 2, 3]))]
            self.batches.append(ids)
            resp = rng.random() < 0.7
            self.log('req', k=k, data=len(self.batches), resp=resp)
            try:
                res = await client.register(
                    [self.contents.register(i) for i in ids], resp)
            except ConnectionError:
                self.log('reqend', k=k, r=r, out='connection', res=[])
                return
            except Exception as e:
                self.log('reqend', k=k, r=r, out='other', res=[],
                         exc=repr(e))
                return
            if not resp:
                out, res = ('sent' if res is None else 'other'), []
            elif res is None:
                out, res = 'none', []
            else:
                out, res = 'ok', [self.contents.eid(i) for i in res]
            self.log('reqend', k=k, r=r, out=out, res=res)

        async def requests(n):
            for _ in range(n):
                await asyncio.sleep(rng.random() * self.spread)
                if rng.random() < 0.3:
                    self.tasks.append(self.loop.create_task(request()))
                else:
                    await request()

        simloop.link_tag.set(k)
        self.connecting += 1
        try:
            client = await eventer.connect(
                tcp.Address('127.0.0.1', port), name,
                client_token=token,
                subscriptions=[tuple(i) for i in sub],
                server_id=(None if srv == 0 else
                           self.contents.servers[srv - 1]),
                persisted=persisted,
                events_cb=on_events)
        except eventer.EventerInitError:
            self.log('connfail', k=k, refused=True)
            return
        except Exception as e:
            self.log('connfail', k=k, refused=False, exc=repr(e))
            return
        finally:
            self.connecting -= 1
        self.log('opened', k=k)
        self.names[k] = name
        self.clients[k] = client
        self.tasks.append(self.loop.create_task(self.watch(k, client)))
        for _ in range(rng.randrange(3)):
            self.tasks.append(self.loop.create_task(
                requests(rng.choice([1, 2, 4]))))

    async def watch(self, k, client):
        await client.wait_closing()
        self.log('cended', k=k)

    async def query(self, k, client):
        data = self.contents.new_params()
        self.n_queries += 1
        i = self.n_queries
        self.log('query', k=k, data=data)
        try:
            res = await client.query(self.contents.param(data))
        except ConnectionError:
            self.log('queryend', i=i, k=k, data=data, out='connection', res=0)
        except Exception as e:
            self.log('queryend', i=i, k=k, data=data, out='other', res=0,
                     exc=repr(e))
        else:
            self.log('queryend', i=i, k=k, data=data, out='ok',
                     res=self.contents.res_id(res))

    # server

    async def status(self, status, engine):
        self.log('setstatus', s=status.name)
        await self.server.set_status(status, engine)

    async def engines(self, n):
        rng = self.rng
        s = common.Status
        for _ in range(n):
            await asyncio.sleep(rng.random() * self.spread)
            if not self.engine:
                await self.status(s.STARTING, None)
                await self.nap(self.spread)
                self.n_engines += 1
                self.engine = Engine(self, self.n_engines)
                self.log('engine', e=self.n_engines)
                await self.status(s.OPERATIONAL, self.engine)
            else:
                self.engine.close()
                await asyncio.sleep(rng.choice([0, 0, rng.random()]))
                self.engine = None
                self.log('engine', e=0)
                await self.status(s.STOPPING, None)
                await self.nap(self.spread)
                await self.status(s.STANDBY, None)

    async def announce(self, n):
        """Announcements while nobody is connecting"""
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(0.001 + rng.random() * self.spread)
            self.quiet += 1
            try:
                while self.connecting:
                    await asyncio.sleep(0.01)
                evs = [self.contents.new_event()
                       for _ in range(rng.choice([1, 1, 2, 3]))]
                persisted = rng.random() < 0.4
                ack = rng.random() < 0.4
                self.n_anns += 1
                i = self.n_anns
                self.log('announce', evs=evs, persisted=persisted, ack=ack)
                try:
                    await self.server.notify_events(
                        [self.contents.event(j) for j in evs], persisted, ack)
                except Exception as e:
                    self.log('annend', n=i, out='error', exc=repr(e))
                else:
                    self.log('annend', n=i, out='ok')
            finally:
                self.quiet -= 1

    async def faults(self, n):
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(rng.random() * self.spread * 2)
            if rng.random() < 0.5 and self.clients:
                k = rng.choice(sorted(self.clients))
                self.log('cause', ks=[k])
                self.clients[k].close()
                self.log('cended', k=k)
            elif self.loop.net.links:
                link = rng.choice(self.loop.net.links)
                self.log('cause', ks=[link.tag])
                link.cut()

    # run

    async def main(self, loop):
        rng = self.rng
        self.loop = loop
        self.quiet = 0
        self.n_anns = 0
        self.server = await module.create_eventer_server(
            tcp.Address('127.0.0.1', port), Backend(self), self.server_id,
            server_token=self.server_token)

        work = [self.client() for _ in range(rng.randrange(1, 6))]
        work.append(self.engines(rng.choice([0, 1, 1, 2, 3, 4])))
        if rng.random() < 0.5:
            work.append(self.announce(rng.choice([1, 3, 6])))
        if self.p_fault:
            work.append(self.faults(rng.choice([1, 2, 4])))
        work = [loop.create_task(i) for i in work]
        await asyncio.wait(work, timeout=1000)
        await asyncio.sleep(300)
        self.log('quiet',
                 names=[[[src.type.name, str(src.id)], name]
                        for src, name in self.server.get_client_names()],
                 status=[[k, self.clients[k].status.name]
                         for k in sorted(self.clients)
                         if self.clients[k].is_open])
        self.log('srvclose')
        if self.engine:
            self.engine.close()
        self.server.close()
        await asyncio.wait([loop.create_task(self.server.wait_closed())],
                           timeout=1000)
        for _ in range(5):
            if self.tasks:
                await asyncio.wait(self.tasks, timeout=1000)
        for i in work + self.tasks:
            if i.done():
                i.result()
        self.log('closed', closed=self.server.is_closed)
        self.finished = True


def run_one(seed, index, focus, scratch):
    run = Run(seed, focus)
    outcome, value, loop = simloop.run(run.main, run.rng,
                                       configure=run.configure)
    if outcome == 'error':
        raise value
    if not run.finished:
        run.log('closed', closed=False)
    return {'events': run.contents.records, 'lines': run.lines,
            'seed': seed, 'focus': focus}
