"""Histories of the eventer server and its clients (EventerTrace.tla)"""

import asyncio
import random

from hv import simloop

from hat.drivers import tcp

from hat.event import common
from hat.event import eventer

from drivers import content
from drivers import world


class Failure(Exception):
    pass


port = 23012

statuses = {i.name: i for i in common.Status}


class Run:

    def __init__(self, seed, focus):
        self.rng = rng = random.Random(f'{seed}/{focus}')
        self.focus = focus
        self.lines = []
        self.contents = content.Contents(rng)
        self.batches = []
        self.n_conns = 0
        self.n_reqs = {}
        self.names = {}
        self.ids = {}
        self.clients = {}
        self.tasks = []
        self.cancels = []
        self.spread = rng.choice([0.05, 0.5, 2, 5])
        self.cb_delay = rng.choice([0, 0, 0.1, 1])
        self.net_delay = rng.choice([0, 0.001, 0.1, 1])
        self.p_fault = rng.choice([0, 0, 0.1, 0.3])
        self.p_error = rng.choice([0, 0, 0, 0.05])
        self.p_cancel = rng.choice([0, 0, 0.1])
        self.finished = False

    def log(self, op, **kwargs):
        self.lines.append({'op': op, **kwargs})

    async def nap(self, limit):
        if limit and self.rng.random() < 0.8:
            await asyncio.sleep(self.rng.random() * limit)
        elif self.rng.random() < 0.5:
            await asyncio.sleep(0)

    def configure(self, loop):
        rng = random.Random(self.rng.random())
        base = self.net_delay
        loop.net.delay = lambda: base * rng.random()
        if rng.random() < 0.3:
            def chunk(data):
                i = rng.randrange(1, len(data))
                return [data[:i], data[i:]]
            loop.net.chunk = chunk
        loop.net.on_client_data = self.on_client_data

    def on_client_data(self, link):
        for i in list(self.cancels):
            if i[0] == link.tag:
                self.cancels.remove(i)
                self.tasks.append(self.loop.create_task(self.cancel(i[1])))

    async def cancel(self, task):
        for _ in range(self.rng.randrange(6)):
            await asyncio.sleep(0)
        task.cancel()

    # server callbacks

    def number(self, info):
        # connection whose processing caused this call
        k = self.ids.get(info.id) or simloop.link_tag.get() or 0
        if k in self.names:
            self.ids[info.id] = k
        return k if self.names.get(k) == info.client_name else 0

    def server_index(self, server_id):
        return (self.contents.servers.index(server_id) + 1
                if server_id in self.contents.servers else
                0 if server_id is None else
                9 if server_id == 77 else -1)

    async def on_connected(self, info):
        k = self.number(info)
        self.log('srvconn', k=k, id=info.id,
                 token='' if info.client_token is None
                 else 't' + info.client_token,
                 srv=self.server_index(info.server_id),
                 persisted=bool(info.persisted))
        await self.nap(self.cb_delay)
        if info.client_token == 'bad':
            self.log('reject', k=k)
            raise Failure('not allowed')
        self.log('accept', k=k)

    async def on_disconnected(self, info):
        self.log('disc', k=self.number(info), id=info.id)
        await self.nap(self.cb_delay)

    def batch_id(self, events):
        ids = [self.contents.rid(i) for i in events]
        return self.batches.index(ids) + 1 if ids in self.batches else 0

    async def on_register(self, info, events):
        rng = self.rng
        k = self.number(info)
        data = self.batch_id(events)
        self.log('sreq', k=k, kind='register', data=data)
        await self.nap(self.cb_delay)
        if rng.random() < self.p_error:
            self.log('sreqend', k=k, kind='register', data=data, out='error',
                     res=[])
            raise Failure('register')
        if rng.random() < 0.2:
            self.log('sreqend', k=k, kind='register', data=data, out='none',
                     res=[])
            return
        res = [self.contents.new_event() for _ in events]
        self.log('sreqend', k=k, kind='register', data=data, out='ok',
                 res=res)
        return [self.contents.event(i) for i in res]

    async def on_query(self, info, params):
        rng = self.rng
        k = self.number(info)
        data = self.contents.pid(params)
        self.log('sreq', k=k, kind='query', data=data)
        await self.nap(self.cb_delay)
        if rng.random() < self.p_error:
            self.log('sreqend', k=k, kind='query', data=data, out='error',
                     res=[])
            raise Failure('query')
        res = self.contents.new_result()
        self.log('sreqend', k=k, kind='query', data=data, out='ok', res=[res])
        return self.contents.results[res - 1]

    # clients

    async def client(self):
        rng = self.rng
        await asyncio.sleep(rng.random() * self.spread)
        self.n_conns += 1
        k = self.n_conns
        self.n_reqs[k] = 0
        self.names[k] = name = rng.choice([f'client/{k}', f'client/{k}',
                                           'same', 'ž', ''])
        sub = (world.random_subscription(rng, 0.5) if rng.random() < 0.8
               else [])
        srv = rng.choice([0, 0, 0, 1, 2, 3, 9])
        persisted = rng.random() < 0.3
        token = rng.choice([None, None, '', 'abc', 'ž', 'bad'])
        self.log('connect', k=k, sub=sub, srv=srv, persisted=persisted,
                 token='' if token is None else 't' + token)

        async def on_status(client, status):
            self.log('cstat', k=k, s=status.name, cur=client.status.name)
            await self.nap(self.cb_delay)
            if rng.random() < self.p_error:
                self.log('cause', ks=[k])
                raise Failure('status')

        async def on_events(client, events):
            self.log('evcb', k=k, evs=[self.contents.eid(i) for i in events])
            try:
                await self.nap(self.cb_delay)
            except asyncio.CancelledError:
                self.log('evend', k=k, out='cancelled')
                raise
            if rng.random() < self.p_error:
                self.log('evend', k=k, out='error')
                raise Failure('events')
            self.log('evend', k=k, out='ok')

        def sync_events(client, events):
            self.log('evcb', k=k, evs=[self.contents.eid(i) for i in events])
            self.log('evend', k=k, out='ok')

        simloop.link_tag.set(k)
        try:
            client = await eventer.connect(
                tcp.Address('127.0.0.1', port), name,
                client_token=token,
                subscriptions=[tuple(i) for i in sub],
                server_id=(None if srv == 0 else
                           77 if srv == 9 else
                           self.contents.servers[srv - 1]),
                persisted=persisted,
                status_cb=on_status,
                events_cb=(on_events if rng.random() < 0.8 else
                           sync_events))
        except eventer.EventerInitError:
            self.log('connfail', k=k, kind='refused')
            return
        except ConnectionError:
            self.log('connfail', k=k, kind='connection')
            return
        except Exception as e:
            self.log('connfail', k=k, kind='other', exc=repr(e))
            return
        self.log('opened', k=k, s=client.status.name)
        self.clients[k] = client
        self.tasks.append(self.loop.create_task(self.watch(k, client)))

        for _ in range(rng.randrange(1, 4)):
            self.tasks.append(self.loop.create_task(
                self.requests(k, client, rng.choice([1, 2, 4]))))

    async def watch(self, k, client):
        await client.wait_closing()
        self.log('cended', k=k)

    async def requests(self, k, client, n):
        rng = self.rng
        for _ in range(n):
            if rng.random() < 0.9:
                await asyncio.sleep(rng.random() * self.spread)
            if rng.random() < self.p_cancel:
                task = self.loop.create_task(self.request(k, client))
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.random() * 0.5)
                    task.cancel()
                else:
                    # at about the same time as the answer arrives
                    self.cancels.append((k, task))
                await asyncio.wait([task])
            elif rng.random() < 0.4:
                self.tasks.append(self.loop.create_task(
                    self.request(k, client)))
            else:
                await self.request(k, client)

    async def request(self, k, client):
        rng = self.rng
        self.n_reqs[k] += 1
        r = self.n_reqs[k]
        kind = rng.choice(['register', 'register', 'query'])
        resp = True
        if kind == 'register':
            ids = [self.contents.new_register()
                   for _ in range(rng.choice([1, 1, 2, 3]))]
            self.batches.append(ids)
            data = len(self.batches)
            resp = rng.random() < 0.6
            events = [self.contents.register(i) for i in ids]

            async def call():
                return await client.register(events, resp)
        else:
            data = self.contents.new_params()

            async def call():
                return await client.query(self.contents.param(data))
        self.log('req', k=k, kind=kind, data=data, resp=resp)
        try:
            res = await call()
        except asyncio.CancelledError:
            self.log('reqend', k=k, r=r, out='cancelled', res=[])
            return
        except ConnectionError:
            self.log('reqend', k=k, r=r, out='connection', res=[])
            return
        except Exception as e:
            self.log('reqend', k=k, r=r, out='other', res=[], exc=repr(e))
            return
        if kind == 'query':
            out, res = 'ok', [self.contents.res_id(res)]
        elif not resp:
            out, res = ('sent' if res is None else 'other'), []
        elif res is None:
            out, res = 'none', []
        else:
            out, res = 'ok', [self.contents.eid(i) for i in res]
        self.log('reqend', k=k, r=r, out=out, res=res)

    # server

    async def announce(self, n):
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(0.001 + rng.random() * self.spread)
            evs = [self.contents.new_event()
                   for _ in range(rng.choice([1, 1, 2, 3, 6]))]
            persisted = rng.random() < 0.3
            ack = rng.random() < (0.8 if self.focus == 'P04' else 0.3)
            self.n_anns += 1
            i = self.n_anns
            self.log('announce', evs=evs, persisted=persisted, ack=ack)
            coro = self.do_announce(i, [self.contents.event(j) for j in evs],
                                    persisted, ack)
            if ack and rng.random() < 0.6:
                # others are announced after this one is sent
                self.tasks.append(self.loop.create_task(coro))
            else:
                await coro

    async def do_announce(self, i, events, persisted, ack):
        try:
            await self.server.notify_events(events, persisted, ack)
        except asyncio.CancelledError:
            self.log('annend', n=i, out='cancelled')
        except Exception as e:
            self.log('annend', n=i, out='error', exc=repr(e))
        else:
            self.log('annend', n=i, out='ok')

    async def change_status(self, n):
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(rng.choice([0, rng.random() * self.spread]))
            s = rng.choice(sorted(statuses))
            self.log('setstatus', s=s)
            await self.server.set_status(statuses[s])

    async def faults(self, n):
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(rng.random() * self.spread * 2)
            kind = rng.randrange(3)
            if kind == 0 and self.clients:
                k = rng.choice(sorted(self.clients))
                self.log('cause', ks=[k])
                self.clients[k].close()
                self.log('cended', k=k)
            elif self.loop.net.links:
                link = rng.choice(self.loop.net.links)
                self.log('cause', ks=[link.tag])
                if kind == 1:
                    link.cut()
                else:
                    link.cut_side(rng.random() < 0.5)

    # run

    async def main(self, loop):
        rng = self.rng
        self.loop = loop
        self.n_anns = 0
        status = rng.choice(sorted(statuses))
        self.status = status
        self.server = await eventer.listen(
            tcp.Address('127.0.0.1', port),
            status=statuses[status],
            connected_cb=self.on_connected,
            disconnected_cb=self.on_disconnected,
            register_cb=self.on_register,
            query_cb=self.on_query)

        work = [self.client() for _ in range(rng.randrange(1, 5))]
        work.append(self.announce(rng.choice([0, 3, 6, 10])))
        work.append(self.change_status(rng.choice([0, 2, 5])))
        if self.p_fault:
            work.append(self.faults(rng.choice([1, 2, 3])))
        work = [loop.create_task(i) for i in work]
        early = rng.random() < 0.2
        if early:
            await asyncio.sleep(rng.random() * self.spread)
        else:
            await asyncio.wait(work, timeout=1000)
            await asyncio.sleep(200)
            self.log('quiet', clients=[
                [k, self.clients[k].status.name,
                 self.clients[k].is_open]
                for k in sorted(self.clients)],
                infos=sorted(self.number(i)
                             for i in self.server.get_conn_infos()))

        self.log('srvclose')
        self.server.close()
        await asyncio.wait([loop.create_task(self.server.wait_closed())],
                           timeout=1000)
        await asyncio.wait(work, timeout=1000)
        for _ in range(5):
            if self.tasks:
                await asyncio.wait(self.tasks, timeout=1000)
        for i in work + self.tasks:
            if i.done():
                i.result()
        self.log('closed', closed=self.server.is_closed)
        self.finished = True


def run_one(seed, index, focus, scratch):
    run = Run(seed, focus)
    outcome, value, loop = simloop.run(run.main, run.rng,
                                       configure=run.configure)
    if outcome == 'error':
        raise value
    if not run.finished:
        run.log('closed', closed=False)
    return {'events': run.contents.records, 'status': run.status,
            'lines': run.lines, 'seed': seed, 'focus': focus}
