"""Histories of an adminer server and its clients (AdminerTrace.tla)"""

import asyncio
import random

from hv import simloop

from hat import json
from hat.drivers import tcp

from hat.event import adminer


class Failure(Exception):
    pass


port = 23014


def random_json(rng, depth=2):
    kind = rng.randrange(9 if depth else 7)
    if kind < 2:
        return rng.choice([None, True, False])
    if kind == 2:
        return rng.choice([0, 1, -1, 2 ** 31, 2 ** 63, -2 ** 70])
    if kind == 3:
        return rng.choice([0.5, 1e100, -1e-7])
    if kind < 6:
        return rng.choice(['', 'a', 'žć', '\0', '\U0001f600', '"\\\n', 'null'])
    if kind == 6:
        return 'x' * rng.choice([10, 300, 70000])
    if kind == 7:
        return [random_json(rng, depth - 1) for _ in range(rng.randrange(4))]
    return {rng.choice(['', 'a', 'ž', '1', 'x y']): random_json(rng, depth - 1)
            for _ in range(rng.randrange(4))}


class Run:

    def __init__(self, seed, focus):
        self.rng = rng = random.Random(f'{seed}/{focus}')
        self.lines = []
        self.contents = []
        self.texts = []
        self.n_conns = 0
        self.n_reqs = 0
        self.n_calls = 0
        self.clients = {}
        self.tasks = []
        self.cancels = []
        self.spread = rng.choice([0.05, 0.5, 2])
        self.cb_delay = rng.choice([0, 0, 0.1, 1])
        self.net_delay = rng.choice([0, 0.001, 0.1, 1])
        self.p_fault = rng.choice([0, 0, 0.5])
        self.p_error = rng.choice([0, 0.1, 0.3])
        self.p_cancel = rng.choice([0, 0, 0.1, 0.3])
        self.sync = rng.random() < 0.3
        self.missing = rng.choice([[], [], [], [], ['get'], ['set'],
                                   ['get', 'set']])
        self.finished = False

    def log(self, op, **kwargs):
        self.lines.append({'op': op, **kwargs})

    async def nap(self, limit):
        if limit and self.rng.random() < 0.8:
            await asyncio.sleep(self.rng.random() * limit)
        elif self.rng.random() < 0.5:
            await asyncio.sleep(0)

    def configure(self, loop):
        rng = random.Random(self.rng.random())
        base = self.net_delay
        loop.net.delay = lambda: base * rng.random()
        if rng.random() < 0.3:
            def chunk(data):
                i = rng.randrange(1, len(data))
                return [data[:i], data[i:]]
            loop.net.chunk = chunk
        loop.net.on_client_data = self.on_client_data

    def on_client_data(self, link):
        for i in list(self.cancels):
            if i[0] == link.tag:
                self.cancels.remove(i)
                self.tasks.append(self.loop.create_task(self.cancel(i[1])))

    async def cancel(self, task):
        for _ in range(self.rng.randrange(6)):
            await asyncio.sleep(0)
        task.cancel()

    # contents

    def new_content(self):
        while True:
            # most of contents are alike
            data = random_json(self.rng)
            if self.rng.random() < 0.7:
                data = [data, len(self.contents)]
            key = json.encode(data)
            if key not in self.contents:
                break
        self.contents.append(key)
        return len(self.contents), data

    def content_id(self, data):
        key = json.encode(data)
        return self.contents.index(key) + 1 if key in self.contents else -1

    def new_text(self):
        while True:
            text = self.rng.choice(['', 'abc', 'ž', 'x' * 1000, 'a\nb',
                                    f'n {len(self.texts)}',
                                    f'n {len(self.texts)}'])
            if text not in self.texts:
                break
        self.texts.append(text)
        return 1000 + len(self.texts), text

    def text_id(self, text):
        return 1001 + self.texts.index(text) if text in self.texts else -1

    # server

    def begin(self, kind, v):
        self.n_calls += 1
        self.log('call', n=self.n_calls, kind=kind, v=v)
        return self.n_calls

    def finish(self, n, kind):
        rng = self.rng
        if rng.random() < self.p_error:
            res, text = self.new_text()
            self.log('return', n=n, out='error', res=res)
            raise rng.choice([Failure, ValueError, ConnectionError])(text)
        if kind == 'set':
            self.log('return', n=n, out='ok', res=0)
            return rng.choice([None, None, 1, 'abc'])
        if rng.random() < self.p_error * 0.3:
            # not a json data
            self.log('return', n=n, out='error', res=-1)
            return object()
        res, data = self.new_content()
        self.log('return', n=n, out='ok', res=res)
        return data

    async def on_get(self):
        n = self.begin('get', 0)
        await self.nap(self.cb_delay)
        return self.finish(n, 'get')

    async def on_set(self, conf):
        n = self.begin('set', self.content_id(conf))
        await self.nap(self.cb_delay)
        return self.finish(n, 'set')

    def on_get_sync(self):
        return self.finish(self.begin('get', 0), 'get')

    def on_set_sync(self, conf):
        return self.finish(self.begin('set', self.content_id(conf)), 'set')

    # clients

    async def client(self):
        rng = self.rng
        await asyncio.sleep(rng.random() * self.spread)
        self.n_conns += 1
        c = self.n_conns
        simloop.link_tag.set(c)
        try:
            client = await adminer.connect(tcp.Address('127.0.0.1', port))
        except Exception:
            return
        self.clients[c] = client
        self.tasks.append(self.loop.create_task(self.watch(c, client)))
        if rng.random() < 0.2:
            await self.request(c, client)
        for _ in range(rng.randrange(1, 4)):
            self.tasks.append(self.loop.create_task(
                self.requests(c, client, rng.choice([1, 2, 4]))))

    async def watch(self, c, client):
        await client.wait_closing()
        self.log('ended', c=c)

    async def requests(self, c, client, n):
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(rng.choice([0, rng.random() * self.spread]))
            if rng.random() < self.p_cancel:
                task = self.loop.create_task(self.request(c, client))
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.random() * 0.5)
                    task.cancel()
                else:
                    # at about the same time as the answer arrives
                    self.cancels.append((c, task))
                await asyncio.wait([task])
            elif rng.random() < 0.5:
                self.tasks.append(self.loop.create_task(
                    self.request(c, client)))
            else:
                await self.request(c, client)

    async def request(self, c, client):
        rng = self.rng
        self.n_reqs += 1
        r = self.n_reqs
        kind = rng.choice(['get', 'set'])
        v, data = self.new_content() if kind == 'set' else (0, None)
        self.log('req', r=r, c=c, kind=kind, v=v)
        out, res = 'ok', 0
        try:
            if kind == 'set':
                await client.set_log_conf(data)
            else:
                res = self.content_id(await client.get_log_conf())
        except asyncio.CancelledError:
            out = 'cancelled'
        except adminer.AdminerError as e:
            out, res = 'error', self.text_id(str(e))
        except ConnectionError:
            out = 'connection'
        except Exception:
            out = 'other'
        self.log('reqend', r=r, out=out, res=res)

    async def faults(self, n):
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(rng.random() * self.spread * 2)
            kind = rng.randrange(4)
            if kind == 0 and self.clients:
                c = rng.choice(sorted(self.clients))
                self.log('cause', c=c)
                self.clients[c].close()
            elif self.loop.net.links:
                link = rng.choice(self.loop.net.links)
                self.log('cause', c=link.tag)
                if kind == 1:
                    link.cut()
                else:
                    link.cut_side(rng.random() < 0.5)

    async def main(self, loop):
        rng = self.rng
        self.loop = loop
        self.server = await adminer.listen(
            tcp.Address('127.0.0.1', port),
            get_log_conf_cb=(None if 'get' in self.missing else
                             self.on_get_sync if self.sync else self.on_get),
            set_log_conf_cb=(None if 'set' in self.missing else
                             self.on_set_sync if self.sync else self.on_set))
        work = [self.client() for _ in range(rng.randrange(1, 4))]
        if self.p_fault:
            work.append(self.faults(rng.choice([1, 2, 3])))
        work = [loop.create_task(i) for i in work]
        if rng.random() < 0.2:
            await asyncio.sleep(rng.random() * self.spread)
        else:
            await asyncio.wait(work, timeout=1000)
            await asyncio.sleep(200)
            self.log('quiet', open=self.server.is_open)

        self.log('srvclose')
        self.server.close()
        await asyncio.wait([loop.create_task(self.server.wait_closed())],
                           timeout=1000)
        await asyncio.wait(work, timeout=1000)
        for _ in range(5):
            if self.tasks:
                await asyncio.wait(self.tasks, timeout=1000)
        if self.clients:
            # requests of ended connections fail
            c = rng.choice(sorted(self.clients))
            await asyncio.wait([loop.create_task(
                self.request(c, self.clients[c]))], timeout=1000)
        self.log('closed', closed=self.server.is_closed)
        self.finished = True


def run_one(seed, index, focus, scratch):
    run = Run(seed, focus)
    outcome, value, loop = simloop.run(run.main, run.rng,
                                       configure=run.configure)
    if outcome == 'error':
        raise value
    if not run.finished:
        run.log('closed', closed=False)
    return {'missing': run.missing, 'lines': run.lines, 'seed': seed,
            'focus': focus}
