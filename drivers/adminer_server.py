"""Histories of the event server's adminer (AdminerServerTrace.tla)"""

import asyncio
import logging.config
import random

from hv import simloop

from hat import json
from hat.drivers import tcp

from hat.event import adminer
from hat.event.server import adminer_server

from drivers.adminer import random_json


port = 23015

name = 'hv.adminer'


class Run:

    def __init__(self, seed, focus):
        self.rng = rng = random.Random(f'{seed}/{focus}')
        self.lines = []
        self.contents = [json.encode(rng.choice([
            None, {'version': 1}, {'version': 1, 'loggers': {}}]))]
        self.n_reqs = 0
        self.spread = rng.choice([0.05, 0.5, 2])
        self.net_delay = rng.choice([0, 0.001, 0.1, 1])
        self.p_cancel = rng.choice([0, 0, 0.1])
        self.p_bad = rng.choice([0, 0.2, 0.5])
        self.p_cut = rng.choice([0, 0, 0.1])
        self.finished = False

    def log(self, op, **kwargs):
        self.lines.append({'op': op, **kwargs})

    def configure(self, loop):
        rng = random.Random(self.rng.random())
        base = self.net_delay
        loop.net.delay = lambda: base * rng.random()

    def new_conf(self):
        rng = self.rng
        n = len(self.contents) + 1
        ok = rng.random() >= self.p_bad
        if ok:
            conf = {'version': 1, 'disable_existing_loggers': False,
                    'loggers': {name: {'level': 100 + n}}}
            if rng.random() < 0.5:
                conf['extra'] = random_json(rng)
        else:
            conf = rng.choice([
                {'n': n}, {'version': 2, 'n': n}, f'abc{n}', [n], n,
                {'n': n, 'version': 1,
                 'formatters': {'a': {'()': 'hv.missing'}},
                 'loggers': {name: {'level': 100 + n}}}])
        self.contents.append(json.encode(conf))
        return n, conf, ok

    def content_id(self, data):
        key = json.encode(data)
        return self.contents.index(key) + 1 if key in self.contents else -1

    def requests(self):
        """What is known of requests, from lines"""
        seen = {i['v'] for i in self.lines if i['op'] == 'logging'}
        seen.update(i['res'] for i in self.lines if i['op'] == 'reqend')
        result = []
        for i in self.lines:
            if i['op'] == 'req':
                result.append({'out': '', 'res': -1, 'seen': i['v'] in seen})
            elif i['op'] == 'reqend':
                result[i['r'] - 1].update(out=i['out'], res=i['res'])
        return result

    def check_logging(self):
        level = logging.getLogger(name).level
        self.log('logging', v=max(level - 100, 0))

    async def client(self, n):
        rng = self.rng
        await asyncio.sleep(rng.random() * self.spread)
        client = await adminer.connect(tcp.Address('127.0.0.1', port))
        tasks = []
        for _ in range(n):
            await asyncio.sleep(rng.random() * self.spread)
            task = self.loop.create_task(self.request(client))
            if rng.random() < self.p_cancel:
                await asyncio.sleep(rng.random() * 0.5)
                task.cancel()
            if rng.random() < 0.7:
                await asyncio.wait([task])
            else:
                tasks.append(task)
            if rng.random() < 0.3:
                self.check_logging()
            if rng.random() < self.p_cut:
                rng.choice(self.loop.net.links).cut()
        if tasks:
            await asyncio.wait(tasks)
        await client.async_close()

    async def request(self, client):
        self.n_reqs += 1
        r = self.n_reqs
        if self.rng.random() < 0.5:
            v, conf, ok = self.new_conf()
            self.log('req', r=r, kind='set', v=v, ok=ok)

            async def call():
                await client.set_log_conf(conf)
                return 0
        else:
            self.log('req', r=r, kind='get', v=0, ok=True)

            async def call():
                return self.content_id(await client.get_log_conf())
        out, res = 'ok', 0
        try:
            res = await call()
        except asyncio.CancelledError:
            out = 'cancelled'
        except adminer.AdminerError:
            out = 'error'
        except ConnectionError:
            out = 'connection'
        self.log('reqend', r=r, out=out, res=res)

    async def main(self, loop):
        rng = self.rng
        self.loop = loop
        logging.getLogger(name).setLevel(0)
        server = await adminer_server.create_adminer_server(
            tcp.Address('127.0.0.1', port), json.decode(self.contents[0]))
        tasks = [loop.create_task(self.client(rng.choice([1, 3, 5])))
                 for _ in range(rng.randint(1, 3))]
        await asyncio.wait(tasks, timeout=1000)
        await asyncio.sleep(10)
        self.check_logging()
        try:
            client = await adminer.connect(tcp.Address('127.0.0.1', port))
            await self.request(client)
            self.check_logging()
            await client.async_close()
        except ConnectionError:
            self.log('refused')
        await server.async_close()
        self.finished = True


def run_one(seed, index, focus, scratch):
    run = Run(seed, focus)
    outcome, value, loop = simloop.run(run.main, run.rng,
                                       configure=run.configure)
    if outcome == 'error':
        raise value
    if not run.finished:
        run.log('stuck')
    return {'lines': run.lines, 'reqs': run.requests(), 'seed': seed, 'focus': focus}
