"""Concurrent and faulty histories of the LMDB backend (StorageFault.tla)"""

from pathlib import Path
import asyncio
import random
import shutil
import tempfile

import lmdb

from hv import lmdbproxy
from hv import simloop

from hat import aio

from hat.event import common
from hat.event.backends.lmdb import info

from drivers import storage
from drivers import world


stride = 1000


class Run:

    def __init__(self, seed, base, focus, scratch):
        self.rng = random.Random(f'{seed}/{focus}')
        self.focus = focus
        self.scratch = scratch
        self.w = world.World(self.rng, base)
        self.lines = []
        self.ctl = lmdbproxy.Controller()
        self.snapshots = []      # (line, path)
        self.backend = None
        self.next_flush = 1
        self.next_query = 1
        self.n_batches = 0
        self.snapshot_hashes = set()
        self.max_snapshots = 10
        self.reopening = False
        rng = self.rng
        parts = rng.choice([
            [('T', [['*']])],
            [('T', [['*']]), ('S', [['*']])],
            [('S', [['*']])],
            [('T', [['a', '*']]), ('T', [['b', '*']]), ('S', [['a', '*']])],
            []])
        parts = [{'order': order, 'subs': subs, 'min': -1, 'max': -1,
                  'dur': -1} for order, subs in parts]
        if focus == 'S01' and rng.random() < 0.4:
            for i in parts:
                if rng.random() < 0.7:
                    i['max'] = rng.randrange(1, 6)
        self.conf = storage.Conf(self.w, rng, parts=parts,
                                 identifier=rng.choice([None, 'x']),
                                 latest=rng.choice([[['*']], [['*']], [],
                                                    [['a', '*']]]))
        self.gen = storage.Gen(self.w, rng, servers=rng.choice([1, 2]),
                               types=[['a'], ['b'], ['a', 'b'], ['b', 'c'],
                                      ['c']][:rng.randrange(1, 6)])
        self.gen.slack = rng.choice([0.0, 0.05])

    def log(self, op, exc=None, **kwargs):
        self.lines.append({'op': op, 'exc': '' if exc is None else
                           (exc if isinstance(exc, str) else
                            type(exc).__name__), **kwargs})

    # crash snapshots

    def snapshot(self):
        """Process could have been killed now"""
        if self.reopening or not self.db_path.exists():
            return
        data = self.db_path.read_bytes()
        key = (hash(data), len(self.lines))
        if key in self.snapshot_hashes:
            return
        self.snapshot_hashes.add(key)
        path = self.db_path.parent / f'snapshot{len(self.snapshots)}'
        path.write_bytes(data)
        line = {'op': 'crash', 'exc': ''}
        self.lines.append(line)
        self.snapshots.append((line, path))

    def on_commit(self, stage):
        if stage == 'before' and self.fail_commit is not None:
            self.fail_commit -= 1
            if self.fail_commit < 0:
                self.fail_commit = None
                self.log('fault')
                raise lmdb.DiskError('simulated')
        if (stage == 'after' and self.focus == 'S01' and
                len(self.snapshots) < self.max_snapshots):
            if self.rng.random() < self.snapshot_p:
                self.snapshot()

    def on_write(self):
        if self.fail_write is None:
            return
        self.fail_write -= 1
        if self.fail_write < 0:
            self.fail_write = None
            self.log('fault')
            raise lmdb.MapFullError('simulated')

    # callbacks

    async def on_registered(self, events):
        self.log('regcb', batch=[self.w.eid(i) for i in events])
        if self.cb_delay:
            await asyncio.sleep(self.rng.choice([0, self.cb_delay]))

    async def on_flushed(self, events):
        self.log('flushcb', batch=[self.w.eid(i) for i in events])
        if (self.focus in ('S01', 'S10') and
                len(self.snapshots) < self.max_snapshots and
                self.rng.random() < 0.3):
            self.snapshot()
        if self.cb_delay:
            await asyncio.sleep(self.rng.choice([0, self.cb_delay]))

    # concurrent operations

    async def op_register(self):
        batch = self.gen.batch()
        events = [self.w.get(i) for i in batch]
        if not self.backend.is_open:
            await self.closed_call('register', events)
            return
        self.n_batches += 1
        b = self.n_batches
        self.log('regstart', batch=batch)
        exc = None
        res = []
        try:
            result = await self.backend.register(events)
            res = ([self.w.eid(i) for i in result] if result is not None
                   else [-1])
        except Exception as e:
            exc = e
        self.log('regend', exc, b=b, res=res)

    async def op_flush(self):
        f = self.next_flush
        self.next_flush += 1
        self.log('flushstart', f=f)
        exc = None
        try:
            await self.backend.flush()
        except Exception as e:
            exc = e
        self.log('flushend', exc, f=f)
        if (exc is None and self.focus in ('S01', 'S12') and
                len(self.snapshots) < self.max_snapshots and
                self.rng.random() < 0.3):
            self.snapshot()

    async def op_query(self):
        q = self.next_query
        self.next_query += 1
        if not self.backend.is_open:
            await self.closed_call('query', common.QueryLatestParams())
            return
        rng = self.rng
        if rng.random() < 0.7:
            helper = storage.Run.__new__(storage.Run)
            helper.rng, helper.w, helper.gen = rng, self.w, self.gen
            data, kwargs = helper.ts_params()
            max_results = rng.choice([None, None, 1, 2, 5])
            params = common.QueryTimeseriesParams(max_results=max_results,
                                                  **kwargs)
            data['kind'] = 'ts'
        else:
            srv = rng.randrange(self.gen.n_servers)
            max_results = rng.choice([None, None, 1, 2, 5])
            params = common.QueryServerParams(
                server_id=self.w.servers[srv], persisted=True,
                max_results=max_results)
            data = {'kind': 'srv', 'srv': srv}
        data['max'] = -1 if max_results is None else max_results
        self.log('qstart', q=q)
        exc = None
        res, more = [], False
        try:
            result = await self.backend.query(params)
            res = [self.w.eid(i) for i in result.events]
            more = bool(result.more_follows)
        except Exception as e:
            exc = e
        self.log('qend', exc, q=q, res=res, more=more, **data)

    async def closed_call(self, name, *args):
        exc = None
        try:
            await getattr(self.backend, name)(*args)
        except Exception as e:
            exc = e
        self.log('closedcall', exc)

    # scenario

    def backend_conf(self):
        return self.conf.concrete(self.w, self.db_path,
                                  flush_period=self.flush_period,
                                  cleanup_period=self.cleanup_period)

    async def open(self):
        backend = await aio.call(info.create, self.backend_conf(),
                                 self.on_registered, self.on_flushed)
        return backend

    async def scenario(self, loop):
        rng = self.rng
        focus = self.focus
        self.loop = loop
        self.fail_commit = None
        self.fail_write = None
        self.snapshot_p = rng.choice([0.1, 0.4, 1])
        self.cb_delay = rng.choice([0, 0, 0.01, 0.3])
        self.flush_period = rng.choice([0.05, 0.2, 1, 1000])
        self.cleanup_period = rng.choice([0.05, 0.3, 1000])
        fault = {'S01': 0.5, 'S10': 0.35, 'S12': 0.5, 'S05': 0}[focus]
        fault = rng.random() < fault
        self.db_path = Path(tempfile.mkdtemp(dir=self.scratch)) / 'db'
        self.ctl.on_commit = self.on_commit
        self.ctl.on_write = self.on_write

        with lmdbproxy.installed(self.ctl):
            self.backend = await self.open()
            n_runs = rng.choice([1, 1, 2, 3])
            for i in range(n_runs):
                is_last = i == n_runs - 1
                await self.phase(fault and is_last)
                if not is_last:
                    exc = None
                    try:
                        self.backend = await self.open()
                    except Exception as e:
                        exc = e
                    self.log('reopened', exc)
                    if exc is not None:
                        break

        # final state has to be correct even after a fault
        self.snapshot()
        self.ctl.on_commit = self.ctl.on_write = None
        await self.evaluate_snapshots()

    async def phase(self, fault):
        rng = self.rng
        group = aio.Group()
        weights = {'S01': (8, 2, 0), 'S10': (8, 3, 0), 'S12': (5, 6, 0),
                   'S05': (6, 1, 6)}[self.focus]
        n = rng.randrange(4, 18)
        fault_at = rng.randrange(n) if fault else None
        concurrent = rng.choice([0.0, 0.5, 1.0])
        for i in range(n):
            if i == fault_at:
                if rng.random() < 0.5:
                    self.fail_commit = rng.randrange(3)
                else:
                    self.fail_write = rng.randrange(12)
            fn = rng.choices([self.op_register, self.op_flush, self.op_query],
                             weights)[0]
            if not self.backend.is_open and rng.random() < 0.7:
                break
            if fn == self.op_flush and not self.backend.is_open:
                await self.closed_call('flush')
                continue
            task = group.spawn(fn)
            if rng.random() >= concurrent:
                await asyncio.wait([task])
            await asyncio.sleep(rng.choice([0, 0, 0.01, 0.03, 0.3]))
        if rng.random() < 0.5:
            await asyncio.sleep(rng.choice([0.1, 1, 3]))
        tasks = list(group._tasks) if hasattr(group, '_tasks') else []
        if rng.random() < 0.5:
            # close with calls in progress
            pass
        elif tasks:
            await asyncio.wait(tasks)

        self.log('closing')
        exc = None
        try:
            await self.backend.async_close()
        except Exception as e:
            exc = e
        # calls in progress have to terminate
        tasks = list(group._tasks) if hasattr(group, '_tasks') else []
        if tasks:
            _, pending = await asyncio.wait(tasks, timeout=100)
            for _ in pending:
                self.log('hang')
        self.log('closed', exc)
        for name, args in [('flush', []),
                           ('register', [[]]),
                           ('query', [common.QueryLatestParams()]),
                           ('get_last_event_id', [1])]:
            if rng.random() < 0.3:
                await self.closed_call(name, *args)

    async def evaluate_snapshots(self):
        self.reopening = True
        for line, path in self.snapshots:
            line.update(await self.reopen(path))

    async def reopen(self, path):
        """Answers of the backend opened on the copy"""
        answer = {'ok': False, 'last': [], 'latest': [], 'ts': [], 'srv': []}
        conf = self.conf.concrete(self.w, path, flush_period=1000,
                                  cleanup_period=1000)
        # cleanup would hide what was persisted
        for i in conf['timeseries']:
            i.pop('limit', None)
        try:
            backend = await aio.call(info.create, conf, None, None)
            for srv in range(self.gen.n_servers):
                event_id = await backend.get_last_event_id(
                    self.w.servers[srv])
                answer['last'].append(self.w.abs_id(event_id))
                result = await backend.query(common.QueryServerParams(
                    server_id=self.w.servers[srv]))
                answer['srv'].append([self.w.eid(i) for i in result.events])
            result = await backend.query(common.QueryLatestParams())
            answer['latest'] = [self.w.eid(i) for i in result.events]
            for part in self.conf.parts:
                result = await backend.query(common.QueryTimeseriesParams(
                    event_types=[tuple(i) for i in part['subs']],
                    order_by=(common.OrderBy.TIMESTAMP if part['order'] == 'T'
                              else common.OrderBy.SOURCE_TIMESTAMP)))
                answer['ts'].append([self.w.eid(i) for i in result.events])
            await backend.async_close()
            answer['ok'] = True
        except Exception as e:
            answer['exc'] = type(e).__name__
        return answer


class InitRun(Run):
    """Crash during the first creation of the database"""

    async def scenario(self, loop):
        rng = self.rng
        self.loop = loop
        self.fail_commit = self.fail_write = None
        self.snapshot_p = 1
        self.max_snapshots = 40
        self.cb_delay = 0
        self.flush_period = self.cleanup_period = 1000
        self.db_path = Path(tempfile.mkdtemp(dir=self.scratch)) / 'db'
        self.ctl.on_commit = self.on_commit
        self.ctl.on_write = self.on_write
        failed = False
        if rng.random() < 0.5:
            if rng.random() < 0.5:
                self.fail_write = rng.randrange(4)
            else:
                self.fail_commit = rng.randrange(3)
        with lmdbproxy.installed(self.ctl):
            try:
                self.backend = await self.open()
                await self.backend.async_close()
                self.log('closing')
                self.log('closed')
            except Exception:
                failed = True
        if failed and self.lines:
            self.snapshot()
        elif failed:
            self.log('hang')
        self.ctl.on_commit = self.ctl.on_write = None
        await self.evaluate_snapshots()


def run_one(seed, index, focus, scratch):
    storage.tune(random.Random(f'{seed}/{focus}/tune'))
    base = (index + 1) * stride
    cls = InitRun if focus == 'S01' and index % 16 == 7 else Run
    run = cls(seed, base, focus, scratch)
    rng = random.Random(f'{seed}/{focus}/loop')

    def configure(loop):
        delays = rng.choice([[0], [0, 0.001], [0.001, 0.02, 0.1]])
        loop.exec_delay = lambda: rng.choice(delays)

    with simloop.patched_clock(lambda: 1_700_000_000.0):
        outcome, value, loop = simloop.run(run.scenario, run.rng,
                                           configure=configure)
    if hasattr(run, 'db_path'):
        shutil.rmtree(run.db_path.parent, ignore_errors=True)
    if outcome == 'error':
        raise value
    if outcome != 'ok':
        run.lines = [i for i in run.lines if i['op'] != 'crash']
        run.log('hang')
    return {'events': run.w.events or [{}], 'lines': run.lines,
            'conf': run.conf.abstract(), 'seed': seed, 'focus': focus}
