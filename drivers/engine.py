"""Histories of the event server engine (EngineTrace.tla)"""

import asyncio
import json
import random
import sys
import types

from hv import simloop

from hat import aio

from hat.event import common
from hat.event.server import engine as engine_module

from drivers import world


source_types = {common.SourceType.EVENTER: 'EVENTER',
                common.SourceType.MODULE: 'MODULE',
                common.SourceType.ENGINE: 'ENGINE',
                common.SourceType.SERVER: 'SERVER'}

base_clock = 1_700_000_000


class Failure(Exception):
    pass


class Backend(common.Backend):

    def __init__(self, run):
        self._run = run
        self._async_group = aio.Group()

    @property
    def async_group(self):
        return self._async_group

    async def get_last_event_id(self, server_id):
        await self._run.nap(0.5)
        return common.EventId(server_id, self._run.first_session,
                              self._run.first_instance)

    async def register(self, events):
        run = self._run
        events = list(events)
        run.log('breg', evs=[run.ev(i) for i in events])
        try:
            await run.nap(run.backend_delay)
        except asyncio.CancelledError:
            run.log('bregend', out='error')
            raise
        x = run.rng.random()
        if x < run.p_backend_error:
            run.log('bregend', out='error')
            raise Failure('backend')
        if x < run.p_backend_error + run.p_backend_none:
            run.log('bregend', out='none')
            return
        run.log('bregend', out='ok')
        return events

    async def query(self, params):
        run = self._run
        run.seen_queries.append(['query', params.server_id])
        await run.nap(0.2)
        if params.server_id % 5 == 0:
            raise Failure('query')
        return common.QueryResult([], run.results[params.server_id])

    async def flush(self):
        pass


class Module(common.Module):

    def __init__(self, run, m):
        self._run = run
        self._m = m
        self._async_group = aio.Group()
        self._subscription = common.create_subscription(
            tuple(i) for i in run.mods[m - 1])
        rng = run.rng
        if rng.random() < 0.5:
            self.on_session_start = self._sync_start
            self.on_session_stop = self._sync_stop
        else:
            self.on_session_start = self._async_start
            self.on_session_stop = self._async_stop
        self.process = (self._sync_process if rng.random() < 0.3 else
                        self._async_process)

    def process(self, source, event):
        raise NotImplementedError()

    @property
    def async_group(self):
        return self._async_group

    @property
    def subscription(self):
        return self._subscription

    def _session(self, op, session_id):
        run = self._run
        run.log(op, m=self._m, sess=run.session(session_id))
        if run.rng.random() < run.p_session_error:
            run.log('procfail', m=self._m)
            raise Failure('session')

    def _sync_start(self, session_id):
        self._session('sstart', session_id)

    def _sync_stop(self, session_id):
        self._session('sstop', session_id)

    async def _async_start(self, session_id):
        self._session('sstart', session_id)
        await self._run.nap(self._run.module_delay)

    async def _async_stop(self, session_id):
        self._session('sstop', session_id)
        await self._run.nap(self._run.module_delay)

    def _begin(self, source, event):
        self._run.log('proc', m=self._m, src=self._run.src(source),
                      ev=self._run.ev(event))

    def _end(self, event):
        run = self._run
        rng = run.rng
        if rng.random() < run.p_process_error:
            run.log('procfail', m=self._m)
            raise Failure('process')
        outs = []
        if rng.random() < run.p_output:
            for _ in range(rng.choice([1, 1, 2, 3])):
                if run.output_budget > 0:
                    run.output_budget -= 1
                    outs.append(run.new_content())
        run.log('procend', m=self._m, outs=outs)
        events = [run.register_events[i - 1] for i in outs]
        if not events and rng.random() < 0.5:
            return
        kind = rng.randrange(3)
        return (events if kind == 0 else
                tuple(events) if kind == 1 else
                list(events))

    def _sync_process(self, source, event):
        self._begin(source, event)
        return self._end(event)

    async def _async_process(self, source, event):
        self._begin(source, event)
        await self._run.nap(self._run.module_delay)
        return self._end(event)


class EventerServer:

    def __init__(self, run):
        self._run = run

    def get_client_names(self):
        run = self._run
        run.seen.append(['names', 0])
        for n in run.names:
            yield (common.Source(common.SourceType.EVENTER, n), f'c{n}')


class Run:

    def __init__(self, seed, focus):
        self.rng = rng = random.Random(f'{seed}/{focus}')
        self.focus = focus
        self.lines = []
        self.contents = []
        self.register_events = []
        self.payloads = {}
        self.next_r = 2
        self.server_id = rng.choice([0, 1, 2, 1000, 2 ** 40])
        self.first_session = rng.choice([0, 0, 1, 5, 255, 2 ** 40])
        self.first_instance = (0 if not self.first_session else
                               rng.choice([1, 1, 3, 100]))
        self.mono = rng.random() < 0.85
        n_mods = (rng.choice([1, 2, 2, 3, 3]) if focus == 'E02' else
                  rng.choice([0, 0, 1, 2, 3]))
        self.mods = [world.random_subscription(rng, 0.4)
                     for _ in range(n_mods)]
        for i in self.mods:
            if rng.random() < 0.2:
                i.append(['event', '?', '*'])
        self.backend_delay = rng.choice([0, 0.1, 1])
        self.module_delay = rng.choice([0, 0, 0.1, 0.5])
        self.p_output = rng.choice([0, 0.3, 0.5, 0.8])
        self.output_budget = rng.choice([0, 3, 10, 20])
        self.queue_size = rng.choice([1, 1, 2, 3, 1024])
        faulty = rng.random() < (0.6 if focus in ('E04', 'E05') else 0.15)
        self.p_backend_error = (rng.choice([0, 0, 0.05, 0.3])
                                if faulty else 0)
        self.p_process_error = (rng.choice([0, 0, 0.03, 0.1])
                                if faulty else 0)
        self.p_session_error = (rng.choice([0, 0, 0.03, 0.1])
                                if faulty else 0)
        self.p_backend_none = rng.choice([0, 0, 0.3])
        self.p_create_error = rng.choice([0, 0, 0.3]) if faulty else 0
        self.module_close = faulty and rng.random() < 0.3
        self.cancel = rng.choice([0, 0, 0.2])
        self.p_call = 0.5 if focus == 'E05' else 0.05
        self.spread = rng.choice([0, 0.2, 1, 5])
        self.offset = 0.0
        self.tasks = []
        self.seen = []
        self.seen_queries = []
        self.results = {}
        self.names = []

    def log(self, op, **kwargs):
        self.lines.append({'op': op, **kwargs})

    async def nap(self, limit):
        if limit and self.rng.random() < 0.8:
            await asyncio.sleep(self.rng.random() * limit)
        elif self.rng.random() < 0.5:
            await asyncio.sleep(0)

    # clock

    def clock(self):
        self.offset += 1e-5
        if not self.mono and self.rng.random() < 0.2:
            self.offset += self.rng.uniform(-50, 50)
        return base_clock + 100 + self.loop.time() * 0.1 + self.offset

    # projection

    def session(self, value):
        value -= self.first_session
        return value if -10 < value < 1_000_000 else -99

    def src(self, source):
        return [source_types.get(source.type, '?'),
                source.id + 1 if source.type == common.SourceType.MODULE
                else source.id]

    def ts(self, t):
        value = round(t.s - base_clock) * 1_000_000 + t.us
        return value if abs(value) < 2 ** 30 else -99

    def sts(self, t):
        if t is None:
            return 0
        return t.us if t.s == 10 and t.us > 0 else -1

    def ev(self, event):
        payload = event.payload
        if isinstance(payload, common.EventPayloadJson):
            c = {'STARTED': -1, 'STOPPED': -2}.get(
                payload.data if isinstance(payload.data, str) else None)
        else:
            c = None
        if c is None:
            c = self.payloads.get(world.payload_key(payload), 0)
        return {'srv': 1 if event.id.server == self.server_id else 0,
                'sess': self.session(event.id.session),
                'inst': min(event.id.instance, 1_000_000),
                'ts': self.ts(event.timestamp),
                'sts': self.sts(event.source_timestamp),
                'type': list(event.type),
                'c': c}

    def new_content(self):
        rng = self.rng
        c = len(self.contents) + 1
        if rng.random() < 0.7:
            payload = common.EventPayloadJson([c, world.random_json(rng, 1)])
        else:
            payload = common.EventPayloadBinary(
                rng.choice(['', 't']), c.to_bytes(2, 'big'))
        self.payloads[world.payload_key(payload)] = c
        sts = rng.choice([0, rng.randrange(1, 1_000_000)])
        type = world.random_type(rng)
        self.contents.append({'type': type, 'sts': sts})
        self.register_events.append(common.RegisterEvent(
            type=tuple(type),
            source_timestamp=common.Timestamp(10, sts) if sts else None,
            payload=payload))
        return c

    # registrations

    def random_source(self):
        rng = self.rng
        kind = rng.randrange(4)
        if kind == 0 and self.mods:
            return common.Source(common.SourceType.MODULE,
                                 rng.randrange(len(self.mods)))
        if kind == 1:
            return common.Source(common.SourceType.SERVER, rng.randrange(3))
        return common.Source(common.SourceType.EVENTER, rng.randrange(5))

    async def do_register(self, engine, source=None):
        rng = self.rng
        if rng.random() < 0.05:
            try:
                res = await engine.register(self.random_source(), [])
            except Exception:
                self.log('regempty', out='error', evs=[])
            else:
                self.log('regempty', out='none' if res is None else 'ok',
                         evs=[self.ev(i) for i in res or []])
            return
        source = source or self.random_source()
        cs = [self.new_content() for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        r = self.next_r
        self.next_r += 1
        self.log('regcall', r=r, src=self.src(source), cs=cs)
        events = [self.register_events[i - 1] for i in cs]
        if rng.random() < 0.3:
            events = tuple(events)
        try:
            res = await engine.register(source, events)
        except asyncio.CancelledError:
            self.log('regend', r=r, out='cancelled', evs=[])
            return
        except Exception:
            self.log('regend', r=r, out='error', evs=[])
            return
        self.log('regend', r=r, out='none' if res is None else 'ok',
                 evs=[self.ev(i) for i in res or []])

    async def call(self, engine):
        """Other functions which modules use"""
        rng = self.rng
        name = rng.choice(['query', 'query', 'names', 'restart', 'reset',
                           'server'])
        arg = 0
        out = []
        if name == 'query':
            async with self.query_lock:
                del self.seen_queries[:]
                arg = len(self.results) + 1
                self.results[arg] = rng.random() < 0.5
                try:
                    result = await engine.query(
                        common.QueryServerParams(server_id=arg))
                    out = [1 if result.more_follows else 0,
                           len(result.events)]
                    expected = [1 if self.results[arg] else 0, 0]
                except Failure:
                    out = ['error']
                if arg % 5 == 0:
                    expected = ['error']
                seen = list(self.seen_queries)
        else:
            del self.seen[:]
            if name == 'names':
                self.names = rng.sample(range(10), rng.randrange(4))
                expected = [[source_types[common.SourceType.EVENTER], n,
                             f'c{n}'] for n in self.names]
                out = [[source_types.get(i.type, '?'), i.id, name]
                       for i, name in engine.get_client_names()]
            elif name == 'restart':
                engine.restart()
                expected = []
            elif name == 'reset':
                engine.reset_monitor_ready()
                expected = []
            else:
                out = [str(engine.server_id)]
                expected = [str(self.server_id)]
            seen = list(self.seen)
        self.log('api', call=name, arg=arg, seen=[str(i[0]) for i in seen],
                 args=[i[1] for i in seen], out=json.dumps(out),
                 expected=json.dumps(expected))

    async def client(self, engine, n):
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(rng.random() * self.spread)
            if rng.random() < self.p_call:
                await self.call(engine)
                continue
            if rng.random() < self.cancel:
                task = self.loop.create_task(self.do_register(engine))
                await asyncio.sleep(rng.random())
                task.cancel()
                await task
            elif rng.random() < 0.3:
                self.tasks.append(
                    self.loop.create_task(self.do_register(engine)))
            else:
                await self.do_register(engine)

    # run

    async def create_module(self, conf, engine, source):
        m = conf['m']
        await self.nap(0.2)
        if self.rng.random() < self.p_create_error:
            self.log('closing')
            raise Failure('create')
        module = Module(self, m)
        self.modules.append(module)
        if self.rng.random() < 0.3:
            self.tasks.append(self.loop.create_task(
                self.client(engine, self.rng.randrange(1, 3))))
        return module

    async def main(self, loop):
        rng = self.rng
        self.loop = loop
        self.modules = []
        backend = Backend(self)
        eventer_server = EventerServer(self)
        self.query_lock = asyncio.Lock()
        confs = [{'module': 'hv_engine_module', 'm': i + 1}
                 for i in range(len(self.mods))]

        engine = None
        try:
            engine = await engine_module.create_engine(
                backend=backend,
                eventer_server=eventer_server,
                module_confs=confs,
                server_id=self.server_id,
                restart_cb=lambda: self.seen.append(['restart', 0]),
                reset_monitor_ready_cb=lambda: self.seen.append(
                    ['reset', 0]),
                register_queue_size=self.queue_size)
        except Failure:
            self.log('createfail')

        if engine:
            for _ in range(rng.choice([1, 2, 3, 5])):
                self.tasks.append(loop.create_task(
                    self.client(engine, rng.choice([1, 2, 4, 8]))))
            if self.module_close and self.modules:
                await asyncio.sleep(rng.random() * 3)
                self.log('closing')
                rng.choice(self.modules).close()
            early = rng.random() < (0.7 if self.focus == 'E04' else 0.3)
            if early:
                await asyncio.sleep(rng.choice([0, rng.random() * 3,
                                                rng.random() * 20]))
            else:
                await asyncio.sleep(1000)
                await asyncio.wait(self.tasks, timeout=1000)
                self.log('quiet', open=engine.is_open,
                         mods=sum(i.is_open for i in self.modules))
            self.log('closing')
            engine.close()
            await asyncio.wait([loop.create_task(engine.wait_closed())],
                               timeout=1000)

        for _ in range(5):
            if self.tasks:
                await asyncio.wait(self.tasks, timeout=1000)
        self.log('closed', closed=engine is None or engine.is_closed,
                 mods=sum(not i.is_closed for i in self.modules))
        self.finished = True


def run_one(seed, index, focus, scratch):
    run = Run(seed, focus)
    run.finished = False
    module = types.ModuleType('hv_engine_module')
    module.info = common.ModuleInfo(create=run.create_module)
    sys.modules['hv_engine_module'] = module

    with simloop.patched_clock(lambda: run.clock()):
        outcome, value, loop = simloop.run(run.main, run.rng)
    if outcome == 'error':
        raise value
    if not run.finished:
        run.log('closed', closed=False, mods=0)
    return {'mods': run.mods, 'contents': run.contents,
            'server': str(run.server_id), 'mono': run.mono,
            'lines': run.lines, 'seed': seed, 'focus': focus}
