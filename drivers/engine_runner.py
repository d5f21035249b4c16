"""Histories of the engine's life cycle (RunnerTrace.tla)"""

import asyncio
import random
import sys
import types

from hv import simloop

from hat import aio
from hat import util

from hat.event import common
from hat.event.server import engine_runner as runner_module
from hat.event.server.eventer_client import SyncedState

from drivers import world


class Failure(Exception):
    pass


class Backend(common.Backend):

    def __init__(self, run):
        self._run = run
        self._async_group = aio.Group()
        self._last_ids = {}

    @property
    def async_group(self):
        return self._async_group

    async def get_last_event_id(self, server_id):
        run = self._run
        run.log('create')
        await run.nap(run.create_delay)
        if run.rng.random() < run.p_create_error:
            run.log('stop')
            raise Failure('last event id')
        return self._last_ids.get(server_id, common.EventId(server_id, 0, 0))

    async def register(self, events):
        run = self._run
        events = list(events)
        run.log('breg', sync=[run.synced(i) for i in events
                              if run.is_synced(i)])
        for i in events:
            self._last_ids[i.id.server] = i.id
        await run.nap(run.backend_delay)
        if run.rng.random() < run.p_backend_error:
            run.log('stop')
            raise Failure('register')
        return events

    async def query(self, params):
        raise NotImplementedError()

    async def flush(self):
        run = self._run
        n = run.flushes = run.flushes + 1
        run.log('flush', n=n)
        await run.nap(run.flush_delay)
        if run.rng.random() < run.p_flush_error:
            run.log('stop')
            run.log('flushfail')
            raise Failure('flush')
        run.log('flushend', n=n)


class Module(common.Module):

    def __init__(self, run):
        self._run = run
        self._async_group = aio.Group()
        self._subscription = common.create_subscription([('*', )])
        self._async_group.spawn(aio.call_on_cancel, self._on_close)

    @property
    def async_group(self):
        return self._async_group

    @property
    def subscription(self):
        return self._subscription

    async def _on_close(self):
        await self._run.nap(self._run.module_delay)
        self._run.log('mclosed')

    async def on_session_start(self, session_id):
        pass

    async def on_session_stop(self, session_id):
        pass

    async def process(self, source, event):
        await self._run.nap(self._run.module_delay)


class EventerServer:

    def __init__(self, run):
        self._run = run

    def get_client_names(self):
        return []

    async def set_status(self, status, engine):
        run = self._run
        if engine is not None and engine not in run.engines:
            run.engines.append(engine)
            run.loop.create_task(self._watch(engine))
        run.status = status.name
        run.log('status', s=status.name, eng=engine is not None,
                closed=all(i.is_closed for i in run.engines
                           if i is not engine),
                told=engine is not None and not engine.is_open and
                engine not in run.failing)
        await run.nap(run.status_delay)
        run.log('statusend')

    async def _watch(self, engine):
        await engine.wait_closing()
        self._run.log('closing')

    async def notify_events(self, events, persisted, with_ack=False):
        pass


class Remotes:
    """Stand-in for eventer client runner"""

    def __init__(self, active):
        self.remote_active = active
        self._cbs = util.CallbackRegistry()

    def register_remote_active_cb(self, cb):
        return self._cbs.register(cb)

    def set(self, active):
        self.remote_active = active
        self._cbs.notify(active)


class Run:

    def __init__(self, seed, focus):
        self.rng = rng = random.Random(f'{seed}/{focus}')
        self.lines = []
        self.server_id = rng.choice([0, 1, 7, 2 ** 40])
        self.create_delay = rng.choice([0, 0.1, 2])
        self.backend_delay = rng.choice([0, 0, 0.1, 1])
        self.flush_delay = rng.choice([0, 0.1, 2])
        self.module_delay = rng.choice([0, 0, 0.1, 1])
        self.status_delay = rng.choice([0, 0, 0.1, 1])
        self.spread = rng.choice([0.1, 1, 5])
        faulty = rng.random() < 0.4
        self.p_backend_error = rng.choice([0, 0, 0.05]) if faulty else 0
        self.p_create_error = rng.choice([0, 0, 0.2]) if faulty else 0
        self.p_flush_error = rng.choice([0, 0, 0, 0.2]) if faulty else 0
        self.p_fail = rng.choice([0, 0.1, 0.3]) if faulty else 0
        self.n_mods = rng.choice([0, 1, 1, 2])
        self.flushes = 0
        self.engines = []
        self.failing = []
        self.modules = []
        self.current = None
        self.status = 'STANDBY'
        self.finished = False
        self.tick = 0
        self.n_syncs = -1
        self.last = 0

    def log(self, op, **kwargs):
        if self.loop.time() != self.last:
            self.last = self.loop.time()
            self.tick += 1
        self.lines.append({'op': op, 't': self.tick, **kwargs})

    async def nap(self, limit):
        if limit and self.rng.random() < 0.8:
            await asyncio.sleep(self.rng.random() * limit)
        elif self.rng.random() < 0.5:
            await asyncio.sleep(0)

    # synced events

    def is_synced(self, event):
        return len(event.type) > 2 and event.type[2] == 'synced'

    def synced(self, event):
        try:
            data = event.payload.data
            keys = ({'state', 'count'} if data['state'] == 'SYNCED' else
                    {'state'})
            if (event.type[:2] != ('event', str(self.server_id)) or
                    set(data) != keys or event.source_timestamp is not None):
                return ['?', '?', -2]
            count = data.get('count')
            return [event.type[3], data['state'],
                    -1 if count is None else count]
        except Exception:
            return ['?', '?', -2]

    async def set_synced(self, runner):
        rng = self.rng
        self.n_syncs += 1
        server_id = self.n_syncs + rng.choice([0, 1000, 2 ** 33])
        state = rng.choice(list(SyncedState))
        count = (rng.choice([0, 1, 100, None]) if state == SyncedState.SYNCED
                 else None)
        key = [str(server_id), state.name, -1 if count is None else count]
        must = (self.status == 'OPERATIONAL' and bool(self.engines) and
                self.engines[-1].is_open)
        self.log('sync', key=key)
        try:
            await runner.set_synced(server_id, state, count)
        except asyncio.CancelledError:
            raise
        except Exception as e:
            self.log('syncend', key=key, must=must, ok=False,
                     up=bool(self.engines) and self.engines[-1].is_open,
                     exc=repr(e))
        else:
            self.log('syncend', key=key, must=must, ok=True,
                     up=bool(self.engines) and self.engines[-1].is_open)

    # environment

    async def create_module(self, conf, engine, source):
        rng = self.rng
        await self.nap(self.create_delay)
        if rng.random() < self.p_create_error:
            self.log('stop')
            raise Failure('create')
        module = Module(self)
        self.modules.append(module)
        self.current = engine
        self.log('mcreated')
        if rng.random() < 0.1:
            self.log('again')
            engine.restart()
        return module

    async def register(self, engine):
        rng = self.rng
        event = common.RegisterEvent(
            type=tuple(world.random_type(rng)) + ('x', ),
            source_timestamp=None,
            payload=None)
        try:
            await engine.register(
                common.Source(common.SourceType.EVENTER, 1), [event])
        except Exception:
            pass

    async def work(self, n, runner):
        rng = self.rng
        for _ in range(n):
            await asyncio.sleep(rng.choice([0, rng.random() * self.spread]))
            kind = rng.random()
            engine = (self.engines[-1] if self.engines else None)
            if kind < 0.2 and self.remotes:
                x = not self.remotes.remote_active
                if rng.random() < 0.3:
                    # changes which can't be observed
                    self.remotes.set(x)
                    self.remotes.set(not x)
                    continue
                self.log('remote', on=x)
                self.remotes.set(x)
            elif kind < 0.35:
                if engine and engine.is_open:
                    self.log('again')
                    engine.restart()
            elif kind < 0.35 + self.p_fail:
                mods = [i for i in self.modules if i.is_open]
                if mods:
                    self.log('stop')
                    self.failing.append(engine)
                    mods[-1].close()
            elif kind < 0.7:
                self.loop.create_task(self.set_synced(runner))
            elif engine:
                self.loop.create_task(self.register(engine))

    # run

    async def main(self, loop):
        rng = self.rng
        self.loop = loop
        self.backend = Backend(self)
        self.server = EventerServer(self)
        self.remotes = None
        if rng.random() < 0.7:
            self.remotes = Remotes(rng.random() < 0.4)
        if self.remotes and self.remotes.remote_active:
            self.log('remote', on=True)
            await asyncio.sleep(0.01)
        runner = runner_module.EngineRunner(
            conf={'server_id': self.server_id,
                  'modules': [{'module': 'hv_runner_module'}
                              for _ in range(self.n_mods)]},
            backend=self.backend,
            eventer_server=self.server,
            eventer_client_runner=self.remotes,
            reset_monitor_ready_cb=lambda: None)
        await self.work(rng.choice([0, 1, 3, 6, 10, 20]), runner)
        if rng.random() < 0.5:
            await asyncio.sleep(1000)
            self.log('quiet', open=runner.is_open)
        self.log('stop')
        runner.close()
        if rng.random() < 0.3:
            await self.work(3, runner)
        await asyncio.wait([loop.create_task(runner.wait_closed())],
                           timeout=1000)
        self.log('end', closed=runner.is_closed)
        self.finished = True


def run_one(seed, index, focus, scratch):
    run = Run(seed, focus)
    module = types.ModuleType('hv_runner_module')
    module.info = common.ModuleInfo(create=run.create_module)
    sys.modules['hv_runner_module'] = module
    outcome, value, loop = simloop.run(run.main, run.rng)
    if outcome == 'error':
        raise value
    if not run.finished:
        run.log('end', closed=False)
    return {'lines': run.lines, 'seed': seed, 'focus': focus}
