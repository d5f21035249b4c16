"""Sequential histories of the LMDB backend (StorageTrace.tla)"""

from pathlib import Path
import asyncio
import contextlib
import copy
import json
import random
import shutil
import struct
import tempfile

from hv import simloop

import lmdb

from hat import aio

from hat.event import common
from hat.event.backends.lmdb import info


stride = 1000

long_period = 1_000_000.0


def gen_condition(rng, depth=2):
    kind = rng.randrange(4) if depth else 3
    if kind == 0:
        return {'type': 'all',
                'conditions': [gen_condition(rng, depth - 1)
                               for _ in range(rng.randrange(3))]}
    if kind == 1:
        return {'type': 'any',
                'conditions': [gen_condition(rng, depth - 1)
                               for _ in range(rng.randrange(3))]}
    conf = {'type': 'json'}
    if rng.random() < 0.6:
        conf['data_path'] = gen_path(rng)
    if rng.random() < 0.6:
        conf['data_type'] = rng.choice(['null', 'boolean', 'string', 'number',
                                        'array', 'object'])
    if rng.random() < 0.4:
        conf['data_value'] = cond_json(rng, 1)
    return conf


def gen_path(rng):
    return [rng.choice(['a', 'b', 0, 1, -1, -2])
            for _ in range(rng.choice([0, 1, 1, 2]))]


def cond_json(rng, depth=2):
    """JSON data where equal python values are equal JSON values"""
    kind = rng.randrange(7 if depth else 4)
    if kind == 0:
        return rng.choice([None, True, False])
    if kind == 1:
        return rng.choice([2, 3, 2.5, -2])
    if kind in (2, 3):
        return rng.choice(['', 'a', 'b'])
    if kind == 4:
        return [cond_json(rng, depth - 1) for _ in range(rng.randrange(3))]
    return {i: cond_json(rng, depth - 1)
            for i in ['a', 'b', 'c'] if rng.random() < 0.6}


def condition_tag(conf):
    from drivers import world
    if conf['type'] in ('all', 'any'):
        return {'type': conf['type'],
                'conditions': [condition_tag(i) for i in conf['conditions']]}
    path = conf.get('data_path', [])
    return {'type': 'json',
            'path': [{'k': 'key' if isinstance(i, str) else 'idx', 'v': i}
                     for i in path],
            'data_type': conf.get('data_type', ''),
            'has_value': 'data_value' in conf,
            'data_value': world.json_tag(conf.get('data_value'))}


class Conf:
    """Backend configuration in abstract and concrete form"""

    def __init__(self, w, rng, *, parts=None, latest=None, conditions=(),
                 max_results=None, identifier=None, limits=False):
        from drivers import world
        self.latest = (latest if latest is not None else
                       world.random_subscription(rng))
        if parts is None:
            parts = []
            keys = set()
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                order = rng.choice(['T', 'S'])
                subs = world.normalize(world.random_subscription(rng, 0.5),
                                       w.spellings)
                key = order, frozenset(tuple(i) for i in subs)
                if key in keys:
                    continue
                keys.add(key)
                part = {'order': order, 'subs': subs,
                        'min': -1, 'max': -1, 'dur': -1}
                if limits and rng.random() < 0.85:
                    if rng.random() < 0.4:
                        part['min'] = rng.randrange(0, 5)
                    if rng.random() < 0.6:
                        part['max'] = rng.randrange(0, 8)
                    if rng.random() < 0.5:
                        part['dur'] = rng.randrange(0, 15)
                parts.append(part)
        self.parts = parts
        self.conditions = list(conditions)
        self.max_results = max_results
        self.identifier = identifier

    def abstract(self):
        return {'latest': self.latest,
                'parts': self.parts,
                'conds': [{'subs': i['subscriptions'],
                           'cond': condition_tag(i['condition'])}
                          for i in self.conditions]}

    def concrete(self, w, db_path, flush_period=long_period * 1000,
                 cleanup_period=long_period):
        # order of query types of a subscription isn't relevant
        def shuffled(subs):
            return w.rng.sample(subs, len(subs))

        timeseries = []
        for i in self.parts:
            data = {'order_by': ('TIMESTAMP' if i['order'] == 'T'
                                 else 'SOURCE_TIMESTAMP'),
                    'subscriptions': shuffled(i['subs'])}
            limit = {}
            if i['min'] >= 0:
                limit['min_entries'] = i['min']
            if i['max'] >= 0:
                limit['max_entries'] = i['max']
            if i['dur'] >= 0:
                limit['duration'] = w.seconds(i['dur'])
            if limit:
                data['limit'] = limit
            timeseries.append(data)
        conf = {'db_path': str(db_path),
                'identifier': self.identifier,
                'flush_period': flush_period,
                'cleanup_period': cleanup_period,
                'conditions': self.conditions,
                'latest': {'subscriptions': shuffled(self.latest)},
                'timeseries': timeseries}
        if self.max_results is not None:
            conf['timeseries_max_results'] = self.max_results
        return conf


class Gen:
    """Generator of event histories"""

    def __init__(self, w, rng, *, servers=2, types=None, cond_payloads=False,
                 ts_of=None, unique_ts=False):
        from drivers import world
        self.w = w
        self.rng = rng
        self.n_servers = servers
        self.types = types or [list(i) for i in sorted({
            tuple(world.random_type(rng))
            for _ in range(rng.choice([2, 4, 6]))})]
        self.cond_payloads = cond_payloads
        self.last = {}
        self.used = []
        self.slack = rng.choice([0.0, 0.1, 0.3])
        self.t = 0
        self.max_t = w.levels - 1
        self.jump = rng.choice([0.1, 0.3, 0.6])
        self.unique_ts = unique_ts

    def payload(self):
        from drivers import world
        if self.cond_payloads:
            if self.rng.random() < 0.15:
                return world.random_payload(self.rng)\
                    if self.rng.random() < 0.3 else None
            return common.EventPayloadJson(cond_json(self.rng))
        return world.random_payload(self.rng)

    def event(self):
        rng = self.rng
        if self.used and rng.random() < self.slack * 0.4:
            return rng.choice(self.used)      # replayed event
        srv = rng.randrange(self.n_servers)
        last = self.last.get(srv, (0, 0, 0))
        sess, inst, ts = last
        kind = rng.random()
        if kind < self.slack * 0.5:
            # stale or equal id
            sess = max(0, sess - rng.randrange(2))
            inst = max(0, inst - rng.randrange(3))
        elif kind < 0.6 and inst + 1 < len(self.w.instances) and sess > 0:
            inst += rng.choice([1, 1, 1, 2])
            inst = min(inst, len(self.w.instances) - 1)
        else:
            sess = min(sess + rng.choice([1, 1, 2]),
                       len(self.w.sessions) - 1)
            inst = rng.choice([1, 1, 0, 3])
        kind = rng.random()
        if kind < self.slack * 0.5:
            ts = max(0, ts - rng.randrange(1, 4))    # older timestamp
        elif kind < 1 - self.jump:
            pass
        else:
            ts = min(ts + rng.choice([1, 1, 2, 3]), self.max_t)
        if self.unique_ts:
            # timestamps of different servers don't collide
            ts = ts - ts % self.n_servers + srv
            if ts > self.max_t:
                ts -= self.n_servers
        sts = (None if rng.random() < 0.3 else
               rng.randrange(self.max_t + 1)
               if rng.random() < 0.7 or not self.used else
               self.w.rec(rng.choice(self.used))['sts'])
        if sts is not None and self.unique_ts:
            sts = sts - sts % self.n_servers + srv
            if sts > self.max_t:
                sts -= self.n_servers
        eid = self.w.add(srv, sess, inst, ts, sts, rng.choice(self.types),
                         self.payload())
        if (sess, inst) > last[:2] and ts >= last[2]:
            self.last[srv] = (sess, inst, ts)
        self.used.append(eid)
        return eid

    def batch(self):
        return [self.event() for _ in range(self.rng.choice([1, 1, 2, 3, 5]))]


class Run:

    def __init__(self, seed, base, focus, scratch):
        from drivers import world
        self.rng = random.Random(f'{seed}/{focus}')
        self.focus = focus
        self.lines = []
        self.scratch = scratch
        affine = focus in ('S08', 'S08size') or self.rng.random() < 0.2
        self.w = world.World(self.rng, base, affine=affine)
        self.now = 0
        self.backend = None
        self.conf = None
        self.confs = []
        self.flushed = []
        self.answers = []
        self.conditional = False

    # ops

    def log(self, op, exc=None, **kwargs):
        self.lines.append({'op': op,
                           'exc': '' if exc is None else
                           (type(exc).__name__ or 'error'),
                           **kwargs})

    async def open(self, conf):
        self.conf = conf
        exc = None
        try:
            self.backend = await aio.call(
                info.create, conf.concrete(self.w, self.db_path), None, None)
        except Exception as e:
            exc = e
            self.backend = None
        self.log('open', exc, conf=conf.abstract())
        if self.backend:
            await self.cleanup()
        return exc is None

    async def cleanup(self):
        exc = None
        await asyncio.sleep(long_period * 1.3)
        if not self.backend.is_open:
            exc = Exception('closed')
        self.log('cleanup', exc, now=self.now)

    async def close(self):
        exc = None
        self.again()
        try:
            await self.backend.async_close()
        except Exception as e:
            exc = e
        self.backend = None
        self.log('close', exc)

    async def reg(self, batch):
        exc = None
        try:
            await self.backend.register([self.w.get(i) for i in batch])
        except Exception as e:
            exc = e
        self.log('reg', exc, batch=batch)

    async def flush(self):
        exc = None
        try:
            await self.backend.flush()
        except Exception as e:
            exc = e
        self.log('flush', exc)

    def _res(self, result):
        events = list(result.events)
        res = [self.w.eid(i) for i in events]
        if res and len(self.answers) < 20:
            self.answers.append((events, res))
        return {'res': res,
                'more': bool(result.more_follows)}

    def again(self):
        """Events of earlier answers, as they are now"""
        answers, self.answers = self.answers, []
        self.log('again', was=[res for _, res in answers],
                 res=[[self.w.eid(i) for i in events]
                      for events, _ in answers])

    async def query(self, op, params, **kwargs):
        exc = None
        res = {'res': [], 'more': False}
        try:
            result = await self.backend.query(params)
            res = self._res(result)
        except Exception as e:
            exc = e
            result = None
        self.log(op, exc, **kwargs, **res)
        return result

    async def q_lastid(self, srv):
        exc = None
        value = [0, 0]
        try:
            event_id = await self.backend.get_last_event_id(
                self.w.servers[srv])
            value = self.w.abs_id(event_id)
            if event_id.server != self.w.servers[srv]:
                value = [-1, -1]
        except Exception as e:
            exc = e
        self.log('lastid', exc, srv=srv, id=value)

    def random_types(self):
        """Query types [has_types, types]"""
        from drivers import world
        rng = self.rng
        kind = rng.random()
        if kind < 0.3:
            return False, []
        if kind < 0.5:
            return True, [list(i) for i in sorted({
                tuple(rng.choice(self.gen.types))
                for _ in range(rng.randrange(1, 4))})]
        if kind < 0.53:
            return True, []
        if kind < 0.63 and kind >= 0.53:
            # several exact types and one with wildcards
            types = {tuple(rng.choice(self.gen.types))
                     for _ in range(rng.randrange(2, 6))}
            types.add(tuple(world.random_query_type(rng)))
            return True, [list(i) for i in sorted(types)]
        if kind < 0.7:
            # many exact types
            types = {tuple(i) for i in self.gen.types}
            types.update(tuple(world.random_type(rng)) for _ in range(6))
            return True, [list(i) for i in sorted(types)]
        return True, [world.random_query_type(rng)
                      for _ in range(rng.choice([1, 1, 2]))]

    async def q_latest(self):
        has_types, types = self.random_types()
        params = common.QueryLatestParams(
            event_types=([tuple(i) for i in types] if has_types else None))
        await self.query('latest', params, has_types=has_types, types=types)

    def ts_params(self, plain=False):
        rng = self.rng
        has_types, types = self.random_types()
        if plain and rng.random() < 0.5:
            has_types, types = False, []
        q = {'order_by': rng.choice(['T', 'S']), 'has_types': has_types,
             'types': types, 'asc': rng.random() < 0.5}
        kwargs = {}
        for key, name, p in [('tf', 't_from', 0.25), ('tt', 't_to', 0.25),
                             ('stf', 'source_t_from', 0.15),
                             ('stt', 'source_t_to', 0.15)]:
            if not plain and rng.random() < p:
                q[f'has_{key}'] = True
                if self.gen.used and rng.random() < 0.7:
                    rec = self.w.rec(rng.choice(self.gen.used))
                    q[key] = rec['ts'] if key in ('tf', 'tt') else rec['sts']
                else:
                    q[key] = rng.randrange(self.w.levels)
                kwargs[name] = self.w.time(q[key])
            else:
                q[f'has_{key}'] = False
                q[key] = 0
        kwargs['event_types'] = ([tuple(i) for i in types] if has_types
                                 else None)
        kwargs['order'] = (common.Order.ASCENDING if q['asc']
                           else common.Order.DESCENDING)
        kwargs['order_by'] = (common.OrderBy.TIMESTAMP
                              if q['order_by'] == 'T'
                              else common.OrderBy.SOURCE_TIMESTAMP)
        return q, kwargs

    def limit(self):
        return self.conf.max_results or 4096

    async def q_ts(self):
        rng = self.rng
        q, kwargs = self.ts_params()
        max_results = rng.choice([None, None, 0, 1, 2, 3, 5, 100])
        none = False
        if rng.random() < 0.05:
            # unknown sentinel
            kwargs['last_event_id'] = self.w.id(3, 1, 1)
            none = True
        params = common.QueryTimeseriesParams(max_results=max_results,
                                              **kwargs)
        await self.query('ts', params, **q, none=none, limit=self.limit(),
                         max=-1 if max_results is None else max_results)

    async def pages(self, full, page_size, limit, query_fn):
        exc = None
        pages = []
        last_event_id = None
        try:
            for _ in range(60):
                result = await query_fn(last_event_id)
                pages.append(self._res(result))
                events = list(result.events)
                if not events or not result.more_follows:
                    break
                last_event_id = events[-1].id
        except Exception as e:
            exc = e
        # the page after the last one has to be empty
        if exc is None and last_event_id is not None and events:
            try:
                result = await query_fn(events[-1].id)
                pages.append(self._res(result))
            except Exception as e:
                exc = e
        self.log('pages', exc, pages=pages, max=page_size,
                 res=[self.w.eid(i) for i in full.events])

    async def q_ts_pages(self):
        q, kwargs = self.ts_params(plain=self.rng.random() < 0.4)
        saved = self.limit()
        full = await self.query(
            'ts', common.QueryTimeseriesParams(**kwargs), **q, none=False,
            limit=saved, max=-1)
        if full is None:
            return
        if full.more_follows:
            return
        page_size = self.rng.choice([1, 1, 2, 3, 5])

        async def query_fn(last_event_id):
            return await self.backend.query(common.QueryTimeseriesParams(
                max_results=page_size, last_event_id=last_event_id, **kwargs))

        await self.pages(full, page_size, saved, query_fn)

    async def q_srv(self):
        rng = self.rng
        srv = rng.randrange(self.gen.n_servers + 1)
        persisted = rng.random() < 0.4
        lid = None
        if rng.random() < 0.4:
            candidates = [i for i in self.gen.used
                          if self.w.rec(i)['srv'] == srv]
            if candidates and rng.random() < 0.8:
                rec = self.w.rec(rng.choice(candidates))
                lid = [rec['sess'], rec['inst']]
            else:
                lid = [rng.randrange(4), rng.randrange(3)]
        max_results = rng.choice([None, None, 0, 1, 2, 3, 5, 100])
        params = common.QueryServerParams(
            server_id=self.w.servers[srv], persisted=persisted,
            max_results=max_results,
            last_event_id=self.w.id(srv, *lid) if lid else None)
        await self.query('srv', params, srv=srv, persisted=persisted,
                         has_lid=lid is not None, lid=lid or [0, 0],
                         max=-1 if max_results is None else max_results,
                         limit=4096)

    async def q_srv_pages(self):
        srv = self.rng.randrange(self.gen.n_servers)
        persisted = self.rng.random() < 0.3
        full = await self.query(
            'srv', common.QueryServerParams(server_id=self.w.servers[srv],
                                            persisted=persisted),
            srv=srv, persisted=persisted, has_lid=False, lid=[0, 0], max=-1,
            limit=4096)
        if full is None:
            return
        page_size = self.rng.choice([1, 1, 2, 3, 5])

        async def query_fn(last_event_id):
            return await self.backend.query(common.QueryServerParams(
                server_id=self.w.servers[srv], persisted=persisted,
                max_results=page_size, last_event_id=last_event_id))

        await self.pages(full, page_size, 4096, query_fn)

    async def q_all(self):
        """Everything that can be observed"""
        for srv in range(self.gen.n_servers):
            await self.q_lastid(srv)
            for persisted in (False, True):
                await self.query(
                    'srv', common.QueryServerParams(
                        server_id=self.w.servers[srv], persisted=persisted),
                    srv=srv, persisted=persisted, has_lid=False, lid=[0, 0],
                    max=-1, limit=4096)
        await self.query('latest', common.QueryLatestParams(),
                         has_types=False, types=[])
        await self.q_ts_all()

    async def q_ts_all(self):
        """Complete content of every timeseries that can be selected"""
        for part in self.conf.parts:
            await self.query(
                'ts', common.QueryTimeseriesParams(
                    event_types=[tuple(i) for i in part['subs']],
                    order=common.Order.ASCENDING,
                    order_by=(common.OrderBy.TIMESTAMP
                              if part['order'] == 'T' else
                              common.OrderBy.SOURCE_TIMESTAMP)),
                order_by=part['order'], has_types=True, types=part['subs'],
                asc=True, has_tf=False, tf=0, has_tt=False, tt=0,
                has_stf=False, stf=0, has_stt=False, stt=0, none=False,
                limit=self.limit(), max=-1)

    # scenarios

    def random_conditions(self):
        from drivers import world
        return [{'subscriptions': world.random_subscription(self.rng),
                 'condition': gen_condition(self.rng)}
                for _ in range(self.rng.choice([1, 1, 2, 3]))]

    def new_conf(self):
        rng = self.rng
        focus = self.focus
        kwargs = {'identifier': rng.choice([None, 'id'])}
        if focus == 'S11':
            kwargs['identifier'] = rng.choice([None, 'x', 'y', 'z'])
        if focus == 'S09':
            kwargs['conditions'] = self.random_conditions()
        if focus == 'S08':
            kwargs['limits'] = True
        if focus in ('S05', 'S06') and rng.random() < 0.2:
            kwargs['max_results'] = rng.choice([1, 3, 10])
        if focus in ('S05', 'S06'):
            if rng.random() < 0.5:
                kwargs['parts'] = [
                    {'order': 'T', 'subs': [['*']], 'min': -1, 'max': -1,
                     'dur': -1},
                    {'order': 'S', 'subs': [['*']], 'min': -1, 'max': -1,
                     'dur': -1}]
        if focus == 'S04' and rng.random() < 0.7:
            kwargs['latest'] = [['*']]
        if focus == 'S07' and rng.random() < 0.4:
            kwargs['parts'] = []
        if focus == 'S03' and rng.random() < 0.3:
            kwargs['parts'] = []
            kwargs['latest'] = []
        return Conf(self.w, rng, **kwargs)

    def next_conf(self):
        """Configuration for reopening"""
        rng = self.rng
        conf = copy.copy(self.conf)
        self.confs.append(conf)
        if rng.random() < 0.2:
            conf.parts = rng.sample(conf.parts, len(conf.parts))
        change = 0.6 if self.conditional else {'S09': 0.7, 'S07': 0.4, 'S02': 0.4, 'S08': 0.2,
                  'S04': 0.5, 'S05': 0.2, 'S06': 0.2}.get(self.focus, 0.1)
        if rng.random() < change:
            if self.focus in ('S02', 'S04') and self.narrowing:
                # everything, or a part of types for a while
                conf.latest = ([['*']] if conf.latest != [['*']] else
                               [t for t in self.gen.types
                                if rng.random() < 0.5])
                return conf
            if self.focus != 'S08' and rng.random() < 0.5:
                # back to a previous configuration
                old = rng.choice(self.confs)
                conf.latest = old.latest
                conf.parts = old.parts
                conf.conditions = old.conditions
                return conf
            new = self.new_conf()
            if self.conditional and rng.random() < 0.6:
                conf.conditions = ([] if rng.random() < 0.4 else
                                   self.random_conditions())
            elif self.focus == 'S09':
                conf.conditions = new.conditions
                if rng.random() < 0.3:
                    conf.conditions = []
            elif self.focus == 'S08':
                # same partitions with other limits
                conf.parts = [dict(i) for i in conf.parts]
                for i in conf.parts:
                    i['max'] = rng.choice([-1, 1, 3])
            else:
                if rng.random() < 0.5:
                    conf.latest = ([t for t in conf.latest
                                    if rng.random() < 0.5]
                                   if rng.random() < 0.3 else new.latest)
                if rng.random() < 0.5:
                    conf.parts = new.parts
                if self.focus == 'S07' and rng.random() < 0.5:
                    from drivers import world
                    conf.conditions = [] if rng.random() < 0.5 else [
                        {'subscriptions': world.random_subscription(rng),
                         'condition': gen_condition(rng)}]
        return conf

    async def scenario(self, loop):
        rng = self.rng
        focus = self.focus
        self.conditional = (focus in ('S02', 'S04', 'S05', 'S06', 'S07') and
                            rng.random() < 0.25)
        self.gen = Gen(self.w, rng, servers=rng.choice([1, 2, 2, 3]),
                       cond_payloads=(focus in ('S09', 'S07') or
                                      self.conditional),
                       unique_ts=focus == 'S08')
        self.db_path = Path(tempfile.mkdtemp(dir=self.scratch)) / 'db'
        try:
            conf = self.new_conf()
            if self.conditional and rng.random() < 0.5:
                conf.conditions = self.random_conditions()
            self.narrowing = rng.random() < 0.4
            if self.narrowing and focus in ('S02', 'S04'):
                conf.latest = [['*']]
                if len(self.gen.types) < 5:
                    self.gen.types.extend([['n', str(i)] for i in range(5)])
            if not await self.open(conf):
                return
            for _ in range(rng.randrange(8, 22)):
                await self.step()
                if self.backend is None:
                    return
            await self.final()
            if self.backend:
                self.again()
                await self.backend.async_close()
        finally:
            shutil.rmtree(self.db_path.parent, ignore_errors=True)

    async def step(self):
        rng = self.rng
        weights = {'reg': 8, 'flush': 3, 'cleanup': 0.3, 'reopen': 0.7,
                   'latest': 0, 'ts': 0, 'tspages': 0, 'srv': 0,
                   'srvpages': 0, 'lastid': 0, 'all': 0, 'tick': 0,
                   'refused': 0}
        weights.update({
            'S02': {'reopen': 3, 'all': 1},
            'S03': {'lastid': 5, 'reopen': 2, 'latest': 1, 'srv': 1, 'ts': 1},
            'S04': {'latest': 7, 'reopen': 2},
            'S05': {'ts': 8},
            'S06': {'tspages': 4, 'srvpages': 4},
            'S07': {'srv': 7, 'cleanup': 1.5, 'reopen': 1.5},
            'S08': {'cleanup': 5, 'all': 3, 'tick': 2, 'flush': 4},
            'S09': {'all': 2, 'latest': 2, 'ts': 2, 'srv': 2, 'reopen': 2,
                    'tspages': 1, 'srvpages': 0.5},
            'S11': {'reopen': 2, 'refused': 5, 'all': 2}}[self.focus])
        if self.conditional:
            weights['reopen'] += 2
        ops = list(weights)
        op = rng.choices(ops, [weights[i] for i in ops])[0]
        if op == 'reg':
            await self.reg(self.gen.batch())
        elif op == 'flush':
            await self.flush()
        elif op == 'cleanup':
            self.tick()
            await self.cleanup()
        elif op == 'tick':
            self.tick()
        elif op == 'reopen':
            if self.focus == 'S02':
                await self.q_all()
            await self.close()
            if await self.open(self.next_conf()) and self.focus == 'S02':
                await self.q_all()
        elif op == 'latest':
            await self.q_latest()
        elif op == 'ts':
            await self.q_ts()
        elif op == 'tspages':
            await self.q_ts_pages()
        elif op == 'srv':
            await self.q_srv()
        elif op == 'srvpages':
            await self.q_srv_pages()
        elif op == 'lastid':
            await self.q_lastid(rng.randrange(self.gen.n_servers + 1))
        elif op == 'all':
            await self.q_all()
        elif op == 'refused':
            await self.refused()

    def tick(self):
        self.now = min(self.now + self.rng.choice([0, 1, 2, 5]), 60)

    async def refused(self):
        """Opening with a wrong identifier/version"""
        rng = self.rng
        await self.close()
        in_force = self.identifier
        kind = rng.random()
        if in_force is None or kind < 0.25:
            # without an identifier or with the right one
            conf = copy.copy(self.conf)
            conf.identifier = rng.choice([None, in_force])
            await self.open_identified(conf)
            return
        conf = copy.copy(self.conf)
        version = None
        if rng.random() < 0.4:
            # written by another version
            conf.identifier = rng.choice([None, in_force])
            version = self.swap_version(json.dumps(rng.choice(
                ['0.8', '0.10', '1', '', '0.9 ', None, 0.9])).encode())
            if version is None:
                # nothing which another version could refuse
                self.log('refused')
        else:
            conf.identifier = rng.choice([i for i in ['x', 'y', 'z', '', 'X']
                                          if i != in_force])
        exc = None
        try:
            backend = await aio.call(
                info.create, conf.concrete(self.w, self.db_path), None, None)
            await backend.async_close()
        except Exception as e:
            exc = e
        self.log('refused', exc)
        if version is not None:
            self.swap_version(version)
        conf = copy.copy(self.conf)
        conf.identifier = rng.choice([None, in_force])
        await self.open_identified(conf)

    def swap_version(self, value):
        """Replace version of storage, returns the previous one"""
        with lmdb.Environment(str(self.db_path), subdir=False,
                              max_dbs=32) as env:
            db = env.open_db(b'SYSTEM_SETTINGS', create=False)
            with env.begin(db=db, write=True) as txn:
                return txn.replace(struct.pack('>Q', 0), value)

    async def open_identified(self, conf):
        await self.open(conf)
        if self.backend:
            await self.q_all()

    @property
    def identifier(self):
        return self._identifier

    async def final(self):
        focus = self.focus
        if focus in ('S02', 'S08', 'S09', 'S11'):
            await self.q_all()
        elif focus == 'S03':
            for srv in range(self.gen.n_servers + 1):
                await self.q_lastid(srv)
        elif focus == 'S04':
            for _ in range(4):
                await self.q_latest()
        elif focus == 'S05':
            for _ in range(8):
                await self.q_ts()
        elif focus == 'S07':
            for _ in range(5):
                await self.q_srv()


class IdentityRun(Run):
    """S11: the identifier in force is tracked"""

    _identifier = None

    async def open(self, conf):
        if not await super().open(conf):
            return False
        if self._identifier is None:
            self._identifier = conf.identifier
        return True

    def next_conf(self):
        conf = super().next_conf()
        if self._identifier is None:
            conf.identifier = self.rng.choice([None, 'x', 'y'])
        else:
            conf.identifier = self.rng.choice([None, self._identifier])
        return conf


class MemoryRun(Run):
    """Memory backend"""

    async def scenario(self, loop):
        from hat.event.backends import memory
        rng = self.rng
        self.gen = Gen(self.w, rng, servers=rng.choice([1, 2, 3]))
        self.gen.slack = 0
        self.conf = Conf(self.w, rng, latest=[['*']],
                         parts=[{'order': i, 'subs': [['*']], 'min': -1,
                                 'max': -1, 'dur': -1} for i in ('T', 'S')])
        self.calls = []
        self.backend = await aio.call(
            memory.info.create, {}, self.on_registered, self.on_flushed)
        self.log('open', conf=self.conf.abstract())
        # timestamps of different servers don't have to be ordered
        for _ in range(rng.randrange(6, 20)):
            op = rng.choice(['reg', 'reg', 'latest', 'ts', 'ts', 'tspages',
                             'srv', 'srvpages', 'lastid', 'flush'])
            if op == 'reg':
                await self.regall(self.gen.batch() if rng.random() < 0.95
                                  else [])
            elif op == 'latest':
                await self.q_latest()
            elif op == 'ts':
                await self.q_ts()
            elif op == 'tspages':
                await self.q_ts_pages()
            elif op == 'srv':
                await self.q_srv()
            elif op == 'srvpages':
                await self.q_srv_pages()
            elif op == 'lastid':
                await self.q_lastid(rng.randrange(self.gen.n_servers))
            elif op == 'flush':
                await self.flush()
        await self.backend.async_close()

    async def on_registered(self, events):
        self.calls.append(('registered', [self.w.eid(i) for i in events]))
        if self.rng.random() < 0.3:
            await asyncio.sleep(0.01)

    async def on_flushed(self, events):
        self.calls.append(('flushed', [self.w.eid(i) for i in events]))

    async def regall(self, batch):
        exc = None
        res = []
        self.calls = []
        try:
            result = await self.backend.register(
                [self.w.get(i) for i in batch])
            res = [self.w.eid(i) for i in result]
        except Exception as e:
            exc = e
        self.log('regall', exc, batch=batch, res=res,
                 **{k: [b for i, b in self.calls if i == k]
                    for k in ('registered', 'flushed')})


def tune(rng, flush=True):
    """Small limits of internal steps, where such limits exist"""
    from hat.event.backends.lmdb import backend
    if hasattr(backend, 'cleanup_max_results'):
        backend.cleanup_max_results = rng.choice([1, 2, 3, 1024])
    if flush and hasattr(backend, 'max_registered_count'):
        backend.max_registered_count = rng.choice([2, 10, 1024 * 256])


def run_one(seed, index, focus, scratch):
    """Run scenario, returns trace"""
    tune(random.Random(f'{seed}/{focus}/tune'), flush=False)
    base = (index + 1) * stride
    cls = {'S11': IdentityRun, 'M01': MemoryRun}.get(focus, Run)
    run = cls(seed, base, focus, scratch)

    def configure(loop):
        rng = random.Random(f'{seed}/{focus}/loop')
        loop.exec_delay = lambda: rng.choice([0, 0.001, 0.01])

    def clock():
        if run.w.affine:
            return run.w.clock(run.now)
        return 1_700_000_000.0

    with simloop.patched_clock(clock):
        outcome, value, loop = simloop.run(run.scenario, run.rng,
                                           configure=configure)
    if outcome != 'ok':
        if outcome == 'error' and not isinstance(value, Exception):
            raise value
        if outcome == 'error':
            raise value
        run.log('flush', Exception(outcome))
        run.lines[-1]['exc'] = outcome
    return {'events': run.w.events or [{}], 'lines': run.lines,
            'seed': seed, 'focus': focus}
