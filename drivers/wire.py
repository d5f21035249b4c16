"""Wire forms and natural order of events (WireTrace.tla)"""

import json
import random

from hat.event import common

from drivers import content
from drivers import world


int_values = [0, 1, 2, 127, 128, 255, 256, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 62,
              2 ** 63 - 1]


# projection of values

def canonical(data):
    return json.dumps(data, sort_keys=True)


def integer(i):
    if isinstance(i, bool) or not isinstance(i, int):
        return f'? {i!r}'
    return str(i)


def optional(value, fn):
    return [] if value is None else [fn(value)]


def ts(t):
    if not isinstance(t, common.Timestamp):
        return f'? {t!r}'
    return {'s': integer(t.s), 'us': integer(t.us)}


def event_id(i):
    if not isinstance(i, common.EventId):
        return f'? {i!r}'
    return {'server': integer(i.server), 'session': integer(i.session),
            'instance': integer(i.instance)}


def event_type(t):
    # types are used as keys
    if not isinstance(t, tuple):
        return [f'? {t!r}']
    return list(t)


def payload(p):
    if isinstance(p, common.EventPayloadBinary):
        return {'kind': 'binary', 'type': p.type, 'data': list(bytes(p.data))}
    if isinstance(p, common.EventPayloadJson):
        return {'kind': 'json', 'text': canonical(p.data)}
    return {'kind': 'unknown', 'text': repr(p)}


def event(e):
    return {'id': event_id(e.id),
            'type': event_type(e.type),
            'timestamp': ts(e.timestamp),
            'source_timestamp': optional(e.source_timestamp, ts),
            'payload': optional(e.payload, payload)}


def register_event(e):
    return {'type': event_type(e.type),
            'source_timestamp': optional(e.source_timestamp, ts),
            'payload': optional(e.payload, payload)}


def event_types(types):
    return [event_type(i) for i in types]


def params(p):
    if isinstance(p, common.QueryLatestParams):
        return {'kind': 'latest',
                'event_types': optional(p.event_types, event_types)}
    if isinstance(p, common.QueryTimeseriesParams):
        return {'kind': 'timeseries',
                'event_types': optional(p.event_types, event_types),
                't_from': optional(p.t_from, ts),
                't_to': optional(p.t_to, ts),
                'source_t_from': optional(p.source_t_from, ts),
                'source_t_to': optional(p.source_t_to, ts),
                'order': getattr(p.order, 'name', '?').lower(),
                'order_by': {'TIMESTAMP': 'timestamp',
                             'SOURCE_TIMESTAMP': 'sourceTimestamp'}.get(
                                 getattr(p.order_by, 'name', '?'), '?'),
                'max_results': optional(p.max_results, integer),
                'last_event_id': optional(p.last_event_id, event_id)}
    if isinstance(p, common.QueryServerParams):
        return {'kind': 'server',
                'server_id': integer(p.server_id),
                'persisted': p.persisted,
                'max_results': optional(p.max_results, integer),
                'last_event_id': optional(p.last_event_id, event_id)}
    return {'kind': 'unknown'}


def result(r):
    return {'events': [event(i) for i in r.events],
            'more_follows': r.more_follows}


def status(s):
    return getattr(s, 'name', '?').lower()


def tree(data):
    """Data of the wire"""
    if data is None:
        return 'null'
    if isinstance(data, bool) or isinstance(data, str):
        return data
    if isinstance(data, int):
        return {'i': str(data)}
    if isinstance(data, (bytes, bytearray, memoryview)):
        return {'b': list(bytes(data))}
    if isinstance(data, tuple):
        name, value = data
        if name == 'json':
            return {'c': name, 'v': canonical(json.loads(value))}
        return {'c': name, 'v': tree(value)}
    if isinstance(data, dict):
        return {k: tree(v) for k, v in data.items()}
    return [tree(i) for i in data]


kinds = {
    'event': ('Event', event, common.event_to_sbs, common.event_from_sbs),
    'register': ('RegisterEvent', register_event,
                 common.register_event_to_sbs,
                 common.register_event_from_sbs),
    'params': ('QueryParams', params, common.query_params_to_sbs,
               common.query_params_from_sbs),
    'result': ('QueryResult', result, common.query_result_to_sbs,
               common.query_result_from_sbs),
    'status': ('Status', status, common.status_to_sbs,
               common.status_from_sbs),
    'payload': ('EventPayload', payload, common.event_payload_to_sbs,
                common.event_payload_from_sbs)}


class Run:

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.lines = []

    # values

    def integer(self):
        rng = self.rng
        return rng.choice([rng.choice(int_values), rng.randrange(1000)])

    def event_id(self):
        return common.EventId(self.integer(), self.integer(), self.integer())

    def opt(self, fn):
        return fn() if self.rng.random() < 0.5 else None

    def ts(self):
        return content.rand_ts(self.rng)

    def type(self):
        return tuple(world.random_type(self.rng))

    def types(self):
        return [tuple(i) for i in world.random_subscription(self.rng)]

    def payload(self):
        while True:
            result = world.random_payload(self.rng)
            if result is not None:
                return result

    def event(self):
        return common.Event(self.event_id(), self.type(), self.ts(),
                            self.opt(self.ts), self.opt(self.payload))

    def register(self):
        return common.RegisterEvent(self.type(), self.opt(self.ts),
                                    self.opt(self.payload))

    def params(self):
        rng = self.rng
        kind = rng.randrange(4)
        if kind == 0:
            return common.QueryLatestParams(self.opt(self.types))
        if kind == 1:
            return common.QueryServerParams(
                self.integer(), rng.random() < 0.5, self.opt(self.integer),
                self.opt(self.event_id))
        return common.QueryTimeseriesParams(
            self.opt(self.types), self.opt(self.ts), self.opt(self.ts),
            self.opt(self.ts), self.opt(self.ts),
            rng.choice(list(common.Order)), rng.choice(list(common.OrderBy)),
            self.opt(self.integer), self.opt(self.event_id))

    def result(self):
        return common.QueryResult(
            [self.event() for _ in range(self.rng.choice([0, 1, 2, 5]))],
            self.rng.random() < 0.5)

    def status(self):
        return self.rng.choice(list(common.Status))

    # operations

    def wire(self):
        kind = self.rng.choice(list(kinds))
        name, project, to_sbs, from_sbs = kinds[kind]
        value = getattr(self, kind)()
        line = {'op': 'wire', 'kind': kind, 'x': project(value), 'exc': ''}
        self.lines.append(line)
        try:
            data = common.sbs_repo.encode(f'HatEventer.{name}',
                                          to_sbs(value))
            # encoded data arrives as bytes or as a view
            if self.rng.random() < 0.5:
                data = memoryview(bytes(data))
            data = common.sbs_repo.decode(f'HatEventer.{name}', data)
            line['wire'] = tree(data)
            line['back'] = project(from_sbs(data))
        except Exception as e:
            line['exc'] = type(e).__name__
        return value

    def foreign(self):
        """Wire form with other formatting of JSON"""
        rng = self.rng
        data = world.random_json(rng)
        text = json.dumps(data, indent=rng.choice([None, 2]),
                          ensure_ascii=rng.random() < 0.5)
        value = {'type': list(self.type()),
                 'sourceTimestamp': ('none', None),
                 'payload': ('value', ('json', text))}
        line = {'op': 'foreign', 'kind': 'register', 'exc': '',
                'wire': tree(value)}
        self.lines.append(line)
        try:
            value = common.sbs_repo.decode(
                'HatEventer.RegisterEvent',
                common.sbs_repo.encode('HatEventer.RegisterEvent', value))
            line['back'] = register_event(
                common.register_event_from_sbs(value))
        except Exception as e:
            line['exc'] = type(e).__name__

    def compare(self):
        rng = self.rng
        small = [sorted(rng.sample(int_values, 3)) for _ in range(3)]
        times = sorted({self.ts() for _ in range(3)})
        shared = self.payload()

        def new():
            key = [rng.randrange(3) for _ in range(3)]
            t = rng.randrange(len(times))
            return key, t, common.Event(
                common.EventId(*(small[i][k] for i, k in enumerate(key))),
                self.type(), times[t], self.opt(self.ts),
                rng.choice([None, shared]))

        for _ in range(4):
            a, b = new(), new()
            if rng.random() < 0.15:
                b = a[0], b[1], b[2]._replace(id=a[2].id)
            line = {'op': 'compare'}
            for name, (key, t, _) in (('a', a), ('b', b)):
                line[name] = {'server': key[0], 'session': key[1],
                              'instance': key[2], 'timestamp': t}
            line['lt'] = a[2] < b[2]
            line['gt'] = a[2] > b[2]
            self.lines.append(line)


def run_one(seed, index, focus, scratch):
    run = Run(f'{seed}/{focus}')
    for _ in range(12):
        if focus == 'C05':
            run.compare()
        elif run.rng.random() < 0.1:
            run.foreign()
        else:
            run.wire()
    return {'lines': run.lines, 'seed': seed, 'focus': focus}
