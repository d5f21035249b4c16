"""Concrete events for abstract ones

Abstract (small integer) timestamps, servers and sessions are mapped by order
preserving random tables to concrete values, so that encodings are exercised
with extreme values while the specification works with small integers.
"""

import itertools
import json
import random
import typing

from hat.event import common


payload_strings = ['', 'a', '0', 'čćžšđ', '\u0000', 'x' * 300, '"\\/', '🙂']


def random_json(rng, depth=2) -> typing.Any:
    kind = rng.randrange(8 if depth > 0 else 6)
    if kind == 0:
        return None
    if kind == 1:
        return rng.random() < 0.5
    if kind == 2:
        return rng.choice([0, 1, -1, 2, 255, 256, 65535, -65536, 2 ** 31,
                           -2 ** 31, 2 ** 53, -2 ** 53])
    if kind == 3:
        return rng.choice([0.5, -0.25, 1e10 + 0.5, 1e-5, 123456.789])
    if kind in (4, 5):
        return rng.choice(payload_strings)
    if kind == 6:
        return [random_json(rng, depth - 1) for _ in range(rng.randrange(4))]
    return {rng.choice(['a', 'b', 'c', '', 'ž']): random_json(rng, depth - 1)
            for _ in range(rng.randrange(4))}


def random_payload(rng) -> common.EventPayload | None:
    kind = rng.randrange(4)
    if kind == 0:
        return None
    if kind == 1:
        return common.EventPayloadBinary(
            type=rng.choice(['', 't', 'some type', 'ž']),
            data=rng.choice([b'', b'\x00', b'\x00\x01\x02', b'abc\x00',
                             bytes(range(256)), b'\xff' * 5]))
    return common.EventPayloadJson(random_json(rng))


def json_tag(data):
    """JSON data as used by Conditions.tla"""
    if data is None:
        return {'t': 'null'}
    if isinstance(data, bool):
        return {'t': 'boolean', 'v': str(data)}
    if isinstance(data, (int, float)):
        if isinstance(data, float) and data.is_integer():
            data = int(data)
        return {'t': 'number', 'v': repr(data)}
    if isinstance(data, str):
        return {'t': 'string', 'v': data}
    if isinstance(data, list):
        return {'t': 'array', 'v': [json_tag(i) for i in data]}
    return {'t': 'object', 'v': [[k, json_tag(v)] for k, v in data.items()]}


def payload_tag(payload):
    if payload is None:
        return {'t': 'none'}
    if isinstance(payload, common.EventPayloadBinary):
        return {'t': 'binary'}
    return {'t': 'json', 'v': json_tag(payload.data)}


def payload_key(payload):
    if payload is None:
        return None
    if isinstance(payload, common.EventPayloadBinary):
        return ('binary', payload.type, bytes(payload.data))
    if isinstance(payload, common.EventPayloadJson):
        return ('json', json.dumps(payload.data, sort_keys=True))
    return ('?', repr(payload))


def event_key(event):
    """Strict identity of event's content"""
    def ts_key(t):
        return (t if t is None else
                (type(t) is common.Timestamp, int(t.s), int(t.us)))

    return (event.id, isinstance(event.type, tuple), tuple(event.type),
            ts_key(event.timestamp), ts_key(event.source_timestamp),
            payload_key(event.payload))


extreme_seconds = [-(1 << 63), -(1 << 62), -(1 << 40), -(1 << 32),
                   -(1 << 31) - 1, -86401, -256, -255, -2, -1, 0, 1, 2, 255,
                   256, 65535, 65536, (1 << 31) - 1, 1 << 31, 1 << 32,
                   1_700_000_000, 1 << 40, 1 << 62, (1 << 63) - 1]

extreme_us = [0, 1, 255, 256, 499_999, 500_000, 999_999]


class World:
    """Concretisation tables and event registry of one scenario"""

    def __init__(self, rng: random.Random, base: int, *, levels=24,
                 affine=False):
        self.rng = rng
        self.base = base
        self.events = []     # trace records
        self.concrete = []   # common.Event
        self._index = {}
        self.spellings = {}
        self.affine = affine
        self.levels = levels

        if affine:
            self.origin = rng.choice([0, -10, 1_000_000, -1_000_000,
                                      1_700_000_000])
            self.step = rng.choice([1, 2, 0.25, 0.5])
        else:
            values = set()
            while len(values) < levels:
                values.add((rng.choice(extreme_seconds),
                            rng.choice(extreme_us)))
            self._times = sorted(values)

        self.servers = sorted(rng.sample(
            [1, 2, 3, 255, 256, 257, 65536, (1 << 32) - 1, 1 << 32,
             (1 << 62) + 3], 4))
        self.sessions = [0, *sorted(rng.sample(
            [1, 2, 3, 4, 9, 10, 255, 256, 257, 65535, 65536, (1 << 31) - 1,
             1 << 31, (1 << 32) - 1, 1 << 32, 1 << 48, (1 << 63) - 1,
             *range(20, 60)], 40))]
        self.instances = [0, *sorted(rng.sample(
            [1, 2, 3, 255, 256, 257, 65535, 65536, 1 << 31, 1 << 32,
             (1 << 63) - 1, *range(10, 100, 7)], 20))]

    # abstract -> concrete

    def time(self, k: int) -> common.Timestamp:
        if self.affine:
            x = k * self.step
            s = int(x // 1)
            return common.Timestamp(self.origin + s,
                                    int(round((x - s) * 1e6)))
        return common.Timestamp(*self._times[k])

    def seconds(self, k: int) -> float:
        return k * self.step

    def clock(self, k: int) -> float:
        return self.origin + k * self.step

    def id(self, srv, sess, inst) -> common.EventId:
        return common.EventId(self.servers[srv], self.sessions[sess],
                              self.instances[inst])

    # concrete -> abstract

    def abs_id(self, event_id):
        """[sess, inst], [-1, -1] if there is no such"""
        try:
            return [self.sessions.index(event_id.session),
                    self.instances.index(event_id.instance)]
        except ValueError:
            return [-1, -1]

    def add(self, srv, sess, inst, ts, sts, type, payload) -> int:
        """Create event, returns its identifier"""
        event = common.Event(
            id=self.id(srv, sess, inst), type=tuple(type),
            timestamp=self.time(ts),
            source_timestamp=self.time(sts) if sts is not None else None,
            payload=payload)
        key = event_key(event)
        if key in self._index:
            return self._index[key]
        self.concrete.append(event)
        self.events.append({'srv': srv, 'sess': sess, 'inst': inst, 'ts': ts,
                            'has_sts': sts is not None,
                            'sts': sts if sts is not None else 0,
                            'type': list(type),
                            'payload': payload_tag(payload)})
        eid = self.base + len(self.events)
        self._index[key] = eid
        return eid

    def get(self, eid) -> common.Event:
        return self.concrete[eid - self.base - 1]

    def rec(self, eid):
        return self.events[eid - self.base - 1]

    def eid(self, event) -> int:
        """Identifier of concrete event, 0 if it was never created"""
        try:
            return self._index.get(event_key(event), 0)
        except Exception:
            return 0


subtypes = ['a', 'b', 'c']


def random_type(rng, max_len=3):
    n = rng.choice([0, 1, 1, 2, 2, 3])
    return [rng.choice(subtypes) for _ in range(min(n, max_len))]


def random_query_type(rng):
    q = [rng.choice(['a', 'b', 'c', '?']) for _ in range(rng.randrange(3))]
    if rng.random() < 0.5:
        q.append('*')
    elif rng.random() < 0.7:
        q.append(rng.choice(['a', 'b', 'c', '?']))
    return q


def random_subscription(rng, allow_all=0.3):
    if rng.random() < allow_all:
        return [['*']]
    return [random_query_type(rng) for _ in range(rng.choice([1, 1, 2, 3]))]


def q_matches(q, t):
    star = bool(q) and q[-1] == '*'
    n = len(q) - 1 if star else len(q)
    if len(t) < n or (not star and len(t) != n):
        return False
    return all(q[i] in ('?', t[i]) for i in range(n))


_universe = [t for n in range(5)
             for t in itertools.product(['a', 'b', 'c', 'z'], repeat=n)]


def signature(subs):
    """Event types matched by subscription (in representative universe)"""
    return frozenset(t for t in _universe
                     if any(q_matches(q, t) for q in subs))


def normalize(subs, spellings):
    """Subscription without redundant query types

    Equivalent subscriptions always get the same spelling, since partitions
    of the storage are identified by the (normalized) spelling.
    """
    sig = signature(subs)
    if sig not in spellings:
        subs = sorted({tuple(i) for i in subs})
        sigs = {q: signature([q]) for q in subs}
        spellings[sig] = [list(q) for q in subs
                          if not any(q != i and sigs[q] <= sigs[i]
                                     for i in subs)]
    return spellings[sig]
