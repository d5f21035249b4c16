"""Subscriptions, collections and timestamps (CommonTrace.tla)"""

import datetime
import functools
import importlib
import itertools
import os
import random
import time

from hat.event import common


pool = ['a', 'b', 'c', '', 'A', 'a b', 'a/b', '/', '.', '**', '??', '*a', 'a*',
        '?a', '\u017e', '\u4e2d\u6587', '\U0001f600', 'aa', 'ab', 'x' * 40,
        '0', '1', 'null', '\n', '#', '+', '$']


class SubsRun:

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.lines = []
        rng = self.rng
        names = rng.sample(pool, 4)
        self.concrete = dict(zip(['a', 'b', 'c', 'z'], names))
        self.concrete.update({'?': '?', '*': '*'})
        self.abstract = {v: k for k, v in self.concrete.items()}
        self.alphabet = rng.choice([['a', 'b', 'c', '?'], ['a', 'b', '?'],
                                    ['a', '?', '?'], ['a', 'b', 'c']])
        self.star = rng.choice([0.2, 0.5, 0.8])
        self.max_len = rng.choice([1, 2, 2, 3])
        # several branches on each of levels
        self.grid = self.max_len == 2 and rng.random() < 0.6

    def q(self):
        rng = self.rng
        star = rng.random() < self.star
        n = rng.randrange(self.max_len + (0 if star else 1))
        return ([rng.choice(self.alphabet) for _ in range(n)] +
                (['*'] if star else []))

    def qs(self):
        rng = self.rng
        if self.grid and rng.random() < 0.8:
            return [[rng.choice(['a', 'b', '?', '?']),
                     *rng.choice([['a'], ['b'], ['z'], ['?'], ['*'], ['a'],
                                  ['b'], []])]
                    for _ in range(rng.choice([2, 2, 3, 4]))]
        return [self.q() for _ in range(self.rng.choice([0, 1, 1, 2, 2, 3,
                                                         5]))]

    def c(self, t):
        return tuple(self.concrete[i] for i in t)

    def a(self, t):
        return [self.abstract.get(i, 'unknown') for i in t]

    def type(self):
        rng = self.rng
        n = rng.randrange(self.max_len + 2)
        return [rng.choice(['a', 'b', 'c', 'z']) for _ in range(n)]

    def log(self, op, exc=None, **kwargs):
        self.lines.append({'op': op, 'exc': '' if exc is None else
                           type(exc).__name__, **kwargs})

    def attempt(self, op, fn, **kwargs):
        exc = None
        result = None
        try:
            result = fn()
        except Exception as e:
            exc = e
        if exc is not None:
            self.log(op, exc, **kwargs)
        return exc is None, result

    def universe(self):
        n = self.max_len + 1
        alphabet = ['a', 'b', 'z'] if self.max_len < 3 else ['a', 'z']
        if self.max_len < 2:
            alphabet = ['a', 'b', 'c', 'z']
        return [list(i) for k in range(n + 1)
                for i in itertools.product(alphabet, repeat=k)]


def subscription_classes():
    result = [common.create_subscription]
    for module, name in [('pysubscription', 'PySubscription'),
                         ('csubscription', 'CSubscription')]:
        try:
            module = importlib.import_module(
                f'hat.event.common.subscription.{module}')
            result.append(getattr(module, name))
        except (ImportError, AttributeError):
            pass
    return result


def collection_classes():
    result = [common.create_event_type_collection]
    for module, name in [('pytree', 'PyTreeEventTypeCollection'),
                         ('pylist', 'PyListEventTypeCollection'),
                         ('ctree', 'CTreeEventTypeCollection')]:
        try:
            module = importlib.import_module(
                f'hat.event.common.collection.{module}')
            result.append(getattr(module, name))
        except (ImportError, AttributeError):
            pass
    return result


def run_subs(seed):
    run = SubsRun(seed)
    rng = run.rng
    classes = subscription_classes()
    subs = []
    for _ in range(rng.randrange(4, 14)):
        kind = rng.random()
        if len(subs) < 2 or kind < 0.35:
            qs = run.qs()
            ok, sub = run.attempt(
                'new', lambda: rng.choice(classes)([run.c(i) for i in qs]),
                qs=qs)
            if not ok:
                break
            run.log('new', qs=qs)
        elif kind < 0.4:
            q = run.q()
            q = [i for i in q if i != '*'] + ['*'] + [rng.choice('abc?*')]
            ok, _ = run.attempt('invalid',
                                lambda: rng.choice(classes)([run.c(q)]))
            if ok:
                run.log('invalid')
            continue
        else:
            op = rng.choice(['union', 'intersection', 'intersection'])
            a = rng.randrange(len(subs))
            others = [rng.randrange(len(subs))
                      for _ in range(rng.choice([0, 1, 1, 1, 2]))]
            args = {'a': a + 1, 'others': [i + 1 for i in others]}
            ok, sub = run.attempt(
                op, lambda: getattr(subs[a], op)(*[subs[i] for i in others]),
                **args)
            if not ok:
                break
            run.log(op, **args)
        subs.append(sub)
        a = len(subs) - 1
        for a in {a, rng.randrange(len(subs))}:
            pairs = []
            types = [run.type() for _ in range(8)]
            ok, _ = run.attempt(
                'matches',
                lambda: pairs.extend([t, bool(subs[a].matches(run.c(t)))]
                                     for t in types),
                a=a + 1, res=[])
            if ok:
                run.log('matches', a=a + 1, res=pairs)
        for _ in range(2):
            a = rng.choice([len(subs) - 1, rng.randrange(len(subs))])
            b = rng.randrange(len(subs))
            ok, res = run.attempt('disjoint',
                                  lambda: subs[a].isdisjoint(subs[b]),
                                  a=a + 1, b=b + 1, res=False)
            if ok:
                run.log('disjoint', a=a + 1, b=b + 1, res=bool(res))
        if rng.random() < 0.4:
            a = rng.randrange(len(subs))
            ok, res = run.attempt(
                'query_types', lambda: [run.a(i) for i in
                                        subs[a].get_query_types()],
                a=a + 1, res=[])
            if ok:
                run.log('query_types', a=a + 1, res=res)
        for _ in range(3):
            q, t = run.q(), run.type()
            ok, res = run.attempt(
                'matches_query',
                lambda: common.matches_query_type(run.c(t), run.c(q)),
                q=q, t=t, res=False)
            if ok:
                run.log('matches_query', q=q, t=t, res=bool(res))
    return run


def run_collection(seed):
    run = SubsRun(seed)
    rng = run.rng
    classes = collection_classes()
    sub_classes = subscription_classes()
    values = ['v1', 'v2', 'v3', 'v4'][:rng.randrange(1, 5)]
    concrete = dict(zip(values, [1, 'x', (1, 2), frozenset([1])]))
    abstract = {v: k for k, v in concrete.items()}

    def sub(qs):
        return rng.choice(sub_classes)([run.c(i) for i in qs])

    cls = rng.choice(classes)
    initial = [(run.qs(), rng.choice(values))
               for _ in range(rng.choice([0, 0, 1, 3]))]
    items = [(sub(qs), concrete[v]) for qs, v in initial]
    ok, coll = run.attempt('add', lambda: cls(items) if items else cls(),
                           qs=[], v='v1')
    if not ok:
        return run
    for qs, v in initial:
        run.log('add', qs=qs, v=v)
    for _ in range(rng.randrange(5, 25)):
        kind = rng.random()
        if kind < 0.4:
            qs, v = run.qs(), rng.choice(values)
            ok, _ = run.attempt('add', lambda: coll.add(sub(qs), concrete[v]),
                                qs=qs, v=v)
            if ok:
                run.log('add', qs=qs, v=v)
        elif kind < 0.55:
            v = rng.choice(values)
            ok, _ = run.attempt('remove', lambda: coll.remove(concrete[v]),
                                v=v)
            if ok:
                run.log('remove', v=v)
        else:
            t = run.type()
            ok, res = run.attempt(
                'get', lambda: [abstract.get(i, 'unknown')
                                for i in coll.get(run.c(t))], t=t, res=[])
            if ok:
                run.log('get', t=t, res=res)
    return run


def limbs(s):
    """Seconds with added 2^63"""
    x = (s + (1 << 63)) & ((1 << 64) - 1)
    return [(x >> i) & 0xffff for i in (48, 32, 16, 0)]


def ts_rec(t):
    return {'s': limbs(t.s), 'us': t.us}


def any_ts(t):
    """Result of the code under test"""
    if (not isinstance(t, common.Timestamp) or not isinstance(t.s, int) or
            not isinstance(t.us, int) or not -(1 << 63) <= t.s < (1 << 63) or
            not -(1 << 30) < t.us < (1 << 30)):
        return {'s': [0, 0, 0, 0], 'us': -1}
    return ts_rec(t)


def run_timestamps(seed):
    run = SubsRun(seed)
    rng = run.rng
    lo, hi = -(1 << 63), (1 << 63) - 1

    def second(lo=lo, hi=hi):
        kind = rng.randrange(5)
        if kind == 0:
            x = rng.choice([0, -1, 1, lo, hi, -86400, 86399, -86401, 86400])
        elif kind == 1:
            x = rng.choice([1, -1]) * (1 << rng.randrange(64)) + \
                rng.randrange(-2, 3)
        elif kind == 2:
            x = rng.randrange(-100_000, 100_000)
        else:
            x = rng.randrange(lo, hi + 1)
        return min(max(x, lo), hi)

    def us():
        return rng.choice([0, 1, 999_999, 500_000, 999_998, 255, 256, 65535,
                           65536, rng.randrange(1_000_000)])

    def ts(*args):
        return common.Timestamp(second(*args), us())

    # year 1 .. 9999 (without the first and last day)
    dt_lo, dt_hi = -62135510400, 253402214399

    for _ in range(12):
        t = ts()
        ok, res = run.attempt(
            'bytes', lambda: bytes(common.timestamp_to_bytes(t)),
            t=ts_rec(t))
        if ok:
            ok, back = run.attempt(
                'bytes', lambda: common.timestamp_from_bytes(res),
                t=ts_rec(t))
        if ok:
            run.log('bytes', t=ts_rec(t), res=list(res), back=any_ts(back))

        # wire
        ok, back = run.attempt(
            'round',
            lambda: common.timestamp_from_sbs(common.sbs_repo.decode(
                'HatEventer.Timestamp', common.sbs_repo.encode(
                    'HatEventer.Timestamp', common.timestamp_to_sbs(t)))),
            t=ts_rec(t))
        if ok:
            run.log('round', t=ts_rec(t), back=any_ts(back))

        # float
        t = ts(-(1 << 31), 1 << 31)
        ok, back = run.attempt(
            'round',
            lambda: common.timestamp_from_float(common.timestamp_to_float(t)),
            t=ts_rec(t))
        if ok:
            run.log('round', t=ts_rec(t), back=any_ts(back))

        # order
        a, b = ts(), ts()
        kind = rng.randrange(4)
        if kind == 0:
            b = common.Timestamp(a.s, us())
        elif kind == 1:
            b = common.Timestamp(min(a.s + 1, hi), us())
        elif kind == 2:
            b = common.Timestamp(max(-a.s, lo) if a.s > lo else hi, a.us)

        def order():
            x = bytes(common.timestamp_to_bytes(a))
            y = bytes(common.timestamp_to_bytes(b))
            return {'lt': a < b, 'eq': a == b, 'blt': x < y, 'beq': x == y}

        ok, res = run.attempt('order', order, a=ts_rec(a), b=ts_rec(b))
        if ok:
            run.log('order', a=ts_rec(a), b=ts_rec(b), **res)

        # date-time
        t = ts(dt_lo, dt_hi)
        data = {'t': ts_rec(t), 'day': t.s // 86400, 'sod': t.s % 86400}
        utc = datetime.timezone.utc
        zone = datetime.timezone(datetime.timedelta(
            minutes=rng.randrange(-14 * 60, 14 * 60)))

        def dt():
            x = common.timestamp_to_datetime(t)
            if x.utcoffset() != datetime.timedelta(0):
                x = x.replace(microsecond=(x.microsecond + 1) % 1_000_000)
            # exact value, independent of the code under test
            y = (datetime.datetime(1970, 1, 1, tzinfo=utc) +
                 datetime.timedelta(days=t.s // 86400, seconds=t.s % 86400,
                                    microseconds=t.us))
            return {
                'res': [x.year, x.month, x.day, x.hour, x.minute, x.second,
                        x.microsecond],
                'back': any_ts(common.timestamp_from_datetime(x)),
                'naive': any_ts(common.timestamp_from_datetime(
                    y.replace(tzinfo=None))),
                'zoned': any_ts(common.timestamp_from_datetime(
                    y.astimezone(zone)))}

        ok, res = run.attempt('datetime', dt, **data)
        if ok:
            run.log('datetime', **data, **res)

        # duration which is exact as a float
        t = ts()
        ds = rng.choice([0, 1, -1, rng.randrange(-100, 100),
                         rng.randrange(-(1 << 31), 1 << 31)])
        dus = rng.choice([0, 500_000, 250_000, 750_000, 15_625, 984_375,
                          rng.randrange(64) * 15_625])
        if not lo + 1 < t.s + ds < hi - 1:
            continue
        d = ds + dus / 1_000_000
        data = {'t': ts_rec(t),
                'd': {'s': limbs(ds - (1 << 63)), 'us': dus}}
        ok, res = run.attempt('addseconds', lambda: t.add(d), **data)
        if ok:
            run.log('addseconds', **data, res=any_ts(res))
    return run


def with_zone(fn, seed):
    # local time zone doesn't matter
    previous = os.environ.get('TZ')
    os.environ['TZ'] = random.Random(seed).choice(
        ['UTC0', 'XXX+5', 'YYY-9:30', 'ZZZ-1SSS'])
    time.tzset()
    try:
        return fn(seed)
    finally:
        if previous is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = previous
        time.tzset()


def run_one(seed, index, focus, scratch):
    run = {'C01': run_subs,
           'C02': run_collection,
           'C03': functools.partial(with_zone, run_timestamps)}[focus](f'{seed}/{focus}')
    return {'lines': run.lines, 'universe': run.universe(),
            'seed': seed, 'focus': focus}
