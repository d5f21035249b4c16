"""Command lines of the event manager (CliTrace.tla)

Commands are run by the entry point of the tool, which connects to an eventer
server running in another thread (real event loops and network).
"""

from pathlib import Path
import asyncio
import io
import json
import random
import shutil
import sys
import tempfile
import threading
import time

from hat.drivers import tcp

from hat.event import common
from hat.event import eventer

from drivers import tools
from drivers import world


class ServerThread:
    """Eventer server used by a single command"""

    def __init__(self, plan):
        self.plan = plan
        self.conns = []
        self.reqs = []
        self.port = None
        self.error = None
        self._stop = None
        self._ready = threading.Event()
        self._thread = threading.Thread(target=self._run, daemon=True)

    def __enter__(self):
        self._thread.start()
        self._ready.wait(30)
        return self

    def __exit__(self, *args):
        self._loop.call_soon_threadsafe(self._stop.set)
        self._thread.join(30)

    def _run(self):
        loop = asyncio.new_event_loop()
        try:
            loop.run_until_complete(self._main())
        except Exception as e:
            self.error = e
        finally:
            self._ready.set()
            loop.close()

    async def _main(self):
        self._loop = asyncio.get_running_loop()
        self._stop = asyncio.Event()
        for i in range(100):
            port = random.SystemRandom().randrange(20000, 60000)
            try:
                server = await eventer.listen(
                    tcp.Address('127.0.0.1', port),
                    connected_cb=self._on_connected,
                    register_cb=self._on_register,
                    query_cb=self._on_query)
                break
            except OSError:
                continue
        self.port = port
        self._ready.set()
        notifier = None
        if self.plan.get('batches') is not None:
            notifier = asyncio.ensure_future(self._notify(server))
        await self._stop.wait()
        if notifier:
            notifier.cancel()
        await server.async_close()

    async def _notify(self, server):
        while not server.get_conn_infos():
            await asyncio.sleep(0.001)
        for events, persisted in self.plan['batches']:
            await server.notify_events(events, persisted, with_ack=True)
        await server.async_close()

    def _on_connected(self, info):
        self.conns.append(info)

    def _on_register(self, info, events):
        self.reqs.append(list(events))
        return self.plan.get('registered')

    def _on_query(self, info, params):
        self.reqs.append(params)
        return self.plan['result']


names = ['a', 'b', 'c']


class Run:

    def __init__(self, seed, base, scratch):
        self.rng = random.Random(f'{seed}/cli')
        self.w = world.World(self.rng, base)
        self.lines = []
        self.dir = Path(tempfile.mkdtemp(dir=scratch))

    # options

    def maybe(self, p=0.5):
        return self.rng.random() < p

    def types(self, n=None):
        rng = self.rng
        result = []
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if n is None else n):
            t = world.random_query_type(rng)
            result.append(t or [rng.choice(['', 'a'])])
        return result

    def text(self, t):
        return '/'.join(t)

    def time_option(self, args, key):
        """Eights of a second"""
        rng = self.rng
        kind = rng.random()
        if kind < 0.5:
            return {'k': 'none', 'v': 0}
        if kind < 0.6:
            args.append([f'--{key}', 'now'])
            return {'k': 'now', 'v': 0}
        v = rng.choice([0, 8, 1, -1, -9, rng.randrange(-10_000, 10_000),
                        rng.randrange(1 << 30)])
        text = rng.choice([repr(v / 8), f'{v / 8:.6f}', f'+{v / 8}'
                           if v >= 0 else f'{v / 8}'])
        args.append([f'--{key}={text}'] if rng.random() < 0.5 else
                    [f'--{key}', text])
        return {'k': 'time', 'v': v}

    def int_option(self, args, key, values, p=0.5):
        if not self.maybe(p):
            return {'k': 'none', 'v': 0}
        v = self.rng.choice(values)
        args.append([f'--{key}', str(v)])
        return {'k': 'int', 'v': v}

    def id_option(self, args):
        if not self.maybe(0.4):
            return {'k': 'none', 'v': [0, 0, 0]}
        v = [self.rng.choice([0, 1, 2, 3, 255, 256, 1 << 30])
             for _ in range(3)]
        args.append(['--last-event-id', ','.join(str(i) for i in v)])
        return {'k': 'id', 'v': v}

    def word_option(self, args, key, values, p=0.5):
        if not self.maybe(p):
            return {'k': 'none', 'v': ''}
        v = self.rng.choice(values)
        args.append([f'--{key}', v])
        return {'k': 'word', 'v': v}

    # abstraction of what is received

    def abs_time(self, t):
        if t is None:
            return {'k': 'none', 's': 0, 'us': 0}
        try:
            if self.t0 - 1 <= t.s + t.us / 1e6 <= time.time() + 1:
                return {'k': 'now', 's': 0, 'us': 0}
            assert isinstance(t, common.Timestamp)
            assert -(1 << 31) < t.s < (1 << 31) and 0 <= t.us < 1_000_000
            return {'k': 'time', 's': t.s, 'us': t.us}
        except Exception:
            return {'k': 'invalid', 's': 0, 'us': 0}

    def abs_types(self, types):
        return [list(i) for i in types]

    def abs_int(self, i):
        return {'k': 'none', 'v': 0} if i is None else {'k': 'int', 'v': i}

    def abs_event_id(self, i):
        return ({'k': 'none', 'v': [0, 0, 0]} if i is None else
                {'k': 'id', 'v': [i.server, i.session, i.instance]})

    def abs_conn(self, info):
        return {'name': info.client_name,
                'token': (info.client_token if info.client_token is not None
                          else 'null'),
                'subs': self.abs_types(info.subscription.get_query_types()),
                'server': self.abs_int(info.server_id),
                'persisted': bool(info.persisted)}

    def abs_req(self, req, data=None):
        if isinstance(req, list):
            if len(req) != 1:
                return {'kind': 'invalid'}
            payload = req[0].payload
            if payload is None:
                payload = {'k': 'none', 'type': '', 'same': True}
            elif isinstance(payload, common.EventPayloadBinary):
                payload = {'k': 'binary', 'type': payload.type,
                           'same': bytes(payload.data) == data}
            else:
                payload = {'k': 'json', 'type': '',
                           'same': world.json_tag(payload.data) == (
                               world.json_tag(data)
                               if not isinstance(data, bytes) else None)}
            return {'kind': 'register', 'type': list(req[0].type),
                    'sts': self.abs_time(req[0].source_timestamp),
                    'payload': payload}
        if isinstance(req, common.QueryLatestParams):
            return {'kind': 'latest',
                    'has_types': req.event_types is not None,
                    'types': self.abs_types(req.event_types or [])}
        if isinstance(req, common.QueryTimeseriesParams):
            return {'kind': 'timeseries',
                    'has_types': req.event_types is not None,
                    'types': self.abs_types(req.event_types or []),
                    'tf': self.abs_time(req.t_from),
                    'tt': self.abs_time(req.t_to),
                    'stf': self.abs_time(req.source_t_from),
                    'stt': self.abs_time(req.source_t_to),
                    'order': req.order.name,
                    'order_by': req.order_by.name,
                    'max': self.abs_int(req.max_results),
                    'lid': self.abs_event_id(req.last_event_id)}
        return {'kind': 'server', 'server': req.server_id,
                'persisted': bool(req.persisted),
                'max': self.abs_int(req.max_results),
                'lid': self.abs_event_id(req.last_event_id)}

    def abs_event(self, data):
        try:
            payload = data['payload']
            if payload is not None:
                if payload['data_type'] == 'binary':
                    payload = common.EventPayloadBinary(
                        type=payload['binary_type'],
                        data=bytes.fromhex(payload['data']))
                else:
                    assert payload['data_type'] == 'json'
                    payload = common.EventPayloadJson(payload['data'])
            ts = data['source_timestamp']
            assert set(data) == {'id', 'type', 'timestamp',
                                 'source_timestamp', 'payload'}
            return self.w.eid(common.Event(
                id=common.EventId(**data['id']),
                type=tuple(data['type']),
                timestamp=common.Timestamp(**data['timestamp']),
                source_timestamp=common.Timestamp(**ts) if ts else None,
                payload=payload))
        except Exception:
            return 0

    # commands

    def event(self):
        rng = self.rng
        return self.w.add(
            rng.randrange(3), rng.randrange(1, 30), rng.randrange(1, 15),
            rng.randrange(20), rng.choice([None, rng.randrange(20)]),
            world.random_type(rng), world.random_payload(rng))

    def run(self, cmd, args, plan, data=None, stdin=None):
        from hat.event.manager.main import main
        exc = None
        self.t0 = time.time()
        saved = sys.stdin
        with ServerThread(plan) as server:
            if server.error:
                raise server.error
            options = [['--host', '127.0.0.1'], ['--port', str(server.port)]]
            name = self.word_option(options, 'client-name',
                                    ['x', 'manager', 'a/b', 'ž'])
            token = self.word_option(options, 'client-token', ['', 't', 'ž'])
            self.rng.shuffle(options)
            if stdin is not None:
                sys.stdin = io.TextIOWrapper(io.BytesIO(stdin),
                                             encoding='utf-8')
            try:
                exc, out = tools.run_main(main, *sum(options, []), *args)
            finally:
                sys.stdin = saved
        if exc is None and server.error:
            raise server.error
        code = 0
        text = str(exc or '')
        if text.startswith('exit code '):
            code = int(text[10:]) if text[10:].isdigit() else 1
            exc = None
        printed = []
        try:
            for i in out.splitlines():
                x = json.loads(i)
                if isinstance(x, dict):
                    printed.append({
                        'events': [self.abs_event(i) for i in x['events']],
                        'more': x['more_follows']})
                else:
                    printed.append({'events': [self.abs_event(i) for i in x],
                                    'more': False})
        except Exception:
            printed.append({'events': [0], 'more': False})
        self.lines.append({
            'op': 'cmd', 'cmd': {'name': name, 'token': token, **cmd},
            'exc': '' if exc is None else type(exc).__name__, 'code': code,
            'conns': [self.abs_conn(i) for i in server.conns],
            'reqs': [self.abs_req(i, data) for i in server.reqs],
            'out': printed})

    def positional(self, args, values):
        """Options and positional arguments in an unambiguous order"""
        self.rng.shuffle(args)
        return [*sum(args, []), *values]

    def cmd_query(self):
        rng = self.rng
        result = [self.event() for _ in range(rng.randrange(4))]
        more = rng.random() < 0.5
        plan = {'result': common.QueryResult([self.w.get(i) for i in result],
                                             more)}
        kind = rng.choice(['latest', 'timeseries', 'timeseries', 'server'])
        args = []
        cmd = {'action': kind, 'result': result, 'more': more}
        if kind in ('latest', 'timeseries'):
            cmd['has_types'] = self.maybe(0.6)
            cmd['types'] = self.types() if cmd['has_types'] else []
            if cmd['has_types']:
                args.append(['--event-types',
                             *[self.text(i) for i in cmd['types']]])
        if kind == 'timeseries':
            for key, name in [('tf', 't-from'), ('tt', 't-to'),
                              ('stf', 'source-t-from'),
                              ('stt', 'source-t-to')]:
                cmd[key] = self.time_option(args, name)
            cmd['order'] = self.word_option(args, 'order',
                                            ['ASCENDING', 'DESCENDING'])
            cmd['order_by'] = self.word_option(
                args, 'order-by', ['TIMESTAMP', 'SOURCE_TIMESTAMP'])
        values = []
        if kind in ('timeseries', 'server'):
            cmd['max'] = self.int_option(args, 'max-results',
                                         [0, 1, 2, 100, 1 << 30])
            cmd['lid'] = self.id_option(args)
        if kind == 'server':
            cmd['server'] = rng.choice([0, 1, 2, 255, 1 << 30])
            values.append(str(cmd['server']))
            cmd['persisted'] = self.maybe()
            if cmd['persisted']:
                args.append(['--persisted'])
        self.run(cmd, ['query', kind, *self.positional(args, values)], plan)

    def cmd_register(self):
        rng = self.rng
        args = []
        cmd = {'action': 'register', 'type': (world.random_type(rng) or
                                              [rng.choice(['', 'x'])])}
        cmd['sts'] = self.time_option(args, 'source-timestamp')
        cmd['ptype'] = self.word_option(
            args, 'payload-type', ['json', 'yaml', 'toml', 'binary', 'none'],
            p=0.7)
        cmd['btype'] = self.word_option(args, 'binary-type', ['', 'T', 'ž'],
                                        p=0.4)
        suffix = rng.choice(['-', '-', '.json', '.yaml', '.yml', '.toml',
                             '.bin', ''])
        cmd['path'] = suffix
        fmt = cmd['ptype']['v']
        if not fmt:
            fmt = {'-': 'json', '.json': 'json', '.yaml': 'yaml',
                   '.yml': 'yaml', '.toml': 'toml'}.get(suffix, 'binary')
        if fmt == 'toml':
            data = {'a': rng.choice([1, 'x', 2.5, True]),
                    'ž': {'b': [1, 2], 'c': 'd'}}
            raw = ''.join([f'a = {json.dumps(data["a"])}\n',
                           '["ž"]\nb = [1, 2]\nc = "d"\n']).encode('utf-8')
        elif fmt == 'yaml':
            data = rng.choice([{'a': [1, None, 'x']}, 'text', 12, None,
                               [True, {'ž': 2.5}]])
            raw = json.dumps(data).encode('utf-8')
            if data == {'a': [1, None, 'x']}:
                raw = b'a:\n  - 1\n  - null\n  - x\n'
        elif fmt == 'json':
            data = world.cond_json(rng) if hasattr(world, 'cond_json') else \
                rng.choice([{'a': [1, None, 'x']}, 'text', 12, None, 2.5,
                            [True, {'ž': {}}], ''])
            raw = json.dumps(data).encode('utf-8')
        elif fmt == 'binary':
            data = rng.choice([b'', b'\x00\xff\r\n', b'abc\n',
                               bytes(range(256))])
            raw = data
        else:
            data = None
            raw = b'{'
        stdin = None
        if suffix == '-':
            stdin = raw
            if rng.random() < 0.5:
                args.append(['--payload-path', '-'])
        else:
            path = self.dir / f'payload{suffix}'
            path.write_bytes(raw)
            args.append(['--payload-path', str(path)])
        cmd['ok'] = rng.random() < 0.7
        plan = {'registered': ([self.w.get(self.event())] if cmd['ok']
                               else None)}
        self.run(cmd, ['register', *self.positional(args,
                                                    [self.text(cmd['type'])])],
                 plan, data, stdin)

    def cmd_subscribe(self):
        rng = self.rng
        args = []
        cmd = {'action': 'subscribe', 'types': self.types()}
        cmd['server'] = self.int_option(args, 'server-id',
                                        [i for i in self.w.servers[:3]
                                         if i < (1 << 31)], p=0.4)
        cmd['persisted'] = self.maybe()
        if cmd['persisted']:
            args.append(['--persisted'])
        batches = [([self.event() for _ in range(rng.randrange(1, 4))],
                    rng.random() < 0.5) for _ in range(rng.randrange(1, 5))]
        cmd['batches'] = [{'events': e, 'persisted': p} for e, p in batches]
        plan = {'batches': [([self.w.get(i) for i in e], p)
                            for e, p in batches]}
        self.run(cmd, ['subscribe',
                       *self.positional(args, [self.text(i)
                                               for i in cmd['types']])], plan)

    def cmd_invalid(self):
        args = self.rng.choice([
            ['query', 'server'],
            ['query', 'server', 'x'],
            ['query', 'timeseries', '--order', 'UP'],
            ['query', 'timeseries', '--order-by', 'NAME'],
            ['query', 'timeseries', '--last-event-id', '1,2'],
            ['query', 'timeseries', '--last-event-id', '1,2,x'],
            ['query', 'timeseries', '--max-results', 'x'],
            ['query', 'timeseries', '--t-from', 'yesterday'],
            ['query', 'all'],
            ['register'],
            ['register', '--payload-type', 'text', 'a'],
            ['subscribe', '--server-id', 'x'],
            []])
        self.run({'action': 'invalid'}, args, {})

    def main(self):
        rng = self.rng
        try:
            for _ in range(rng.randrange(3, 7)):
                rng.choice([self.cmd_query] * 5 + [self.cmd_register] * 3 +
                           [self.cmd_subscribe, self.cmd_invalid])()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def run_one(seed, index, focus, scratch):
    run = Run(seed, (index + 1) * 1000, scratch)
    run.main()
    return {'events': run.w.events or [{}], 'servers': [
                i if i < (1 << 31) else -2 for i in run.w.servers],
            'lines': run.lines, 'seed': seed, 'focus': focus}
