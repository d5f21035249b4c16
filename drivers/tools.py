"""Database tools: copy, convert and LMDB manager queries (ToolsTrace.tla)"""

from pathlib import Path
import contextlib
import copy
import io
import json
import os
import random
import shutil
import struct
import sys
import tempfile

import lmdb

from hv import simloop

from hat import sbs
from hat import aio

from hat.event import common
from hat.event.backends.lmdb import info

from drivers import storage
from drivers import world


map_size = 1024 * 1024 * 1024

db_names = ['SYSTEM_SETTINGS', 'SYSTEM_LAST_EVENT_ID',
            'SYSTEM_LAST_TIMESTAMP', 'REF', 'LATEST_DATA', 'LATEST_TYPE',
            'TIMESERIES_DATA', 'TIMESERIES_PARTITION', 'TIMESERIES_COUNT']


def raw_open(path, readonly=True):
    return lmdb.Environment(str(path), map_size=map_size, subdir=False,
                            max_dbs=32, readonly=readonly)


def raw_dump(path):
    """Complete content of a database"""
    result = {}
    with raw_open(path) as env:
        with env.begin() as txn:
            names = [bytes(k) for k, _ in txn.cursor()]
        for name in names:
            db = env.open_db(name, create=False)
            with env.begin() as txn:
                result[name] = [(bytes(k), bytes(v))
                                for k, v in txn.cursor(db=db)]
    return result


def content(path):
    """Content of all databases, None if there is no such file"""
    return raw_dump(path) if path.exists() else None


@contextlib.contextmanager
def command_line(args, stdout):
    argv, sys.argv = sys.argv, [str(i) for i in args]
    try:
        with contextlib.redirect_stdout(stdout), \
                contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        sys.argv = argv


def run_main(main, *args):
    """Run entry point of a tool, returns (exception, standard output)"""
    stdout = io.StringIO()
    exc = None
    with command_line(['tool', *args], stdout):
        try:
            code = main()
            if code:
                exc = Exception(f'exit code {code}')
        except SystemExit as e:
            if e.code:
                exc = Exception(f'exit code {e.code}')
        except Exception as e:
            exc = e
    return exc, stdout.getvalue()


def in_child(fn):
    """Run in another process, returns exception text or None"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            try:
                exc = fn()
                os.write(w, (repr(exc) if exc else '').encode('utf-8')[:4096])
                code = 0
            except BaseException as e:
                os.write(w, repr(e).encode('utf-8')[:4096])
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        text = f.read().decode('utf-8', 'replace')
    os.waitpid(pid, 0)
    return text or None


# earlier versions of the database, written independently of the tool

_uint = struct.Struct('>Q').pack


def _timestamp(t):
    return struct.pack('>QI', t.s + (1 << 63), t.us)


def _legacy_repo(module, session):
    return sbs.Repository(f"""
module {module}

Timestamp = Record {{
    s:   Integer
    us:  Integer
}}

EventId = Record {{
    server:    Integer
    {"session:   Integer" if session else ""}
    instance:  Integer
}}

EventType = Array(String)

EventPayload = Choice {{
    binary:  Bytes
    json:    String
    sbs:     Record {{
        module:  Optional(String)
        type:    String
        data:    Bytes
    }}
}}

Event = Record {{
    id:               EventId
    type:             EventType
    timestamp:        Timestamp
    sourceTimestamp:  Optional(Timestamp)
    payload:          Optional(EventPayload)
}}
""")


_repos = {}


def _repo(version):
    if version not in _repos:
        _repos[version] = (_legacy_repo('HatEvent', False)
                           if version == 'v06' else
                           _legacy_repo('HatEventer', True))
    return _repos[version]


def _optional(value):
    return ('none', None) if value is None else ('value', value)


def legacy_payload(payload):
    if payload is None:
        return None
    if isinstance(payload, common.EventPayloadJson):
        return ('json', json.dumps(payload.data))
    data = bytes(payload.data)
    if not payload.type:
        return ('binary', data)
    module, _, name = payload.type.rpartition('.')
    return ('sbs', {'module': _optional(module or None), 'type': name,
                    'data': data})


def legacy_event(version, event, server=None):
    server = event.id.server if server is None else server
    event_id = {'server': server, 'instance': event.id.instance}
    if version == 'v07':
        event_id['session'] = event.id.session
    ts = event.source_timestamp
    data = {'id': event_id,
            'type': list(event.type),
            'timestamp': {'s': event.timestamp.s, 'us': event.timestamp.us},
            'sourceTimestamp': _optional(
                None if ts is None else {'s': ts.s, 'us': ts.us}),
            'payload': _optional(legacy_payload(event.payload))}
    module = 'HatEvent' if version == 'v06' else 'HatEventer'
    return bytes(_repo(version).encode(f'{module}.Event', data))


def legacy_id(event_id):
    return struct.pack('>QQQ', event_id.server, event_id.session,
                       event_id.instance)


def current_content(path):
    """Decoded content of a database of the current version"""
    from hat.event.backends.lmdb import common as lmdb_common
    result = {}
    raw = raw_dump(path)
    for db_type in lmdb_common.DbType:
        db_def = lmdb_common.db_defs[db_type]
        result[db_type.name] = [
            (db_def.decode_key(k), db_def.decode_value(v))
            for k, v in raw[db_type.name.encode('utf-8')]]
    return result


def write_legacy(rng, version, src, dst):
    """Write content of current database as an earlier version"""
    from hat.event.backends.lmdb import common as lmdb_common
    data = current_content(src)
    type_refs = [k for k, _ in data['LATEST_TYPE']]
    type_refs = dict(zip(type_refs, rng.sample(
        range(1, 2 * len(type_refs) + 1), len(type_refs))))
    pids = [k for k, _ in data['TIMESERIES_PARTITION']]
    pids = dict(zip(pids, rng.sample(range(1, 2 * len(pids) + 1),
                                     len(pids))))
    partitions = {pids[k]: {'order': {'timestamp': 1,
                                      'sourceTimestamp': 2}[v['order']],
                            'subscriptions': v['subscriptions']}
                  for k, v in data['TIMESERIES_PARTITION']}
    dbs = {}

    if version == 'v07':
        timestamps = dict(data['SYSTEM_LAST_TIMESTAMP'])
        dbs['SYSTEM'] = [(_uint(k), legacy_id(v) + _timestamp(timestamps[k]))
                         for k, v in data['SYSTEM_LAST_EVENT_ID']]
        dbs['LATEST_DATA'] = [(_uint(type_refs[k]), legacy_event(version, v))
                              for k, v in data['LATEST_DATA']]
        dbs['LATEST_TYPE'] = [
            (_uint(type_refs[k]), json.dumps(list(v)).encode('utf-8'))
            for k, v in data['LATEST_TYPE']]

        def ts_key(k):
            return _uint(pids[k[0]]) + _timestamp(k[1]) + legacy_id(k[2])

        dbs['ORDERED_DATA'] = [(ts_key(k), legacy_event(version, v))
                               for k, v in data['TIMESERIES_DATA']]
        dbs['ORDERED_PARTITION'] = [(_uint(k), json.dumps(v).encode('utf-8'))
                                    for k, v in partitions.items()]
        dbs['ORDERED_COUNT'] = [(_uint(pids[k]), _uint(v))
                                for k, v in data['TIMESERIES_COUNT']]

        def ref(i):
            return (b'\x01' + _uint(type_refs[i.key])
                    if isinstance(i, lmdb_common.LatestEventRef) else
                    b'\x03' + ts_key(i.key))

        dbs['REF'] = [(legacy_id(k), b''.join(ref(i) for i in v))
                      for k, v in data['REF']]

    else:
        events = [v for name in ('LATEST_DATA', 'TIMESERIES_DATA')
                  for _, v in data[name]]
        server = events[0].id.server if events else 1
        system = rng.choice([0, server]) if server == 1 else server

        def event_server():
            # events without server are of the only one
            return rng.choice([0, server, server])

        dbs['system'] = [(b'server_id', _uint(system))]
        dbs['latest'] = [(json.dumps(list(v.type)).encode('utf-8'),
                          legacy_event(version, v, event_server()))
                         for _, v in data['LATEST_DATA']]
        dbs['ordered_data'] = [
            (_uint(pids[k[0]]) + _timestamp(k[1]) + _uint(k[2].instance),
             legacy_event(version, v, event_server()))
            for k, v in data['TIMESERIES_DATA']]
        dbs['ordered_partition'] = [
            (_uint(k), json.dumps(v).encode('utf-8'))
            for k, v in partitions.items()]
        dbs['ordered_count'] = [(_uint(pids[k]), json.dumps(v).encode('utf-8'))
                                for k, v in data['TIMESERIES_COUNT']]

    with raw_open(dst, readonly=False) as env:
        for name, items in dbs.items():
            db = env.open_db(name.encode('utf-8'))
            with env.begin(db=db, write=True) as txn:
                for k, v in items:
                    txn.put(k, v)


class LegacyGen(storage.Gen):
    """Events which the earlier versions can represent"""

    version = 'v07'

    def payload(self):
        rng = self.rng
        payload = world.random_payload(rng)
        if isinstance(payload, common.EventPayloadBinary):
            payload = payload._replace(type=rng.choice(
                ['', 'T', 'Module.Type', 'ž.č', 'a.b']))
        return payload

    def event(self):
        if self.version != 'v06':
            return super().event()
        rng = self.rng
        sess, _, ts = self.last.get(0, (0, 0, 0))
        sess = min(sess + rng.choice([1, 1, 2]), len(self.w.sessions) - 1)
        if rng.random() < self.jump:
            ts = min(ts + rng.choice([1, 1, 2, 3]), self.max_t)
        sts = (None if rng.random() < 0.3 else rng.randrange(self.max_t + 1))
        eid = self.w.add(0, sess, sess, ts, sts, rng.choice(self.types),
                         self.payload())
        self.last[0] = (sess, sess, ts)
        self.used.append(eid)
        return eid


class Run(storage.Run):

    gen_cls = storage.Gen

    def __init__(self, *args):
        super().__init__(*args)
        self.identifier_ = None
        self.names = 0

    def log(self, op, exc=None, **kwargs):
        if op == 'open':
            op = 'topen'
            kwargs['ident'] = self.conf.identifier or ''
        super().log(op, exc, **kwargs)

    def path(self):
        self.names += 1
        return self.dir / f'db{self.names}'

    def new_conf(self):
        rng = self.rng
        conf = storage.Conf(
            self.w, rng, limits=self.w.affine and rng.random() < 0.8,
            identifier=rng.choice([None, 'id', 'ž']))
        if self.gen.cond_payloads:
            conf.conditions = [
                {'subscriptions': world.random_subscription(rng),
                 'condition': storage.gen_condition(rng)}]
        return conf

    def next_conf(self):
        rng = self.rng
        conf = copy.copy(self.conf)
        conf.identifier = rng.choice([None, self.identifier_])
        if rng.random() < 0.2:
            new = self.new_conf()
            conf.latest = new.latest
        if rng.random() < 0.2:
            conf.parts = self.new_conf().parts
        return conf

    async def open(self, conf):
        if not await super().open(conf):
            return False
        if self.identifier_ is None:
            self.identifier_ = conf.identifier
        return True

    async def history(self, n):
        rng = self.rng
        for _ in range(n):
            op = rng.choice(['reg'] * 8 + ['flush'] * 3 + ['cleanup', 'reopen'])
            if op == 'reg':
                await self.reg(self.gen.batch())
            elif op == 'flush':
                await self.flush()
            elif op == 'cleanup':
                self.tick()
                await self.cleanup()
            elif op == 'reopen':
                await self.close()
                await self.open(self.next_conf())
            if self.backend is None:
                return False
        return True

    async def scenario(self, loop):
        self.setup()
        self.dir = Path(tempfile.mkdtemp(dir=self.scratch))
        self.db_path = self.path()
        try:
            if not await self.open(self.new_conf()):
                return
            if not await self.history(self.rng.randrange(2, 9)):
                return
            await self.tool()
            if self.backend:
                await self.backend.async_close()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def setup(self):
        rng = self.rng
        self.gen = self.gen_cls(self.w, rng, servers=rng.choice([1, 2, 2, 3]))

    # copy

    async def copy(self):
        rng = self.rng
        skip_latest = rng.random() < 0.35
        skip_ts = rng.random() < 0.35
        dst = self.path()
        from hat.event.backends.lmdb.manager.main import main
        args = ['copy', *(['--skip-latest'] if skip_latest else []),
                *(['--skip-timeseries'] if skip_ts else []),
                self.db_path, dst]
        before = None
        if self.backend is None:
            before = content(self.db_path)
            exc, _ = run_main(main, *args)
            same = content(self.db_path) == before
        else:
            # database in use by other process
            text = in_child(lambda: run_main(main, *args)[0])
            exc = Exception(text) if text else None
            same = True
        self.log('copy', exc, skip_latest=skip_latest, skip_ts=skip_ts,
                 same=same)
        if exc is None and self.backend is None and rng.random() < 0.3:
            # existing destination isn't overwritten
            other = content(dst)
            exc, _ = run_main(main, 'copy', self.db_path, dst)
            self.log('tool_refused', exc, same=(
                content(self.db_path) == before and content(dst) == other))
        return dst

    async def tool(self):
        return await {'T01': self.tool_copy,
                      'T03': self.tool_dump}[self.focus]()

    async def tool_copy(self):
        rng = self.rng
        if rng.random() < 0.5:
            await self.close()
            dst = await self.copy()
        else:
            if rng.random() < 0.5:
                await self.flush()
            dst = await self.copy()
            await self.history(rng.randrange(3))
            if self.backend is None:
                return
            await self.close()
        src, self.db_path = self.db_path, dst
        self.log('switch')
        if rng.random() < 0.5:
            # records of the copy
            self.dump('settings')
            self.dump('partition', pid=-1)
            self.dump('ref', srv=-1)
        if self.identifier_ is not None and rng.random() < 0.5:
            # the copy has the same identifier
            conf = copy.copy(self.conf)
            conf.identifier = self.identifier_ + 'x'
            exc = None
            try:
                backend = await aio.call(
                    info.create, conf.concrete(self.w, self.db_path), None,
                    None)
                await backend.async_close()
            except Exception as e:
                exc = e
            self.log('refused', exc)
        if not await self.open(self.next_conf()):
            return
        await self.q_all()
        if not await self.history(rng.randrange(4)):
            return
        await self.q_all()
        await self.close()
        self.db_path = src
        self.log('switch')
        if await self.open(self.next_conf()):
            await self.q_all()

    # dump

    def dumped(self, out, fn):
        """Abstract records of printed lines"""
        return [fn(json.loads(i)) for i in out.splitlines()]

    def abs_time(self, data):
        for i in range(self.w.levels):
            t = self.w.time(i)
            if data == {'s': t.s, 'us': t.us}:
                return i
        return -1

    def abs_ident(self, data):
        try:
            assert set(data) == {'server', 'session', 'instance'}
            return [self.w.servers.index(data['server']),
                    self.w.sessions.index(data['session']),
                    self.w.instances.index(data['instance'])]
        except Exception:
            return [-1, -1, -1]

    def abs_event(self, data):
        try:
            payload = data['payload']
            if payload is not None:
                if payload['type'] == 'BINARY':
                    payload = common.EventPayloadBinary(
                        type=payload['subtype'],
                        data=bytes.fromhex(payload['data']))
                else:
                    assert payload['type'] == 'JSON'
                    payload = common.EventPayloadJson(payload['data'])
            ts = data['source_timestamp']
            assert set(data) == {'id', 'type', 'timestamp',
                                 'source_timestamp', 'payload'}
            return self.w.eid(common.Event(
                id=common.EventId(**data['id']),
                type=tuple(data['type']),
                timestamp=common.Timestamp(**data['timestamp']),
                source_timestamp=common.Timestamp(**ts) if ts else None,
                payload=payload))
        except Exception:
            return 0

    def abs_ref(self, data):
        try:
            kind = data['ref_type']
            result = {'id': self.abs_ident(data['event_id']), 'kind': kind,
                      'type': [], 'pid': 0, 'ts': 0}
            if kind == 'latest':
                result['type'] = list(data['event_type'])
                assert len(data) == 3
            else:
                result['pid'] = data['partition_id']
                result['ts'] = self.abs_time(data['timestamp'])
                assert len(data) == 4
            return result
        except Exception:
            return {'id': [-1, -1, -1], 'kind': 'invalid', 'type': [],
                    'pid': 0, 'ts': 0}

    def abs_part(self, data):
        try:
            assert set(data) == {'partition_id', 'data'}
            return {'pid': data['partition_id'],
                    'order': {'timestamp': 'T',
                              'sourceTimestamp': 'S'}[data['data']['order']],
                    'subs': data['data']['subscriptions']}
        except Exception:
            return {'pid': -1, 'order': 'T', 'subs': []}

    def dump(self, kind, args=(), **kwargs):
        from hat.event.backends.lmdb.manager.main import main
        before = content(self.db_path)
        exc, out = run_main(main, 'query', '--db', self.db_path, kind, *args)
        fn = {'settings': lambda x: [x.get('settings_id'), x.get('data')],
              'last_event_id': self.abs_ident,
              'last_timestamp': self.abs_time,
              'ref': self.abs_ref,
              'latest': self.abs_event,
              'partition': self.abs_part,
              'timeseries': self.abs_event}[kind]
        res = []
        if exc is None:
            try:
                res = self.dumped(out, fn)
            except Exception as e:
                exc = e
        self.log('dump', exc, kind=kind, res=res,
                 same=content(self.db_path) == before, **kwargs)
        return res

    async def tool_dump(self):
        rng = self.rng
        if self.backend:
            await self.close()
        self.dump('settings')
        pids = [i['pid'] for i in self.dump('partition', pid=-1)]

        def server():
            if rng.random() < 0.4:
                return [], -1
            srv = rng.randrange(self.gen.n_servers + 1)
            return ['--server-id', str(self.w.servers[srv])], srv

        def partition():
            if rng.random() < 0.4:
                return [], -1
            pid = rng.choice([*pids, max(pids, default=0) + 1])
            return ['--partition-id', str(pid)], pid

        def types():
            if rng.random() < 0.3:
                return [], {'has_types': False, 'types': []}
            result = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                t = (rng.choice(self.gen.types) if rng.random() < 0.5 else
                     world.random_query_type(rng))
                if t:
                    result.append(list(t))
            return (['--event-types', *['/'.join(i) for i in result]],
                    {'has_types': True, 'types': result})

        for _ in range(rng.randrange(3, 8)):
            kind = rng.choice(['last_event_id', 'last_timestamp', 'ref', 'ref',
                               'latest', 'latest', 'partition', 'timeseries',
                               'timeseries'])
            if kind in ('last_event_id', 'last_timestamp', 'ref'):
                args, srv = server()
                self.dump(kind, args, srv=srv)
            elif kind == 'latest':
                args, kwargs = types()
                self.dump(kind, args, **kwargs)
            elif kind == 'partition':
                args, pid = partition()
                self.dump(kind, args, pid=pid)
            else:
                groups = [server(), partition(), types()]
                args = [i[0] for i in groups]
                rng.shuffle(args)
                self.dump(kind, sum(args, []), srv=groups[0][1],
                          pid=groups[1][1], **groups[2][1])


class ConvertRun(Run):

    gen_cls = LegacyGen

    def setup(self):
        rng = self.rng
        self.version = rng.choice(['v06', 'v07'])
        if self.version == 'v06':
            # there is only one server
            self.w.instances = self.w.sessions
            if rng.random() < 0.5:
                self.w.servers[0] = 1
        self.gen = self.gen_cls(self.w, rng,
                                servers=(1 if self.version == 'v06' else
                                         rng.choice([1, 2, 2, 3])))
        self.gen.version = self.version

    def new_conf(self):
        conf = super().new_conf()
        conf.identifier = None
        return conf

    async def tool(self):
        from hat.event.backends.lmdb.convert.main import main
        rng = self.rng
        await self.close()
        # what is kept by the earlier version
        legacy = self.path()
        write_legacy(rng, self.version, self.db_path, legacy)
        if rng.random() < 0.3:
            legacy = legacy.rename(legacy.with_suffix('.db'))
        self.log('legacy', version=self.version)
        before = content(legacy)
        suffix = rng.choice(['', '.db', '.v07'])
        dst = self.path().with_suffix(suffix)
        # file names which could be used for something else
        unrelated = None
        if rng.random() < 0.2:
            name = dst.name + rng.choice(['.v07', '.v09', '.v06', '.tmp'])
            if rng.random() < 0.5:
                legacy = legacy.rename(dst.parent / name)
            else:
                unrelated = dst.parent / name
                unrelated.write_bytes(b'unrelated')
        exc, _ = run_main(main, legacy, dst)
        names = {i.name for i in self.dir.iterdir()
                 if not i.name.endswith('-lock')}
        same = content(legacy) == before if legacy.exists() else False
        if unrelated:
            same = (same and unrelated.exists() and
                    unrelated.read_bytes() == b'unrelated')
            names.discard(unrelated.name)
        self.log('convert', exc, version=self.version, same=same,
                 clean=names <= {self.db_path.name, legacy.name, dst.name})
        if exc is not None:
            return
        converted = content(dst)
        if rng.random() < 0.5:
            # already converted, existing destination or missing source
            kind = rng.randrange(3)
            third = self.path()
            if kind == 0:
                exc, _ = run_main(main, dst, third)
            elif kind == 1:
                exc, _ = run_main(main, legacy, dst)
            else:
                exc, _ = run_main(main, third, self.path())
            self.log('tool_refused', exc, same=(
                content(legacy) == before and content(dst) == converted and
                not third.exists()))
        self.db_path = dst
        self.log('switch')
        if not await self.open(self.next_conf()):
            return
        await self.q_all()
        if await self.history(rng.randrange(5)):
            await self.q_all()


def run_one(seed, index, focus, scratch):
    storage.tune(random.Random(f'{seed}/{focus}/tune'), flush=False)
    base = (index + 1) * storage.stride
    cls = ConvertRun if focus == 'T02' else Run
    run = cls(seed, base, focus, scratch)

    def clock():
        if run.w.affine:
            return run.w.clock(run.now)
        return 1_700_000_000.0

    with simloop.patched_clock(clock):
        outcome, value, loop = simloop.run(run.scenario, run.rng)
    if outcome == 'error':
        raise value
    if outcome != 'ok':
        run.log('flush', Exception(outcome))
        run.lines[-1]['exc'] = outcome
    return {'events': run.w.events or [{}], 'lines': run.lines,
            'seed': seed, 'focus': focus}
