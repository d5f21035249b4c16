"""Observation and fault injection at the boundary of the lmdb package"""

import contextlib

import lmdb


_real_environment = lmdb.Environment
_real_open = lmdb.open

write_ops = {'put', 'delete', 'pop', 'replace', 'putmulti', 'drop'}


class Controller:
    """Called for every operation on proxied environments

    `on_commit(stage)` is called with 'before'/'after' around each commit of
    a write transaction (and creation of named databases); `on_write()` before
    each modification. Both can raise exception (which aborts transaction).
    """

    def __init__(self):
        self.on_commit = None
        self.on_write = None
        self.commits = 0
        self.writes = 0

    def commit(self, stage):
        if stage == 'after':
            self.commits += 1
        if self.on_commit:
            self.on_commit(stage)

    def write(self):
        self.writes += 1
        if self.on_write:
            self.on_write()


def _unwrap(value):
    return value._real if isinstance(value, _Proxy) else value


class _Proxy:

    def __init__(self, real, ctl):
        self._real = real
        self._ctl = ctl

    def __getattr__(self, name):
        value = getattr(self._real, name)
        if not callable(value):
            return value

        def call(*args, **kwargs):
            if name in write_ops:
                self._ctl.write()
            return self._wrap(value(*[_unwrap(i) for i in args],
                                    **{k: _unwrap(v)
                                       for k, v in kwargs.items()}))

        return call

    def _wrap(self, value):
        if isinstance(value, lmdb.Cursor):
            return _Cursor(value, self._ctl)
        return value


class _Cursor(_Proxy):

    def __iter__(self):
        return iter(self._real)

    def __enter__(self):
        self._real.__enter__()
        return self

    def __exit__(self, *args):
        return self._real.__exit__(*args)


class _Transaction(_Proxy):

    def __init__(self, real, ctl, write):
        super().__init__(real, ctl)
        self._write = write

    def __enter__(self):
        self._real.__enter__()
        return self

    def __exit__(self, exc_type, exc, tb):
        if not self._write or exc_type is not None:
            return self._real.__exit__(exc_type, exc, tb)
        try:
            self._ctl.commit('before')
        except BaseException:
            self._real.abort()
            raise
        result = self._real.__exit__(None, None, None)
        self._ctl.commit('after')
        return result

    def commit(self):
        if not self._write:
            return self._real.commit()
        try:
            self._ctl.commit('before')
        except BaseException:
            self._real.abort()
            raise
        self._real.commit()
        self._ctl.commit('after')


class _Environment(_Proxy):

    def begin(self, db=None, parent=None, write=False, buffers=False):
        return _Transaction(self._real.begin(db, _unwrap(parent), write,
                                             buffers),
                            self._ctl, write)

    def open_db(self, key=None, txn=None, **kwargs):
        result = self._real.open_db(key, txn=_unwrap(txn), **kwargs)
        if txn is None:
            self._ctl.commit('after')
        return result

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self._real.close()


@contextlib.contextmanager
def installed(ctl: Controller):

    def create(*args, **kwargs):
        return _Environment(_real_environment(*args, **kwargs), ctl)

    lmdb.Environment = create
    lmdb.open = create
    try:
        yield ctl
    finally:
        lmdb.Environment = _real_environment
        lmdb.open = _real_open


@contextlib.contextmanager
def released():
    """Environments which are still open at the end are closed (each of them
    occupies part of the address space)"""
    envs = []

    def create(*args, **kwargs):
        envs.append(_real_environment(*args, **kwargs))
        return envs[-1]

    lmdb.Environment = create
    lmdb.open = create
    try:
        yield
    finally:
        lmdb.Environment = _real_environment
        lmdb.open = _real_open
        for env in envs:
            env.close()
