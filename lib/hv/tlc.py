"""Running TLC"""

from pathlib import Path
import json
import os
import re
import shutil
import subprocess

jar = '/opt/veriftools/tla/tla2tools.jar'
community_jar = '/opt/veriftools/tla/CommunityModules-deps.jar'

spec_dir = Path(__file__).resolve().parent.parent.parent / 'spec'


class TlcError(Exception):
    pass


class TlcResult:

    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct '
                             r'states found', out):
            self.generated = int(m.group(1).replace(',', ''))
            self.distinct = int(m.group(2).replace(',', ''))
        m = re.search(r'depth of the complete state graph search is (\d+)',
                      out)
        if m:
            self.depth = int(m.group(1))

    @property
    def ok(self):
        return self.rc == 0

    @property
    def violated(self):
        """design property violated"""
        return self.rc in (10, 11, 12, 13)


def run(scratch: Path, module: str, cfg: str | None = None, *, workers=8,
        heap='2g', env={}, timeout=800, args=(), files=()) -> TlcResult:
    """Run TLC on spec/<module>.tla with spec/<cfg>"""
    meta = scratch / f'tlc-{module}-{os.getpid()}-{os.urandom(4).hex()}'
    meta.mkdir(parents=True)
    for i in spec_dir.glob('*.tla'):
        shutil.copy(i, meta)
    for i in spec_dir.glob('*.cfg'):
        shutil.copy(i, meta)
    for name, text in files:
        (meta / name).write_text(text)
    cfg = cfg or f'{module}.cfg'
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC',
           '-Djava.io.tmpdir=' + str(meta),
           '-cp', f'{jar}:{community_jar}', 'tlc2.TLC',
           '-config', cfg, '-workers', str(workers), '-deadlock',
           '-metadir', str(meta / 'states'), *args, f'{module}.tla']
    try:
        p = subprocess.run(cmd, cwd=meta, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout,
                           env={**os.environ, 'LC_ALL': 'C.UTF-8', **env})
        out = p.stdout.decode('utf-8', 'replace')
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        raise TlcError(f'TLC timeout on {module}') from e
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out)


def design(scratch, module, cfg=None, **kwargs) -> TlcResult:
    """Exhaustive design check, has to pass"""
    res = run(scratch, module, cfg, **kwargs)
    if not res.ok:
        raise TlcError(f'design check of {module} failed ({res.rc}):\n'
                       f'{errors(res.out)}')
    return res


def errors(out):
    i = out.find('Error:')
    return out[i:i + 6000] if i >= 0 else out[-6000:]


class EvalError(TlcError):
    """Trace with values which have no meaning in the specification"""


not_behaviour = 'not a behaviour of the specification'


class Verdict:

    def __init__(self, tid, line, clause):
        self.tid = tid          # 0-based index of the trace
        self.line = line        # 1-based line, 0 - whole trace
        self.clause = clause


def validate(scratch: Path, module: str, traces: list, *, cfg=None,
             workers=8, heap='4g', timeout=800, env={}
             ) -> tuple[TlcResult, list[Verdict]]:
    """Trace validation with total verdicts

    The trace specification prints <<"VERDICT", tid, line, clause>> for every
    failing clause and <<"DONE", tid, line>> for every completely consumed
    trace.
    """
    path = scratch / f'traces-{os.urandom(4).hex()}.json'
    path.write_text(json.dumps(_without_null(traces)))
    try:
        res = run(scratch, module, cfg, workers=workers, heap=heap,
                  timeout=timeout, env={'TRACES': str(path), **env})
    finally:
        path.unlink()
    if not res.ok:
        e = EvalError if res.rc == 75 else TlcError
        raise e(f'trace validation {module} failed ({res.rc}):\n'
                f'{errors(res.out)}')
    verdicts = {}
    for m in re.finditer(r'<<"VERDICT",\s+(\d+),\s+(\d+),\s+"([^"]*)">>', res.out):
        key = (int(m.group(1)) - 1, int(m.group(2)), m.group(3))
        verdicts[key] = Verdict(*key)
    done = {int(m.group(1)) - 1
            for m in re.finditer(r'<<"DONE",\s+(\d+)>>', res.out)}
    bad = {i.tid for i in verdicts.values()}
    missing = [i for i in range(len(traces)) if i not in done | bad]
    for i in missing:
        verdicts[i] = Verdict(i, 0, not_behaviour)
    return res, sorted(verdicts.values(),
                       key=lambda i: (i.tid, i.line, i.clause))


def explain(scratch: Path, module: str, traces: list, *, cfg=None, workers=1,
            heap='4g', timeout=800, env={}) -> tuple[TlcResult, list[Verdict]]:
    """Trace validation of nondeterministic specifications

    The trace specification prints <<"DONE", tid>> once a behaviour of the
    specification explains the whole trace, and <<"LINE", tid, l>> whenever
    a longer prefix is explained.
    """
    path = scratch / f'traces-{os.urandom(4).hex()}.json'
    path.write_text(json.dumps(_without_null(traces)))
    try:
        res = run(scratch, module, cfg, workers=workers, heap=heap,
                  timeout=timeout, env={'TRACES': str(path), **env})
    finally:
        path.unlink()
    if not res.ok:
        e = EvalError if res.rc == 75 else TlcError
        raise e(f'trace validation {module} failed ({res.rc}):\n'
                f'{errors(res.out)}')
    done = {int(m.group(1)) - 1
            for m in re.finditer(r'<<"DONE",\s+(\d+)>>', res.out)}
    best = {}
    for m in re.finditer(r'<<"LINE",\s+(\d+),\s+(\d+)>>', res.out):
        tid, line = int(m.group(1)) - 1, int(m.group(2))
        best[tid] = max(best.get(tid, 0), line)
    verdicts = [Verdict(i, best.get(i, 0) + 1, 'no behaviour explains line')
                for i in range(len(traces)) if i not in done]
    return res, verdicts


def isolate(fn, scratch: Path, module: str, traces: list, **kwargs
            ) -> tuple[TlcResult, list[Verdict]]:
    """Validation which tolerates a trace that can't be evaluated"""
    try:
        return fn(scratch, module, traces, **kwargs)
    except EvalError as e:
        error = e
    results = []
    verdicts = []
    begin, end = 0, len(traces)
    while end - begin > 1:
        middle = (begin + end) // 2
        try:
            res, found = fn(scratch, module, traces[begin:middle], **kwargs)
        except EvalError:
            end = middle
            continue
        results.append(res)
        verdicts.extend(Verdict(begin + i.tid, i.line, i.clause)
                        for i in found)
        begin = middle
    try:
        fn(scratch, module, traces[begin:end], **kwargs)
    except EvalError:
        verdicts.append(Verdict(begin, 0, not_behaviour))
        result = TlcResult(0, '')
        result.distinct = sum(i.distinct for i in results)
        result.generated = sum(i.generated for i in results)
        return result, verdicts
    raise error


def _without_null(x):
    if x is None:
        return 'null'
    if isinstance(x, dict):
        return {k: _without_null(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_without_null(i) for i in x]
    return x
