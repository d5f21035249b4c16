"""Entry point of the checks"""

from pathlib import Path
import argparse
import concurrent.futures
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import shutil
import signal
import sys
import time
import traceback
import warnings

from hv import build
from hv import registry
from hv import tlc


root = Path(__file__).resolve().parent.parent.parent

chunk_size = 10
run_timeout = 60
batch_size = 800
quick_budget = 200
thorough_budget = 700
max_reported = 5
max_lines = 5000
slow_run = 8
max_slow_runs = 8


class HangError(KeyboardInterrupt):
    pass


class MachineryError(Exception):
    pass


# workers (forked after build is imported)

def _alarm(signum, frame):
    raise HangError()


def from_build(exc, src_py):
    """Exception was raised by the code under test"""
    for i in reversed(traceback.extract_tb(exc.__traceback__)):
        path = i.filename
        if path.startswith(str(root)):
            return False
        if path.startswith(str(src_py)):
            return True
    return False


def run_chunk(driver, focus, seed, indexes, scratch, src_py, path,
              slow=None):
    module = importlib.import_module(f'drivers.{driver}')
    signal.signal(signal.SIGALRM, _alarm)
    results = []
    for index in indexes:
        if slow and slow.value >= max_slow_runs:
            # code isn't able to finish anything
            break
        result = {'index': index}
        started = time.monotonic()
        signal.setitimer(signal.ITIMER_REAL, run_timeout, 5)
        try:
            result['trace'] = module.run_one(f'{seed}/{index}', index, focus,
                                             scratch)
        except HangError:
            result['verdict'] = 'code does not terminate'
        except Exception as e:
            text = ''.join(traceback.format_exception(e))
            if from_build(e, src_py):
                result['verdict'] = f'unexpected {type(e).__name__}'
                result['text'] = text
            else:
                result['error'] = text
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if len(result.get('trace', {}).get('lines', [])) > max_lines:
            result = {'index': index, 'verdict': 'code does not terminate'}
        if slow and time.monotonic() - started > slow_run:
            with slow.get_lock():
                slow.value += 1
        results.append(result)
    tmp = path.with_suffix('.tmp')
    tmp.write_text(json.dumps(results))
    tmp.rename(path)


def worker_main(driver, focus, seed, chunks, scratch, src_py, status,
                slow):
    # status: shared array [chunk index]
    work_dir = scratch / f'w{os.getpid()}'
    work_dir.mkdir()
    for i, indexes, path in chunks:
        status.value = i
        run_chunk(driver, focus, seed, indexes, work_dir, src_py, path, slow)
    shutil.rmtree(work_dir, ignore_errors=True)


def run_driver(driver, focus, seed, count, scratch, src_py, deadline, procs):
    """Run `count` scenarios, returns list of results"""
    ctx = multiprocessing.get_context('fork')
    out_dir = scratch / f'out-{os.urandom(4).hex()}'
    out_dir.mkdir()
    chunks = [(i // chunk_size, list(range(i, min(i + chunk_size, count))),
               out_dir / f'{i // chunk_size}.json')
              for i in range(0, count, chunk_size)]
    results = []
    workers = []
    slow = ctx.Value('i', 0)
    for k in range(procs):
        mine = chunks[k::procs]
        if not mine:
            continue
        status = ctx.Value('i', -1)
        p = ctx.Process(target=worker_main,
                        args=(driver, focus, seed, mine, scratch, src_py,
                              status, slow))
        p.start()
        workers.append([p, status, mine, -1, time.monotonic()])

    dead = []
    truncated = False
    while any(w[0].is_alive() for w in workers):
        time.sleep(0.02)
        now = time.monotonic()
        for w in workers:
            p, status, mine, last, since = w
            if not p.is_alive():
                continue
            if status.value != last:
                w[3], w[4] = status.value, now
            elif now - since > run_timeout * 2 + 10:
                # can't be interrupted
                p.kill()
                dead.append((status.value, mine))
        if now > deadline:
            truncated = True
            for w in workers:
                w[0].kill()
            break
    for w in workers:
        w[0].join()

    killed = {i for i, _ in dead}
    for i, indexes, path in chunks:
        if path.exists():
            results.extend(json.loads(path.read_text()))
        elif i in killed:
            results.append({'index': indexes[0],
                            'verdict': 'code does not terminate'})
        elif not truncated and not dead:
            results.append({'index': indexes[0],
                            'error': 'driver process ended unexpectedly'})
    shutil.rmtree(out_dir, ignore_errors=True)
    if not results:
        raise MachineryError('nothing is finished in time')
    return sorted(results, key=lambda i: i['index'])


# check

class Run:

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.started = time.monotonic()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.lines = 0
        self.samples = []
        self.design = []
        self.violations = []
        self.scratch = build.create_scratch()
        self.src_py = build.build(self.scratch)
        build.activate(self.src_py)
        logging.disable(logging.CRITICAL)
        warnings.simplefilter("ignore")
        # resources of a closed (virtual) loop which are collected later
        sys.unraisablehook = lambda *args: None
        budget = quick_budget if tier == 'quick' else thorough_budget
        self.deadline = self.started + budget

    def run_design(self, unit):
        cfg = unit.quick
        if self.tier == 'thorough' and unit.thorough:
            cfg = unit.thorough
        if cfg is None:
            return
        t = time.monotonic()
        res = tlc.design(self.scratch, unit.module, cfg, workers=4,
                         heap='6g')
        self.states += res.distinct
        self.transitions += res.generated
        self.design.append({'module': unit.module, 'config': cfg,
                            'distinct_states': res.distinct,
                            'generated': res.generated, 'depth': res.depth,
                            'wall_s': round(time.monotonic() - t, 1)})

    def run_traces(self, unit):
        importlib.import_module(f'drivers.{unit.driver}')
        total = unit.quick if self.tier == 'quick' else unit.thorough
        done = 0
        batch = 0
        while done < total and time.monotonic() < self.deadline - 20:
            n = min(batch_size, total - done)
            seed = f'{self.seed}/{unit.driver}/{batch}'
            results = run_driver(unit.driver, unit.focus, seed, n,
                                 self.scratch, self.src_py, self.deadline,
                                 os.cpu_count() or 4)
            self.judge(unit, seed, results)
            done += n
            batch += 1
            if len(self.violations) >= max_reported:
                break

    def judge(self, unit, seed, results):
        for i in results:
            if 'error' in i:
                raise MachineryError(f'driver {unit.driver} {seed} '
                                     f'{i["index"]}:\n{i["error"]}')
        for i in results:
            if 'verdict' in i:
                self.violation(unit, seed, i['index'], 0, i['verdict'], None,
                               i.get('text'))
        results = [i for i in results if 'trace' in i]
        if not results:
            return
        # position of a trace has to be equal to its index
        by_index = {i['index']: i['trace'] for i in results}
        data = []
        for index in range(max(by_index) + 1):
            trace = by_index.get(index)
            data.append({k: v for k, v in trace.items()
                         if k not in ('seed', 'focus', 'info')}
                        if trace else
                        {**{k: v for k, v in results[0]['trace'].items()
                            if k not in ('seed', 'focus', 'info')},
                         'lines': []})
        fn = tlc.validate if unit.mode == 'validate' else tlc.explain
        kwargs = {'workers': 8} if unit.mode == 'validate' else {}
        res, verdicts = tlc.isolate(fn, self.scratch, unit.spec, data,
                                    cfg=unit.cfg, heap='6g', **kwargs)
        self.states += res.distinct
        self.transitions += res.generated
        self.traces += len(results)
        self.lines += sum(len(i['trace']['lines']) for i in results)
        if len(self.samples) < 3:
            trace = results[0]['trace']
            self.samples.append({
                'driver': unit.driver, 'spec': unit.spec,
                'focus': unit.focus, 'seed': f'{seed}/{results[0]["index"]}',
                'lines': trace['lines'][:12],
                'total_lines': len(trace['lines'])})
        first = {}
        for v in verdicts:
            if v.tid in by_index:
                first.setdefault(v.tid, v)
        for tid, v in first.items():
            self.violation(unit, seed, tid, v.line, v.clause, by_index[tid])

    def violation(self, unit, seed, index, line, clause, trace, text=None):
        self.violations.append({
            'property': self.prop, 'driver': unit.driver, 'spec': unit.spec,
            'focus': unit.focus, 'seed': seed, 'index': index, 'line': line,
            'clause': clause, 'text': text,
            'failing_line': (trace['lines'][line - 1]
                             if trace and line and
                             line <= len(trace['lines']) else None),
            'trace': trace})

    def report(self, check):
        level = 'model_checking'
        evidence = {
            'property': self.prop,
            'tier': self.tier,
            'seed': self.seed,
            'level': level,
            'coverage': {
                'states': self.states,
                'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'trace_lines': self.lines,
                'design_checks': self.design,
                'samples': self.samples or [i['clause']
                                            for i in self.violations[:3]]},
            'assumptions': [check.note],
            'wall_s': round(time.monotonic() - self.started, 1),
            'violations': len(self.violations)}
        path = root / 'evidence'
        path.mkdir(exist_ok=True)
        (path / f'{self.prop}.json').write_text(
            json.dumps(evidence, indent=2) + '\n')

        replays = root / 'replays'
        for i in self.violations[:max_reported]:
            replays.mkdir(exist_ok=True)
            key = hashlib.sha1(json.dumps([i['driver'], i['focus'],
                                           i['seed'], i['index']]
                                          ).encode()).hexdigest()[:12]
            replay = replays / f'{self.prop}-{key}.json'
            replay.write_text(json.dumps(i, indent=1) + '\n')
            print(f'{self.prop}: {i["clause"]} ({i["driver"]}/{i["focus"]} '
                  f'line {i["line"]}: '
                  f'{json.dumps(i["failing_line"])[:600]})')
            print(f'VIOLATION property={self.prop} replay={replay}')
        print(f'{self.prop} {self.tier}: {self.states} states, '
              f'{self.traces} traces, {self.lines} lines, '
              f'{len(self.violations)} violations, '
              f'{evidence["wall_s"]} s')


def run_check(prop, tier, seed):
    check = registry.checks[prop]
    run = Run(prop, tier, seed)
    design = [i for i in check.units if isinstance(i, registry.Design)]
    # drivers fork - design checks only wait on subprocesses in threads
    with concurrent.futures.ThreadPoolExecutor(2) as executor:
        futures = [executor.submit(run.run_design, i) for i in design]
        try:
            for unit in check.units:
                if isinstance(unit, registry.Traces):
                    run.run_traces(unit)
        finally:
            for i in futures:
                i.result()
    run.report(check)
    return 1 if run.violations else 0


def replay(path):
    data = json.loads(Path(path).read_text())
    run = Run(data['property'], 'quick', 0)
    units = [i for i in registry.checks[data['property']].units
             if isinstance(i, registry.Traces) and
             (i.driver, i.focus) == (data['driver'], data['focus'])]
    run_chunk(data['driver'], data['focus'], data['seed'], [data['index']],
              run.scratch, run.src_py, run.scratch / 'result.json')
    results = json.loads((run.scratch / 'result.json').read_text())
    run.judge(units[0], data['seed'], results)
    for i in run.violations:
        print(f'line {i["line"]}: {i["clause"]}')
        if i['text']:
            print(i['text'])
        if i['trace']:
            for n, line in enumerate(i['trace']['lines'][:i['line']]):
                print(n + 1, json.dumps(line))
    return 1 if run.violations else 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('prop', nargs='?')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER',
                                                         'quick'))
    parser.add_argument('--seed', type=int,
                        default=int(os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--replay')
    args = parser.parse_args()
    try:
        if args.replay:
            return replay(args.replay)
        return run_check(args.prop, args.tier, args.seed)
    except Exception:
        traceback.print_exc()
        print('check could not be completed')
        return 2


if __name__ == '__main__':
    sys.exit(main())
