"""Runs a check: distributes tasks, collects results, minimises and replays violations, writes evidence."""
import collections
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from sim import VERIF, util

PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
TASK_TIMEOUT = 400


class WorkerFailure(Exception):
    pass


class Worker:
    def __init__(self, name, env, err_path):
        self.err = open(err_path, 'ab')
        self.err_path = err_path
        self.proc = subprocess.Popen([PYTHON, '-m', 'sim.worker', name], cwd=VERIF, env=env,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True,
                                     start_new_session=True)

    def ask(self, task, timeout=TASK_TIMEOUT):
        timer = threading.Timer(timeout, self.kill)
        timer.start()
        try:
            self.proc.stdin.write(json.dumps(task) + '\n')
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        finally:
            timer.cancel()
        if not line:
            self.kill()
            with open(self.err_path, 'rb') as fid:
                tail = fid.read()[-3000:].decode('utf-8', 'replace')
            raise WorkerFailure('worker died on task {}: {}'.format(util.clip(json.dumps(task), 400), tail))
        return json.loads(line)

    def kill(self):
        try:
            os.killpg(self.proc.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass

    def stop(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(timeout=10)
        except Exception:  # pylint: disable=broad-except
            pass
        self.kill()
        self.proc.wait()
        self.proc.stdout.close()
        self.err.close()


def worker_env(variant, extra, scratch):
    env = {'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'HOME': os.environ.get('HOME', '/root'),
           'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pyc'),
           'PYTHONHASHSEED': '1', 'PYTHONWARNINGS': 'ignore', 'TMPDIR': scratch, 'PYTHONPATH': VERIF}
    if 'MAPRY_REPO' in os.environ:
        env['MAPRY_REPO'] = os.environ['MAPRY_REPO']
    env.update(extra)
    env.update(variant)
    return env


class Engine:
    def __init__(self, name, tier, seed, workers=None, tasks=None, cap=None):
        self.name = name
        self.tier = tier
        self.seed = seed
        sys.path.insert(0, VERIF)
        self.check = importlib.import_module('checks.' + name).Check()
        self.nworkers = workers or self.check.workers
        self.ntasks = tasks or self.check.tasks[tier]
        self.cap = cap or self.check.cap_s[tier]
        self.scratch = tempfile.mkdtemp(prefix='mapry-sim-')
        self.lock = threading.Lock()
        self.counts = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.sim_ns = 0
        self.violations = []
        self.errors = []
        self.logs = {}
        self.done = 0

    # -- running ---------------------------------------------------------------------------------

    def new_worker(self, variant, tag):
        env = worker_env(self.check.variants[variant % len(self.check.variants)], self.extra,
                         self.scratch)
        return Worker(self.name, env, os.path.join(self.scratch, 'err-{}'.format(tag)))

    def absorb(self, result):
        with self.lock:
            stats = result.get('stats') or {}
            for key, n in stats.get('counts', {}).items():
                self.counts[key] += n
            self.distinct.update(stats.get('distinct', ()))
            if len(self.samples) < 6:
                self.samples.extend(stats.get('samples', ()))
            self.sim_ns += stats.get('sim_ns', 0)
            self.done += 1

    def explore(self):
        nv = len(self.check.variants)
        queues = [queue.Queue() for _ in range(nv)]
        for i in range(self.ntasks):
            queues[i % nv].put(i)
        start = time.monotonic()
        stop = threading.Event()
        known = load_known(self.check.id)

        def loop(slot):
            order = [(slot + k) % nv for k in range(nv)]
            for variant in order:
                worker = None
                try:
                    while not stop.is_set() and time.monotonic() - start < self.cap:
                        try:
                            i = queues[variant].get_nowait()
                        except queue.Empty:
                            break
                        if worker is None:
                            worker = self.new_worker(variant, slot)
                        result = worker.ask({'id': i, 'mode': 'explore', 'seed': self.seed, 'index': i,
                                             'tier': self.tier})
                        self.absorb(result)
                        self.logs[i] = result.get('log')
                        if result['error']:
                            with self.lock:
                                self.errors.append((i, result['error']))
                            if len(self.errors) >= 5:
                                stop.set()
                        for violation in result['violations']:
                            with self.lock:
                                if violation.get('finding') in known:
                                    self.counts['known:' + violation['finding']] += 1
                                    continue
                                violation['variant'] = variant
                                violation['index'] = i
                                self.violations.append(violation)
                            if len(self.violations) >= 8:
                                stop.set()
                except WorkerFailure as exc:
                    with self.lock:
                        self.errors.append((-1, str(exc)))
                    stop.set()
                finally:
                    if worker is not None:
                        worker.stop()

        threads = [threading.Thread(target=loop, args=(slot,)) for slot in range(self.nworkers)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        self.explore_s = time.monotonic() - start

    def single(self, task, variant, timeout=TASK_TIMEOUT):
        worker = self.new_worker(variant, 'single')
        try:
            return worker.ask(task, timeout)
        finally:
            worker.stop()

    # -- whole check -----------------------------------------------------------------------------

    def main(self):
        t0 = time.monotonic()
        try:
            self.extra = self.check.prepare(self.tier, self.scratch) or {}
            status = self.body()
        finally:
            self.check.finish()
            shutil.rmtree(self.scratch, ignore_errors=True)
        self.evidence(time.monotonic() - t0, status)
        return status

    def body(self):
        print('check {} tier={} seed={} tasks={} workers={}'.format(self.check.id, self.tier, self.seed,
                                                                   self.ntasks, self.nworkers), flush=True)
        for line in self.known_findings():
            print(line, flush=True)
        self.explore()
        if self.errors:
            for index, text in self.errors[:3]:
                print('HARNESS-ERROR task={}\n{}'.format(index, text), file=sys.stderr)
        if self.violations:
            reported = set()
            for violation in sorted(self.violations, key=lambda v: (len(json.dumps(v['plan'])), v['index'])):
                if violation['kind'] in reported or len(reported) >= 2:
                    continue
                reported.add(violation['kind'])
                self.report(violation)
            return 1
        if self.errors:
            return 2
        print('ok {}: {} tasks, {} {}, {} distinct, {:.1f} s'.format(
            self.check.id, self.done, self.counts.get(self.check.counted, 0), self.check.counted,
            len(self.distinct), self.explore_s))
        return 0

    def report(self, violation):
        plan = violation['plan']
        best = violation
        try:
            result = self.single({'id': -1, 'mode': 'shrink', 'plan': plan, 'kind': violation['kind'],
                                  'finding': violation.get('finding'),
                                  'budget': 60 if self.tier == 'quick' else 240}, violation['variant'])
            if result['violations'] and result['violations'][0]:
                best = dict(result['violations'][0], variant=violation['variant'], index=violation['index'])
        except WorkerFailure as exc:
            print('minimisation failed: {}'.format(exc), file=sys.stderr)
        out = os.path.join(VERIF, 'replays')
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, '{}-{}.json'.format(self.check.id, util.digest(best['plan'])[:10]))
        doc = {'property': self.check.id, 'check': self.name, 'seed': self.seed, 'task': violation['index'],
               'variant': violation['variant'], 'env': self.check.variants[violation['variant']],
               'violation': {k: v for k, v in best.items() if k not in ('plan', 'variant', 'index')},
               'plan': best['plan']}
        with open(path, 'w') as fid:
            json.dump(doc, fid, indent=1)
            fid.write('\n')
        again = self.single({'id': -2, 'mode': 'run', 'plan': best['plan']}, violation['variant'])
        same = any(v['kind'] == best['kind'] and v['detail'] == best['detail'] for v in again['violations'])
        print('{}: {}'.format(best['kind'], util.clip(best['detail'], 1500)))
        print('seed={} task={} replayed={}'.format(self.seed, violation['index'], 'same' if same else
                                                   'DIFFERENT: ' + util.clip(again['violations'], 500)))
        print('VIOLATION property={} replay={}'.format(self.check.id, path), flush=True)

    def known_findings(self):
        """Replay the witness of every listed finding."""
        lines = []
        for key, what in load_known(self.check.id).items():
            path = os.path.join(VERIF, 'findings', key + '.json')
            state = 'no witness on file'
            if os.path.exists(path):
                with open(path) as fid:
                    doc = json.load(fid)
                result = self.single({'id': -3, 'mode': 'run', 'plan': doc['plan']}, doc.get('variant', 0))
                hits = [v for v in result['violations'] if v.get('finding') == key]
                self.counts['known-witness-runs'] += 1
                if not hits:
                    print('note: listed finding {} did not show on its witness: {}'.format(
                        key, util.clip(result['error'] or result['violations'], 500)), file=sys.stderr)
                    state = None
            if state is not None:
                lines.append('KNOWN-FINDING: property={} {}: {}'.format(self.check.id, key, what))
        return lines

    def evidence(self, wall, status):
        counts = dict(sorted(self.counts.items()))
        runs = counts.get(self.check.counted, 0)
        hours = max(getattr(self, 'explore_s', wall), 1e-6) / 3600
        doc = {
            'property': self.check.id, 'tier': self.tier, 'seed': self.seed, 'level': self.check.level,
            'coverage': {
                'evaluations': runs,
                'distinct_nontrivial': len(self.distinct),
                'rule': self.check.rule,
                'samples': self.samples[:3] or [{'note': 'no sample kept'}],
                'simulated_runs_per_hour': round(runs / hours),
                'seeds': self.done,
                'seeds_per_hour': round(self.done / hours),
                'simulated_seconds': round(self.sim_ns / 1e9, 6),
                'faults_injected': {k[6:]: v for k, v in counts.items() if k.startswith('fault:')},
                'probes': {k: v for k, v in counts.items() if not k.startswith('fault:')},
                'components': self.check.components,
                'worker_environments': self.check.variants,
            },
            'assumptions': self.check.assumptions,
            'wall_s': round(wall, 2),
            'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.check.id + '.json'), 'w') as fid:
            json.dump(doc, fid, indent=1, ensure_ascii=False)
            fid.write('\n')


def load_known(prop):
    """Lines 'known: property=<id> key=<key> <what fails>' of the findings file."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fid:
            for line in fid:
                if not line.startswith('known: '):
                    continue
                head, _, rest = line[len('known: '):].strip().partition(' ')
                key, _, what = rest.partition(' ')
                if head == 'property=' + prop and key.startswith('key='):
                    out[key[4:]] = what
    return out


def replay(path):
    with open(path) as fid:
        doc = json.load(fid)
    engine = Engine(doc['check'], 'quick', doc['seed'])
    try:
        engine.extra = engine.check.prepare('replay', engine.scratch) or {}
        result = engine.single({'id': 0, 'mode': 'run', 'plan': doc['plan']}, doc['variant'])
    finally:
        engine.check.finish()
        shutil.rmtree(engine.scratch, ignore_errors=True)
    if result['error']:
        print(result['error'], file=sys.stderr)
        return 2
    want = doc['violation']
    for violation in result['violations']:
        print('{}: {}'.format(violation['kind'], violation['detail']))
        if violation['kind'] == want['kind']:
            print('reproduced {}'.format('exactly' if violation['detail'] == want['detail'] else
                                         'with another detail'))
            print('VIOLATION property={} replay={}'.format(doc['property'], path))
            return 1
    print('not reproduced: {} violations of another kind'.format(len(result['violations'])))
    return 0
