"""C10: interrupting generated Python code leaves no trace."""
import copy
import json

from sim import genproc as gp
from sim import util
from sim.base import BaseCheck
from sim.pyworld import MAKE, calls_body, setup_generated_imports
from checks.c09 import documents, first_difference, random_job, smaller_documents
from checks.c11 import generated_files


class Check(BaseCheck):
    id = 'C10'
    tasks = {'quick': 600, 'thorough': 40000}
    counted = 'runs'
    rule = ('One case: 2-6 calls (parse, serialize) into one generated module in one simulated process, 1-3 of them '
            'cut short at a random line by an exception raised asynchronously (keyboard interrupt, out of memory, '
            'timeouts, cancellation, exit) or by exhausting the stack; then a retry and further calls. Each '
            'undisturbed call is compared with the same call alone in a fresh process; inputs and the state of the '
            'modules are compared before and after each call. Distinct: schema, calls and places of the '
            'interruptions; non-trivial: an interruption hit.')
    assumptions = ['Interruptions at line boundaries of the generated code, not inside library calls.',
                   'Where the stack is exhausted, either the undisturbed result or RecursionError is accepted.']
    components = {'real': ['mapry command line generating the code; the generated modules'],
                  'stub': ['signal delivery, memory exhaustion, clock, randomness, environment']}

    def worker_setup(self):
        super().worker_setup()
        setup_generated_imports()

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        spec = gp.new_schema(r, 'run')
        if generated_files(spec, 'py', stats) is None:
            stats.add('skipped:schema-rejected')
            return []
        docs, valid = documents(r, spec['mapping'], r.choice([1, 2, 3]))
        out = []
        for _ in range(8):
            jobs = []
            for _ in range(r.choice([1, 1, 2, 3])):
                for _ in range(r.choice([0, 0, 1])):
                    jobs.append(random_job(r, docs, valid))
                job = random_job(r, docs, valid)
                if r.random() < 0.15:
                    hit = dict(job, interrupt={'kind': 'stack', 'line': r.randint(1, 14)})
                else:
                    lines = self._lines(spec, docs, job, stats)
                    hit = dict(job, interrupt={'kind': r.choice(sorted(MAKE)), 'line': r.randint(1, max(1, lines))})
                jobs += [hit, copy.deepcopy(job)]
                if r.random() < 0.4:
                    jobs.append(random_job(r, docs, valid))
            plan = {'schemas': [spec], 'docs': docs, 'jobs': jobs}
            out.extend(dict(v, plan=plan) for v in self.run(plan, stats))
            if out:
                break
        return out

    def _lines(self, spec, docs, job, stats):
        plan = {'schemas': [spec], 'docs': docs, 'jobs': [job]}
        alone = self._alone(plan, generated_files(spec, 'py', stats), job, stats)
        return alone['lines'] if alone else 1

    def _execute(self, plan, files, jobs, stats):
        mapping = plan['schemas'][0]['mapping']
        graphs = sorted({job['doc'] for job in jobs if job['op'] == 'serialize' and job.get('shared')})
        cfg = {'files': files, 'module': mapping['py']['module_name'], 'graph': mapping['name'], 'docs': plan['docs'],
               'graphs': graphs, 'jobs': jobs}
        outcome = gp.execute(plan, {'procs': [cfg]}, gp.build_fs(plan, {}), stats, body=calls_body)
        return outcome, json.loads(outcome.proc.result) if outcome.proc.result else None

    def _alone(self, plan, files, job, stats):
        job = {k: v for k, v in job.items() if k != 'interrupt'}
        key = util.digest([plan['schemas'], plan['docs'][job['doc']], job])
        cache = self.__dict__.setdefault('_cache', {})
        if key not in cache:
            if len(cache) > 300:
                cache.clear()
            outcome, result = self._execute(plan, files, [job], stats)
            cache[key] = result['results'][0] if result and not outcome.proc.detail else None
        return cache[key]

    def run(self, plan, stats):
        files = generated_files(plan['schemas'][0], 'py', stats)
        if files is None:
            return []
        alone = [self._alone(plan, files, job, stats) for job in plan['jobs']]
        outcome, got = self._execute(plan, files, plan['jobs'], stats)
        stats.add('runs')
        if got is None and outcome.proc.exit == 'signal':
            stats.add('skipped:interpreter-crash')
            return []
        if got is None or None in alone:
            return [{'kind': 'call-does-not-return', 'detail': outcome.brief()}]
        stats.faults({'interrupt:' + k: v for k, v in got['fired'].items()})
        self.log(got)
        if got['fired']:
            stats.state(plan['schemas'][0]['mapping'], plan['docs'], plan['jobs'])
        stats.sample({'jobs': plan['jobs'], 'lines': [r['lines'] for r in got['results']]})
        for i, (job, want, result) in enumerate(zip(plan['jobs'], alone, got['results'])):
            stats.add('calls')
            where = 'call {} {}'.format(i, job)
            if 'input' in result:
                return [{'kind': 'input-modified', 'detail': '{}: {}'.format(where, first_difference(*result['input']))}]
            if 'state' in result and result.get('interrupted'):
                return [{'kind': 'module-state-modified', 'detail': '{}: {}'.format(where, ', '.join(result['state']))}]
            if 'shared' in result:
                return [{'kind': 'result-shared', 'detail': '{}: {}'.format(where, result['shared'])}]
            if 'late' in result:
                return [{'kind': 'returned-value-changed-later', 'detail': '{}: {}'.format(
                    where, first_difference(result['value'], result['late']))}]
            interrupt = job.get('interrupt')
            if result.get('interrupted'):
                if 'cause' in result:
                    return [{'kind': 'exception-altered', 'detail': '{}: cause {}'.format(where, result['cause'])}]
                stats.add('interrupted-calls')
                continue
            if interrupt is not None and interrupt['kind'] != 'stack' and result['reached']:
                return [{'kind': 'exception-lost', 'detail': '{}: {} became {}'.format(
                    where, interrupt['kind'], util.clip(result.get('raised') or result.get('value')))}]
            if result.get('value') != want.get('value') or result.get('raised') != want.get('raised'):
                return [{'kind': 'call-differs', 'detail': '{}: {}'.format(
                    where, first_difference(want.get('value') or want.get('raised') or '',
                                            result.get('value') or result.get('raised') or ''))}]
        return []

    def reductions(self, plan):
        for i in range(len(plan['jobs'])):
            if len(plan['jobs']) > 1:
                yield dict(plan, jobs=plan['jobs'][:i] + plan['jobs'][i + 1:])
        for i, job in enumerate(plan['jobs']):
            if 'interrupt' in job:
                yield dict(plan, jobs=plan['jobs'][:i] + [{k: v for k, v in job.items() if k != 'interrupt'}] +
                           plan['jobs'][i + 1:])
                if job['interrupt']['kind'] not in ('stack', 'KeyboardInterrupt'):
                    yield dict(plan, jobs=plan['jobs'][:i] + [dict(job, interrupt=dict(
                        job['interrupt'], kind='KeyboardInterrupt'))] + plan['jobs'][i + 1:])
        yield from smaller_documents(plan)
