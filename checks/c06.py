"""C06: concurrent generations in one process are independent."""
import copy
import json
import os
import posixpath
import sys

from sim import genproc as gp
from sim import util
from sim.base import BaseCheck
from checks.c02 import breaking_mutations

_MAKE = {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'RecursionError': RecursionError}


def threads_body(cfg):
    """Body of a simulated process that generates in several threads."""

    def body(chan):
        from sim import REPO, threads
        from sim.guest import Guest, HarnessError
        from sim.proc import in_scope
        try:
            guest = Guest(chan, cfg)
            guest.install()
            sys.path[:] = [REPO] + [p for p in sys.path if p != REPO]
            sys.setrecursionlimit(1000)
            import pathlib
            import mapry.main
            import mapry.parse
            out, err = threads.PerThread(), threads.PerThread()
            sys.stdout, sys.stderr = out, err
            results = [[] for _ in cfg['threads']]
            shared = {}
            for name in cfg.get('shared', ()):
                shared[name] = mapry.parse.schema_from_json_file(path=pathlib.Path(name))
            generate = {'cpp': mapry.main.generate_cpp, 'go': mapry.main.generate_go, 'py': mapry.main.generate_py}

            def one(job):
                schema = shared.get(job['schema']) if job.get('shared') else None
                if schema is None:
                    schema = mapry.parse.schema_from_json_file(path=pathlib.Path(job['schema']))
                outdir = pathlib.Path(job['outdir'])
                outdir.mkdir(exist_ok=True, parents=True)
                return generate[job['target']](schema=schema, outdir=outdir)

            def worker(jobs, into):
                def carry(thread):
                    for job in jobs:
                        baton.trace_on()
                        try:
                            result = ['returned', one(job)]
                        except (HarnessError, threads.Deadlock, threads.StepLimit):
                            raise
                        except BaseException as exc:  # pylint: disable=broad-except
                            result = ['raised', '{}: {}'.format(type(exc).__name__, exc)]
                        sys.settrace(None)
                        into.append(result + [out.take(), err.take()])
                return carry

            interrupts = [dict(i, make=_MAKE[i['kind']]) for i in cfg.get('interrupts', ())]
            baton = threads.Baton([worker(j, into) for j, into in zip(cfg['threads'], results)], cfg['schedule'],
                                  in_scope, opcodes=cfg.get('opcodes', False), interrupt=interrupts)
            problem = ''
            try:
                baton.run()
            except (threads.Deadlock, threads.StepLimit) as exc:
                problem = '{}: {}'.format(type(exc).__name__, exc)
            chan.call('exit', 0, problem, json.dumps({
                'results': results, 'events': baton.count, 'switches': baton.switches, 'fired': baton.fired,
                'performed': baton.schedule.performed, 'lines': [t.lines for t in baton.threads],
                'places': util.digest(baton.where)}))
        except BaseException:  # pylint: disable=broad-except
            import traceback
            chan.call('exit', 'harness', traceback.format_exc())
        os._exit(0)

    return body


class Check(BaseCheck):
    id = 'C06'
    tasks = {'quick': 180, 'thorough': 8000}
    counted = 'runs'
    rule = ('One case: 2-4 threads of one simulated process, each reading schemas (valid, damaged or breaking rules; '
            'distinct, equal or one parsed object shared) and generating code for 1-2 targets, under a seeded '
            'schedule that may preempt at every line - in part of the cases every byte code - of mapry and its '
            'templates; in part of the cases one thread runs out of memory or is interrupted. Distinct: jobs and '
            'the sequence of places where threads were switched; non-trivial: more than 3 switches.')
    assumptions = ['Preemption inside C functions and inside jinja2, jsonschema and icontract frames is not explored.',
                   'A thread that was interrupted itself is not judged for the interrupted job.']
    components = {'real': ['mapry parser, validation, generators and the functions that write the files; jinja2, '
                           'jsonschema, icontract; Python threads'],
                  'stub': ['choice of the running thread, locks of the threading module, system calls and disk, '
                           'clock, randomness, environment']}

    def worker_setup(self):
        from sim import threads
        threads.patch_locks()
        super().worker_setup()

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        schemas = [gp.new_schema(r, size=r.choice([0, 1, 1]))]
        for _ in range(r.randint(0, 3)):
            kind = r.choice(['other', 'edited', 'sibling', 'sibling', 'settings', 'broken', 'damaged'])
            mapping = copy.deepcopy(schemas[0]['mapping'])
            spec = {'mapping': mapping, 'style': r.randrange(4)}
            if kind == 'other':
                spec = gp.new_schema(r, size=r.choice([0, 1]))
            elif kind == 'sibling':
                spec['mapping'] = gp.sibling(r, mapping)
            elif kind == 'edited':
                edits = [m for m in gp.schema_reductions(mapping) if all(t in m for t in gp.TARGETS)]
                spec['mapping'] = r.choice(edits) if edits else mapping
            elif kind == 'settings':
                fresh = gp.new_schema(r, size=0)['mapping']
                spec['mapping'].update({t: fresh[t] for t in gp.TARGETS})
            elif kind == 'broken':
                spec['mapping'] = breaking_mutations(r, mapping, r.choice(gp.TARGETS))[1]
            else:
                spec['damage'] = [gp.random_damage(r)]
            schemas.append(spec)
        targets = r.choice([gp.TARGETS, gp.TARGETS, [r.choice(gp.TARGETS)]])
        contrasting = r.random() < 0.3
        if contrasting:
            schemas = [{'mapping': m, 'style': r.randrange(4)} for m in gp.contrast(r, schemas[0]['mapping'])]
            targets = [r.choice(gp.TARGETS)]
        where = r.choice([gp.WORK + '/', gp.WORK + '/', ''])
        apart = r.random() < 0.5
        names = [where + ('in%d/' % i if apart else '') + 's%d.json' % i for i in range(len(schemas))]
        out = []
        for _ in range(3):
            # one parsed schema for all threads?
            all_shared = r.random() < 0.4 and not contrasting
            threads = []
            for t in range(r.choice([2, 2, 3, 4])):
                jobs = []
                for j in range(r.choice([1, 1, 2])):
                    i = 0 if all_shared else r.randrange(len(schemas))
                    job = {'schema': names[i], 'target': r.choice(targets), 'outdir': where + 't%d/%d' % (t, j)}
                    if i == 0 and (all_shared or r.random() < 0.3) and not contrasting:
                        job['shared'] = True
                    jobs.append(job)
                threads.append(jobs)
            opcodes = r.random() < 0.2
            rate = r.choice([3, 10, 10, 40, 200, 1000, 5000])
            interrupts = []
            if r.random() < 0.25 and not opcodes:  # (raising from byte code events can crash CPython 3.12)
                interrupts = [{'thread': r.randrange(len(threads)), 'line': int(10 ** r.uniform(1, 4)),
                               'kind': r.choice(sorted(_MAKE))}]
            plan = {'schemas': schemas, 'threads': threads, 'opcodes': opcodes, 'interrupts': interrupts,
                    'schedule': {'seed': r.getrandbits(40), 'rate': rate * (5 if opcodes else 1)}}
            violations = self.run(plan, stats)
            out.extend(dict(v, plan=plan) for v in violations)
            if out:
                break
        return out

    def _execute(self, plan, threads, schedule, stats, **more):
        used = {job['schema'] for jobs in threads for job in jobs}
        fs = gp.build_fs(plan, {posixpath.join(gp.WORK, name): {'schema': int(name[-6:-5])} for name in sorted(used)})
        shared = sorted({j['schema'] for jobs in threads for j in jobs if j.get('shared')})
        proc = dict({'threads': threads, 'schedule': schedule, 'shared': shared}, **more)
        outcome = gp.execute(plan, {'procs': [proc]}, fs, stats, body=threads_body)
        if outcome.proc.result is None:
            return outcome, None
        result = json.loads(outcome.proc.result)
        for jobs, results in zip(threads, result['results']):
            for job, got in zip(jobs, results):
                got.append({k: v.decode('utf-8', 'replace') for k, v in
                            gp.tree_files(None, fs, posixpath.join(gp.WORK, job['outdir']), job['target']).items()})
        return outcome, result

    def _alone(self, plan, job, stats):
        spec = plan['schemas'][int(job['schema'][-6:-5])]
        key = util.digest([gp.schema_bytes(spec).hex(), job])
        cache = self.__dict__.setdefault('_cache', {})
        if key not in cache:
            if len(cache) > 100:
                cache.clear()
            cache[key] = self._execute(plan, [[job]], {'list': []}, stats)[1]
        return cache[key]['results'][0][0] if cache[key] else None

    def run(self, plan, stats):
        alone = [[self._alone(plan, job, stats) for job in jobs] for jobs in plan['threads']]
        for jobs, wants in zip(plan['threads'], alone):
            for job, want in zip(jobs, wants):
                if job.get('shared') and (want is None or want[0] != 'returned'):
                    return []  # the shared schema cannot be read
        outcome, got = self._execute(plan, plan['threads'], plan['schedule'], stats, opcodes=plan.get('opcodes'),
                                     interrupts=plan.get('interrupts', ()))
        stats.add('runs')
        if got is None and outcome.proc.exit == 'signal':
            stats.add('skipped:interpreter-crash')
            return []
        if got is None:
            return [{'kind': 'threads-do-not-end', 'detail': outcome.brief()}]
        stats.add('switches', got['switches'])
        stats.add('events', got['events'])
        stats.faults({'interrupt:' + k: v for k, v in got['fired'].items()})
        stats.add('granularity:' + ('opcode' if plan.get('opcodes') else 'line'))
        self.log(got['places'], got['switches'], got['events'], gp.trace_digest(outcome))
        if got['switches'] > 3:
            stats.state([gp.schema_bytes(s).hex() for s in plan['schemas']], plan['threads'], got['places'])
        stats.sample({'threads': plan['threads'], 'schedule': plan['schedule'], 'switches': got['switches'],
                      'events': got['events']})
        self._performed = got['performed']
        if outcome.proc.detail:
            return [{'kind': 'threads-stuck', 'detail': outcome.proc.detail}]
        hit = {i['thread'] for i in plan.get('interrupts', ())} if got['fired'] else set()
        for t, (jobs, wants, results) in enumerate(zip(plan['threads'], alone, got['results'])):
            if t in hit:
                continue
            for job, want, result in zip(jobs, wants, results):
                if want[:4] != result[:4]:
                    return [{'kind': 'thread-outcome-differs', 'detail': 'thread {} ({} of {}): {} instead of {}'.format(
                        t, job['target'], job['schema'], util.clip(result[:4]), util.clip(want[:4]))}]
                diff = gp.compare_files({k: v.encode() for k, v in want[4].items()},
                                        {k: v.encode() for k, v in result[4].items()})
                if diff is not None or len(want[4]) != len(result[4]):
                    return [{'kind': 'thread-files-differ', 'detail': 'thread {} ({} of {}): {}'.format(
                        t, job['target'], job['schema'], diff)}]
        return []

    def reductions(self, plan):
        self.run(plan, util.Stats())
        performed = self._performed
        switches = plan['schedule'].get('list')
        if switches is None:
            yield dict(plan, schedule={'list': performed})
            switches = performed
        if plan.get('interrupts'):
            yield dict(plan, interrupts=[])
        for t in range(len(plan['threads'])):
            if len(plan['threads']) > 1:
                new = copy.deepcopy(plan)
                del new['threads'][t]
                new['schedule'] = {'list': [[c, n - (n > t)] for c, n in switches if n != t]}
                yield new
            for j in range(len(plan['threads'][t])):
                if len(plan['threads'][t]) > 1:
                    new = copy.deepcopy(plan)
                    del new['threads'][t][j]
                    yield new
        size = len(switches) // 2
        while size >= 1:
            for at in range(0, len(switches), size):
                new = dict(plan, schedule={'list': switches[:at] + switches[at + size:]})
                yield new
            size //= 4
        for i, spec in enumerate(plan['schemas']):
            for smaller in gp.schema_reductions(spec['mapping']):
                new = copy.deepcopy(plan)
                new['schemas'][i]['mapping'] = smaller
                yield new
