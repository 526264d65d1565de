"""C09: generated Python code is safe for concurrent use."""
import copy
import json

from sim import docs as docs_mod
from sim import genproc as gp
from sim import util
from sim.base import BaseCheck
from sim.model import Model
from sim.pyworld import calls_in_threads_body, setup_generated_imports
from checks.c11 import generated_files


def first_difference(a, b):
    n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return '...{} instead of ...{}'.format(util.clip(b[max(0, n - 60):], 160), util.clip(a[max(0, n - 60):], 160))


def documents(r, mapping, n):
    """[text, ordered] of documents, some of them damaged; and which are valid"""
    model = Model(mapping, 'py')
    source = docs_mod.Docs(r, model, r.choice([1, 2, 3]))
    docs, valid = [], []
    base = source.doc()
    for i in range(n):
        doc = base if i and r.random() < 0.6 else source.doc()
        for _ in range(r.choice([0, 0, 1, 2]) if i else 0):
            doc = docs_mod.mutate(doc, source.damage(doc))
        bad, _ = model.read(doc)
        if bad and any(v.finding for v in bad) or model.used:
            doc, bad = base, []
        docs.append([json.dumps(doc), r.random() < 0.3])
        if not bad:
            valid.append(i)
    return docs, valid


def random_job(r, docs, valid, fixed_doc=None):
    if valid and r.random() < 0.45:
        return {'op': 'serialize', 'doc': r.choice(valid), 'ordered': r.random() < 0.5, 'shared': r.random() < 0.6}
    return {'op': 'parse', 'doc': r.randrange(len(docs)) if fixed_doc is None else fixed_doc,
            'ref': r.choice(['#', 'a', 'b']), 'cap': r.choice([1, 2, 10, 100]), 'shared': r.random() < 0.6}


class Check(BaseCheck):
    id = 'C09'
    tasks = {'quick': 650, 'thorough': 40000}
    counted = 'runs'
    rule = ('One case: 2-4 threads of one simulated process making 1-3 calls each (parse, serialize) into one '
            'generated module, on shared or own documents (valid and damaged) and graphs, under a seeded schedule '
            'that may preempt at every line or byte code of the generated modules. Distinct: schema, calls and the '
            'sequence of places where threads were switched; non-trivial: more than 3 switches.')
    assumptions = ['Preemption inside json, re, datetime and other library calls is not explored.']
    components = {'real': ['mapry command line generating the code; the generated modules; Python threads'],
                  'stub': ['choice of the running thread, clock, randomness, environment']}

    def worker_setup(self):
        from sim import threads
        threads.patch_locks()
        super().worker_setup()
        setup_generated_imports()

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        spec = gp.new_schema(r, 'run')
        if generated_files(spec, 'py', stats) is None:
            stats.add('skipped:schema-rejected')
            return []
        docs, valid = documents(r, spec['mapping'], r.choice([1, 2, 3]))
        out = []
        for _ in range(6):
            jobs = [[random_job(r, docs, valid) for _ in range(r.choice([1, 1, 2, 3]))]
                    for _ in range(r.choice([2, 2, 3, 4]))]
            if r.random() < 0.3:
                jobs = [copy.deepcopy(jobs[0]) for _ in jobs]
            opcodes = r.random() < 0.3
            rate = r.choice([1, 2, 4, 10, 30, 100])
            plan = {'schemas': [spec], 'docs': docs, 'threads': jobs, 'opcodes': opcodes,
                    'schedule': {'seed': r.getrandbits(40), 'rate': rate * (4 if opcodes else 1)}}
            out.extend(dict(v, plan=plan) for v in self.run(plan, stats))
            if out:
                break
        return out

    def _execute(self, plan, files, threads, schedule, stats, opcodes=False):
        mapping = plan['schemas'][0]['mapping']
        graphs = sorted({job['doc'] for jobs in threads for job in jobs
                         if job['op'] == 'serialize' and job.get('shared')})
        cfg = {'files': files, 'module': mapping['py']['module_name'], 'graph': mapping['name'], 'docs': plan['docs'],
               'graphs': graphs, 'threads': threads, 'schedule': schedule, 'opcodes': opcodes}
        outcome = gp.execute(plan, {'procs': [cfg]}, gp.build_fs(plan, {}), stats, body=calls_in_threads_body)
        return outcome, json.loads(outcome.proc.result) if outcome.proc.result else None

    def _alone(self, plan, files, job, stats):
        key = util.digest([plan['schemas'], plan['docs'][job['doc']], job])
        cache = self.__dict__.setdefault('_cache', {})
        if key not in cache:
            if len(cache) > 300:
                cache.clear()
            outcome, result = self._execute(plan, files, [[job]], {'list': []}, stats)
            cache[key] = result['results'][0][0] if result and not outcome.proc.detail else None
        return cache[key]

    def run(self, plan, stats):
        files = generated_files(plan['schemas'][0], 'py', stats)
        if files is None:
            return []
        alone = [[self._alone(plan, files, job, stats) for job in jobs] for jobs in plan['threads']]
        if any(want is None for wants in alone for want in wants):
            return [{'kind': 'call-does-not-return', 'detail': 'a single call does not return'}]
        outcome, got = self._execute(plan, files, plan['threads'], plan['schedule'], stats, plan.get('opcodes', False))
        stats.add('runs')
        if got is None:
            return [{'kind': 'threads-do-not-end', 'detail': outcome.brief()}]
        self._performed = got['performed']
        stats.add('switches', got['switches'])
        stats.add('events', got['events'])
        stats.add('granularity:' + ('opcode' if plan.get('opcodes') else 'line'))
        self.log(got)
        if got['switches'] > 3:
            stats.state(plan['schemas'][0]['mapping'], plan['docs'], plan['threads'], got['places'])
        stats.sample({'threads': plan['threads'], 'schedule': plan['schedule'], 'switches': got['switches']})
        if outcome.proc.detail:
            return [{'kind': 'threads-stuck', 'detail': outcome.proc.detail}]
        for t, (jobs, wants, results) in enumerate(zip(plan['threads'], alone, got['results'])):
            for job, want, result in zip(jobs, wants, results):
                stats.add('calls')
                for outcome in (want, result):
                    if 'shared' in outcome:
                        return [{'kind': 'result-shared', 'detail': 'thread {} {}: {}'.format(t, job,
                                                                                             outcome['shared'])}]
                if {k: v for k, v in want.items() if k != 'late'} != {k: v for k, v in result.items() if k != 'late'}:
                    return [{'kind': 'call-differs', 'detail': 'thread {} {}: {}'.format(
                        t, job, first_difference(json.dumps(want), json.dumps(result)))}]
                if 'late' in result:
                    return [{'kind': 'returned-value-changed-later', 'detail': 'thread {} {}: {}'.format(
                        t, job, first_difference(result['value'], result['late']))}]
        for t, i, before, after in got['changed']:
            return [{'kind': 'input-modified', 'detail': 'thread {} {}: {}'.format(
                t, plan['threads'][t][i], first_difference(before, after))}]
        return []

    def reductions(self, plan):
        self.run(plan, util.Stats())
        performed = self._performed
        switches = plan['schedule'].get('list')
        if switches is None:
            yield dict(plan, schedule={'list': performed})
            switches = performed
        for t in range(len(plan['threads'])):
            if len(plan['threads']) > 1:
                new = copy.deepcopy(plan)
                del new['threads'][t]
                new['schedule'] = {'list': [[c, n - (n > t)] for c, n in switches if n != t]}
                yield new
            for j in range(len(plan['threads'][t])):
                if len(plan['threads'][t]) > 1:
                    new = copy.deepcopy(plan)
                    del new['threads'][t][j]
                    yield new
        size = len(switches) // 2
        while size >= 1:
            for at in range(0, len(switches), size):
                yield dict(plan, schedule={'list': switches[:at] + switches[at + size:]})
            size //= 4
        yield from smaller_documents(plan)


def smaller_documents(plan):
    for smaller in gp.schema_reductions(plan['schemas'][0]['mapping']):
        new = copy.deepcopy(plan)
        new['schemas'][0]['mapping'] = smaller
        yield new
    for i, (text, ordered) in enumerate(plan['docs']):
        doc = json.loads(text)
        for path in docs_mod.paths(doc):
            smaller = docs_mod.mutate(doc, ['delete', list(path)])
            if smaller != doc:
                yield dict(plan, docs=plan['docs'][:i] + [[json.dumps(smaller), ordered]] + plan['docs'][i + 1:])
