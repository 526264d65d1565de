"""C12: generated Go code gives the same result under every schedule, map order and history."""
import copy
import json

from sim import docs as docs_mod
from sim import genproc as gp
from sim import gogen, util
from sim.gomodel import GoModel, loads
from checks.c09 import first_difference
from checks.c11 import generated_files
from checks.c13 import GoCheck


def documents(r, mapping, n):
    """Texts of documents, some of them damaged; and which are valid"""
    model = GoModel(mapping)
    source = docs_mod.Docs(r, model, r.choice([1, 2, 3, 4]))
    docs, valid = [], []
    base = source.doc()
    for i in range(n):
        doc = base if i and r.random() < 0.6 else source.doc()
        for _ in range(r.choice([0, 0, 1, 2]) if i else 0):
            doc = docs_mod.mutate(doc, source.damage(doc))
        text = json.dumps(doc)
        if 'Infinity' in text or 'NaN' in text:
            text = json.dumps(base)
        bad, _ = model.read(loads(text))
        docs.append(text)
        if not bad:
            valid.append(i)
    return docs, valid


def random_job(r, docs, valid):
    if valid and r.random() < 0.45:
        return {'op': 'serialize', 'doc': r.choice(valid), 'shared': r.random() < 0.6}
    return {'op': 'parse', 'doc': r.randrange(len(docs)), 'ref': r.choice(['#', 'a', 'b']),
            'cap': r.choice([1, 1, 0, 2, 10]), 'shared': r.random() < 0.6}


def plain(outcome, keep_errors=True):
    """What a caller sees, apart from later changes; without the choice of errors if the order may differ"""
    out = {k: v for k, v in outcome.items() if k not in ('late', 'changed', 'shared')}
    if not keep_errors and (out.get('errors') or out.get('panic')):
        return {'accepted': False}
    return out


class Check(GoCheck):
    id = 'C12'
    tasks = {'quick': 110, 'thorough': 6000}
    counted = 'runs'
    rule = ('One case: 2-4 goroutines of one process making 1-3 calls each (parse, serialize) into one generated '
            'package, on shared or own documents (valid and damaged) and graphs, under a seeded schedule that may '
            'switch at every statement and between evaluation and assignment, and a seeded order of map iteration; '
            'compared with single calls in fresh and in used processes. Distinct: schema, calls, order and the sequence of places '
            'where goroutines were switched; non-trivial: more than 3 switches.')
    assumptions = ["Calls into Go's library are atomic here.", 'Tears of single memory words are not simulated.']
    components = {'real': ['mapry command line generating the code; the generated Go package; the Go compiler, '
                           'library and runtime'],
                  'stub': ['choice of the running goroutine, order of map iteration, package sync']}

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)

        def make_plan(spec):
            docs, valid = documents(r, spec['mapping'], r.choice([1, 2, 3]))
            return {'schemas': [spec], 'docs': docs, 'valid': valid}

        plans, program = self.batch(r, stats, make_plan)
        out = []
        try:
            for i, base in enumerate(plans):
                if not self.usable(program, i, stats):
                    continue
                for _ in range(5):
                    plan = {'schemas': base['schemas'], 'docs': base['docs'], 'threads': [
                        [random_job(r, base['docs'], base['valid']) for _ in range(r.choice([1, 1, 2, 3]))]
                        for _ in range(r.choice([1, 2, 2, 3, 4]))],
                            'order': r.choice([0, 1, r.getrandbits(40) + 2]),
                            'order2': r.choice([0, 1, r.getrandbits(40) + 2]),
                            'schedule': {'seed': r.getrandbits(40), 'rate': r.choice([1, 2, 4, 10, 30, 100])}}
                    plan['fresh'] = r.choice(['calls', 'run', 'run', 'none', 'none'])
                    if r.random() < 0.3:
                        plan['threads'] = [copy.deepcopy(plan['threads'][0]) for _ in plan['threads']]
                    found = self.judge(plan, program, i, stats)
                    out.extend(dict(v, plan=plan) for v in found)
                    if found:
                        break
        finally:
            program.close()
        return out

    def run(self, plan, stats):
        spec = plan['schemas'][0]
        files = generated_files(spec, 'go', stats)
        if files is None:
            return []
        program, i = self.program(files, spec['mapping']['name'])
        if i in program.failed:
            return []
        return self.judge(plan, program, i, stats)

    @staticmethod
    def ask(program, i, docs, threads, order, schedule):
        return program.ask(i, {'op': 'threads', 'docs': [gogen.b64(text) for text in docs], 'threads': threads,
                               'order': order, 'schedule': schedule})

    def alone(self, plan, program, i, job, order, memo):
        """Outcome of a single call, in a fresh process if the plan says so."""
        key = json.dumps([job, order])
        if key not in memo:
            if plan['fresh'] == 'calls':
                program.restart()
            got = self.ask(program, i, [plan['docs'][job['doc']]], [[dict(job, doc=0)]], order, {'list': []})
            memo[key] = got if 'died' in got else got['results'][0][0]
        return memo[key]

    def judge(self, plan, program, i, stats):
        memo = {}
        program.restart()
        wants = [[self.alone(plan, program, i, job, plan['order'], memo) for job in jobs] for jobs in plan['threads']]
        for jobs, outs in zip(plan['threads'], wants):
            for job, out in zip(jobs, outs):
                if 'died' in out:
                    return [{'kind': 'process-dies', 'detail': '{}: {}'.format(job, out['died'])}]
                other = self.alone(plan, program, i, job, plan['order2'], memo)
                stats.add('order pairs')
                if plain(out, False) != plain(other, False):
                    return [{'kind': 'depends-on-map-order', 'detail': '{}: {}'.format(
                        job, first_difference(json.dumps(out), json.dumps(other)))}]
        if plan['fresh'] != 'none':
            program.restart()
        got = self.ask(program, i, plan['docs'], plan['threads'], plan['order'], plan['schedule'])
        self.log(got)
        stats.add('runs')
        if 'died' in got:
            self._performed = []
            return [{'kind': 'process-dies', 'detail': got['died']}]
        self._performed = got['performed']
        stats.add('switches', len(got['performed']))
        stats.add('steps', got['steps'])
        stats.add('controlled map iterations', got['iterations'])
        if len(got['performed']) > 3:
            stats.state(plan['schemas'][0]['mapping'], plan['docs'], plan['threads'], plan['order'], got['places'])
        stats.sample({'threads': plan['threads'], 'order': plan['order'], 'schedule': plan['schedule'],
                      'switches': len(got['performed'])})
        if got['stuck']:
            return [{'kind': 'goroutines-stuck', 'detail': got['stuck']}]
        for t, (jobs, outs, results) in enumerate(zip(plan['threads'], wants, got['results'])):
            for job, want, result in zip(jobs, outs, results):
                stats.add('calls')
                if plain(want) != plain(result):
                    return [{'kind': 'call-differs', 'detail': 'goroutine {} {}: {}'.format(
                        t, job, first_difference(json.dumps(plain(want), sort_keys=True),
                                                 json.dumps(plain(result), sort_keys=True)))}]
                for key, kind in (('late', 'returned-value-changed-later'), ('shared', 'result-shared'), ('changed', 'input-modified')):
                    if result.get(key):
                        return [{'kind': kind, 'detail': 'goroutine {} {}: {}'.format(t, job,
                                                                                      util.clip(result[key], 800))}]
        return []

    def reductions(self, plan):
        self.run(plan, util.Stats())
        performed = self._performed
        switches = plan['schedule'].get('list')
        if switches is None:
            yield dict(plan, schedule={'list': performed})
            switches = performed
        for t in range(len(plan['threads'])):
            if len(plan['threads']) > 1:
                new = copy.deepcopy(plan)
                del new['threads'][t]
                new['schedule'] = {'list': [[c, n - (n > t)] for c, n in switches if n != t]}
                yield new
            for j in range(len(plan['threads'][t])):
                if len(plan['threads'][t]) > 1:
                    new = copy.deepcopy(plan)
                    del new['threads'][t][j]
                    yield new
        size = len(switches) // 2
        while size >= 1:
            for at in range(0, len(switches), size):
                yield dict(plan, schedule={'list': switches[:at] + switches[at + size:]})
            size //= 4
        for smaller in gp.schema_reductions(plan['schemas'][0]['mapping']):
            new = copy.deepcopy(plan)
            new['schemas'][0]['mapping'] = smaller
            yield new
        for i, text in enumerate(plan['docs']):
            doc = json.loads(text)
            for path in docs_mod.paths(doc):
                smaller = docs_mod.mutate(doc, ['delete', list(path)])
                if smaller != doc:
                    yield dict(plan, docs=plan['docs'][:i] + [json.dumps(smaller)] + plan['docs'][i + 1:])
