"""C15: generated C++ code gives the same result under every schedule and history."""
import copy
import json

from sim import docs as docs_mod
from sim import genproc as gp
from sim import util
from sim.cppmodel import CppModel
from sim.gogen import b64
from checks.c09 import first_difference
from checks.c11 import generated_files
from checks.c14 import CppCheck


def documents(r, mapping, n):
    """Texts of documents, some of them damaged; and which are valid"""
    model = CppModel(mapping)
    source = docs_mod.Docs(r, model, r.choice([1, 2, 3, 4]))
    docs, valid = [], []
    base = source.doc()
    for i in range(n):
        doc = base if i and r.random() < 0.6 else source.doc()
        for _ in range(r.choice([0, 0, 1, 2]) if i else 0):
            doc = docs_mod.mutate(doc, source.damage(doc))
        text = json.dumps(doc)
        if 'Infinity' in text or 'NaN' in text or '\\ud8' in text or '\\ud9' in text or '\\udc' in text:
            text = json.dumps(base)
        bad, _ = model.read(json.loads(text))
        docs.append(text)
        if not bad:
            valid.append(i)
    return docs, valid


def random_job(r, docs, valid):
    fill = r.choice([0, 0, 255, r.randrange(256)])
    if valid and r.random() < 0.45:
        return {'op': 'serialize', 'doc': r.choice(valid), 'shared': r.random() < 0.6, 'fill': fill}
    return {'op': 'parse', 'doc': r.randrange(len(docs)), 'ref': r.choice(['#', 'a', 'b']),
            'cap': r.choice([1, 1, 2, 10]), 'fill': fill}


class Check(CppCheck):
    id = 'C15'
    tasks = {'quick': 140, 'thorough': 6000}
    counted = 'runs'
    rule = ('One case: 2-4 threads of one process making 1-3 calls each (parse, serialize) into one generated C++ '
            'package, on shared documents (valid and damaged) and shared or own graphs, under a seeded schedule that '
            'may switch at every basic block of the generated code and of the templates it instantiates; compared '
            'with single calls in fresh processes and with a history of calls in one process. Distinct: schema, calls '
            'and the sequence of places where threads were switched; non-trivial: more than 3 switches.')
    assumptions = ['Calls into compiled libraries are atomic here.', 'Memory is sequentially consistent here.',
                   'jsoncpp is a stand-in that does what jsoncpp 1.9 does.']
    components = {'real': ['mapry command line generating the code; the generated C++ package compiled by g++ with '
                           'AddressSanitizer; libstdc++, glibc, date.h, boost, optional.hpp'],
                  'stub': ['choice of the running thread; locks and guards of static variables; jsoncpp and the time '
                           'zone data base; contents of fresh memory']}
    runs_per_schema = 30

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        spec = self.new_schema(r)
        docs, valid = documents(r, spec['mapping'], r.choice([1, 2, 3]))
        base = {'schemas': [spec], 'docs': docs}
        memo = {}
        out = []
        for _ in range(self.runs_per_schema):
            plan = dict(base, threads=[[random_job(r, docs, valid) for _ in range(r.choice([1, 1, 2, 3]))]
                                       for _ in range(r.choice([1, 2, 2, 3, 4]))],
                        schedule={'seed': r.getrandbits(40), 'rate': r.choice([3, 10, 30, 100, 300, 1000, 10000])})
            if r.random() < 0.3:
                plan['threads'] = [copy.deepcopy(plan['threads'][0]) for _ in plan['threads']]
            found = self.judge(plan, stats, memo)
            out.extend(dict(v, plan=plan) for v in found)
            if found:
                break
        return out

    def run(self, plan, stats):
        return self.judge(plan, stats, {})

    @staticmethod
    def alone(program, plan, job, memo):
        """Outcome of a single call in a fresh process."""
        key = json.dumps(job, sort_keys=True)
        if key not in memo:
            got = program.ask({'op': 'calls', 'docs': [b64(plan['docs'][job['doc']])],
                               'calls': [dict(job, doc=0, fail=0)]})
            memo[key] = got if 'died' in got else got[0]['outcome']
        return memo[key]

    def judge(self, plan, stats, memo):
        spec = plan['schemas'][0]
        files = generated_files(spec, 'cpp', stats)
        if files is None:
            stats.add('skipped:schema-rejected')
            return []
        program = self.program(files, spec['mapping'])
        found = self.usable(program, stats)
        if program.failed is not None:
            return found
        wants = [[self.alone(program, plan, job, memo) for job in jobs] for jobs in plan['threads']]
        for jobs, outs in zip(plan['threads'], wants):
            for job, out in zip(jobs, outs):
                if 'died' in out:
                    return [{'kind': 'process-dies', 'detail': '{}: {}'.format(job, out['died'])}]
        docs = [b64(text) for text in plan['docs']]
        history = program.ask({'op': 'calls', 'docs': docs,
                               'calls': [dict(job, fail=0) for jobs in plan['threads'] for job in jobs]})
        got = program.ask({'op': 'threads', 'docs': docs, 'threads': plan['threads'], 'schedule': plan['schedule']})
        self.log(history, got)
        for what, result in (('one after the other', history), ('concurrently', got)):
            if 'died' in result:
                return [{'kind': 'process-dies', 'detail': '{}: {}'.format(what, result['died'])}]
        stats.add('runs')
        self._performed = got['performed']
        stats.add('switches', len(got['performed']))
        stats.add('steps', got['steps'])
        if len(got['performed']) > 3:
            stats.state(spec['mapping'], plan['docs'], plan['threads'], got['places'])
        stats.sample({'threads': plan['threads'], 'schedule': plan['schedule'], 'switches': len(got['performed'])})
        order = [(t, job) for t, jobs in enumerate(plan['threads']) for job in jobs]
        flat = [out for outs in wants for out in outs]
        for (t, job), want, before, now in zip(order, flat, history,
                                               [out for outs in got['results'] for out in outs]):
            stats.add('calls', 2)
            for what, result in (('after other calls', before['outcome']), ('concurrently', now)):
                for key in ('changed', 'graph_changed'):
                    if result.get(key):
                        return [{'kind': 'input-modified', 'detail': 'thread {} {} {}: {}'.format(
                            t, job, what, util.clip(result[key], 800))}]
                if want != result:
                    return [{'kind': 'call-differs', 'detail': 'thread {} {} {}: {}'.format(
                        t, job, what, first_difference(json.dumps(want, sort_keys=True),
                                                       json.dumps(result, sort_keys=True)))}]
        return []

    def reductions(self, plan):
        self.run(plan, util.Stats())
        performed = self._performed
        switches = plan['schedule'].get('list')
        if switches is None:
            yield dict(plan, schedule={'list': performed})
            switches = performed
        for t in range(len(plan['threads'])):
            if len(plan['threads']) > 1:
                new = copy.deepcopy(plan)
                del new['threads'][t]
                new['schedule'] = {'list': [[c, n - (n > t)] for c, n in switches if n != t]}
                yield new
            for j in range(len(plan['threads'][t])):
                if len(plan['threads'][t]) > 1:
                    new = copy.deepcopy(plan)
                    del new['threads'][t][j]
                    yield new
        size = len(switches) // 2
        while size >= 1:
            for at in range(0, len(switches), size):
                yield dict(plan, schedule={'list': switches[:at] + switches[at + size:]})
            size //= 4
        yield from document_and_schema_reductions(plan)


def document_and_schema_reductions(plan):
    for i, text in enumerate(plan['docs']):
        doc = json.loads(text)
        for path in docs_mod.paths(doc):
            smaller = docs_mod.mutate(doc, ['delete', list(path)])
            if smaller != doc:
                yield dict(plan, docs=plan['docs'][:i] + [json.dumps(smaller)] + plan['docs'][i + 1:])
    for smaller in gp.schema_reductions(plan['schemas'][0]['mapping']):
        new = copy.deepcopy(plan)
        new['schemas'][0]['mapping'] = smaller
        yield new
