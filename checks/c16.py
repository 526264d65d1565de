"""C16: an allocation that fails in generated C++ code reaches the caller and leaves no trace."""
import json

from sim import util
from sim.cppmodel import CppModel
from sim.gogen import b64
from checks.c09 import first_difference
from checks.c11 import generated_files, spellings
from checks.c14 import CppCheck
from checks.c15 import document_and_schema_reductions, documents, random_job


def streamed(mapping, text, call, want, outcome):
    """Do the outcomes differ in what is read or written with string streams only?"""
    model = CppModel(mapping)
    model.read(json.loads(text))
    if 'value' in want and 'value' in outcome:
        return all(path in model.streamed for path in differing(json.loads(want['value']), json.loads(outcome['value'])))
    if 'errors' not in want or 'errors' not in outcome:
        return False
    refs = {call['ref'] + p for path in model.streamed for p in spellings(path)}
    wanted, got = (set(map(tuple, errors)) for errors in (want['errors'], outcome['errors']))
    return any(ref in refs for ref, _ in wanted ^ got)


def differing(a, b, path=()):
    """Paths at which two JSON values differ."""
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        return [p for key in a for p in differing(a[key], b[key], path + (key,))]
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [p for i, (x, y) in enumerate(zip(a, b)) for p in differing(x, y, path + (i,))]
    return [] if type(a) is type(b) and a == b else [path]


class Check(CppCheck):
    id = 'C16'
    tasks = {'quick': 170, 'thorough': 6000}
    counted = 'runs'
    rule = ('One case: a history of calls (parse, serialize) into one generated C++ package in one process, in some of '
            'which the n-th allocation, or the n-th and all later ones of the call, fail; in a fresh process or after '
            'a warm-up. Every call either ends as without the fault or with std::bad_alloc, nothing given to it is '
            'changed or left behind, and all other calls give what they give in fresh processes. Distinct: schema, '
            'documents, calls and faults; non-trivial: at least one allocation failed.')
    assumptions = ['Allocations through operator new fail; malloc inside of libraries does not.',
                   'jsoncpp is a stand-in that does what jsoncpp 1.9 does.']
    components = {'real': ['mapry command line generating the code; the generated C++ package compiled by g++ with '
                           'AddressSanitizer; libstdc++, glibc, date.h, boost, optional.hpp'],
                  'stub': ['memory allocation; jsoncpp and the time zone data base; contents of fresh memory']}
    runs_per_schema = 12

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        spec = self.new_schema(r)
        docs, valid = documents(r, spec['mapping'], r.choice([1, 2, 3]))
        memo = {}
        out = []
        for _ in range(self.runs_per_schema):
            calls = []
            for _ in range(r.choice([3, 10, 20])):
                # the faults are placed by the number of allocations that the call makes
                calls.append(dict(random_job(r, docs, valid), where=r.randrange(10**6), alone=r.random() < 0.7)
                             if r.random() < 0.8 else random_job(r, docs, valid))
            plan = {'schemas': [spec], 'docs': docs, 'warm': r.random() < 0.6, 'calls': calls}
            found = self.judge(plan, stats, memo)
            out.extend(dict(v, plan=plan) for v in found)
            if any('finding' not in v for v in found):
                break
        return out

    def run(self, plan, stats):
        return self.judge(plan, stats, {})

    @staticmethod
    def alone(program, plan, job, memo):
        """A single call in a fresh process."""
        job = {k: v for k, v in job.items() if k not in ('where', 'alone')}
        key = json.dumps(job, sort_keys=True)
        if key not in memo:
            got = program.ask({'op': 'calls', 'docs': [b64(plan['docs'][job['doc']])],
                               'calls': [dict(job, doc=0, fail=0)]})
            memo[key] = got if 'died' in got else got[0]
        return memo[key]

    def judge(self, plan, stats, memo):
        spec = plan['schemas'][0]
        files = generated_files(spec, 'cpp', stats)
        if files is None:
            stats.add('skipped:schema-rejected')
            return []
        program = self.program(files, spec['mapping'])
        found = self.usable(program, stats)
        if program.failed is not None:
            return found
        calls, wants = [], []
        for job in plan['calls']:
            want = self.alone(program, plan, job, memo)
            if 'died' in want:
                return [{'kind': 'process-dies', 'detail': '{}: {}'.format(job, want['died'])}]
            wants.append(want['outcome'])
            fail = 0
            if 'where' in job and want['made']:
                fail = (1 + job['where'] % want['made']) * (1 if job['alone'] else -1)
            calls.append(dict(job, fail=fail))
        warm = [dict(call, fail=0) for call in calls] if plan['warm'] else []
        after = [dict(call, fail=0) for call in calls]
        results = program.ask({'op': 'calls', 'docs': [b64(text) for text in plan['docs']],
                               'calls': warm + calls + after})
        self.log(results)
        stats.add('runs')
        if 'died' in results:
            return [{'kind': 'process-dies', 'detail': results['died']}]
        hits = 0
        found, known = [], set()
        for i, (call, result) in enumerate(zip(warm + calls + after, results)):
            want = wants[i % len(wants)]
            outcome = dict(result['outcome'])
            stats.add('calls')
            stats.add('allocations', result['made'])
            where = '{} (call {} of {})'.format({k: v for k, v in call.items() if k != 'where'}, i,
                                                len(warm) + 2 * len(calls))
            for key in ('changed', 'graph_changed'):
                if outcome.get(key):
                    return found + [{'kind': 'input-modified', 'detail': '{}: {}'.format(where, util.clip(outcome[key], 800))}]
            if result['hit']:
                hits += 1
                stats.add('fault:allocation-fails' if call['fail'] > 0 else 'fault:allocations-fail-on')
                if not (outcome == want or outcome.get('threw', '').startswith('std::bad_alloc')):
                    out = {'kind': 'fault-hidden', 'detail': '{}: {} instead of {}'.format(
                        where, util.clip(outcome), util.clip(want))}
                    if streamed(spec['mapping'], plan['docs'][call['doc']], call, want, outcome):
                        out['finding'] = 'cpp-stream-swallows'
                        if 'cpp-stream-swallows' in known:
                            continue
                        known.add('cpp-stream-swallows')
                        found.append(out)
                        continue
                    return found + [out]
            elif outcome != want:
                return found + [{'kind': 'call-differs', 'detail': '{}: {}'.format(where, first_difference(
                    json.dumps(want, sort_keys=True), json.dumps(outcome, sort_keys=True)))}]
            if plan['warm'] and i >= len(warm) and result['left']:
                return found + [{'kind': 'memory-left', 'detail': '{}: {} blocks'.format(where, result['left'])}]
        if hits:
            stats.state(spec['mapping'], plan['docs'], calls, plan['warm'])
        stats.sample({'calls': calls[:3], 'warm': plan['warm'], 'hits': hits})
        return found

    def reductions(self, plan):
        calls = plan['calls']
        size = max(1, len(calls) // 2)
        while size >= 1 and len(calls) > 1:
            for at in range(0, len(calls), size):
                smaller = calls[:at] + calls[at + size:]
                if smaller:
                    yield dict(plan, calls=smaller)
            size //= 2
        if plan['warm']:
            yield dict(plan, warm=False)
        for i, call in enumerate(calls):
            if 'where' in call:
                yield dict(plan, calls=calls[:i] + [{k: v for k, v in call.items() if k not in ('where', 'alone')}] +
                           calls[i + 1:])
        yield from document_and_schema_reductions(plan)
