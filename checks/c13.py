"""C13: generated Go code never accepts a damaged document."""
import json

from sim import genproc as gp
from sim import gogen, util
from sim.base import BaseCheck
from sim.gomodel import GoModel, loads
from sim.model import difference, refs_of
from checks.c11 import NoCode, doc_path, document_reductions, generated_files, random_documents, spellings, stored_documents

BATCH = 10


class GoCheck(BaseCheck):
    """Checks that run generated Go code: programs are kept for a while, several schemas are built at once."""
    variants = [{'PYTHONHASHSEED': '1'}]

    def prepare(self, tier, scratch):
        return gogen.prepare(scratch)

    def program(self, files, graph):
        """Program with the one package, and its index."""
        key = util.digest([sorted((k, util.digest(v)) for k, v in files.items()), graph])
        cache = self.__dict__.setdefault('_programs', {})
        if key not in cache:
            while len(cache) >= 12:
                cache.pop(next(iter(cache))).close()
            cache[key] = gogen.Program([(files, graph)])
        return cache[key], 0

    def batch(self, r, stats, make_plan):
        """-> (plans, program); a plan of every schema that Go accepts"""
        plans, packages, self.without = [], [], []
        for _ in range(BATCH):
            spec = gp.new_schema(r, 'go')
            try:
                files = generated_files(spec, 'go', stats)
            except NoCode as exc:
                self.without.append(exc.violation())
                continue
            if files is None:
                stats.add('skipped:schema-rejected')
                continue
            plans.append(make_plan(spec))
            packages.append((files, spec['mapping']['name']))
        program = gogen.Program(packages)
        for i, broken in sorted(program.broken.items()):
            self.without.append(NoCode(plans[i]['schemas'][0], 'go', 'does-not-compile', broken).violation())
        return plans, program

    def usable(self, program, i, stats):
        if i in program.failed:
            stats.add('skipped:does-not-compile')
            stats.sample({'does not compile': util.clip(program.failed[i], 500)})
            return False
        stats.add('packages')
        stats.add('instrumented places', program.info[i]['places'])
        stats.add('map iterations under control', program.info[i]['maps'])
        return True


class Check(GoCheck):
    id = 'C13'
    needs_code = True
    tasks = {'quick': 110, 'thorough': 6000}
    counted = 'documents'
    rule = ('One case: one stored document read by the Go code generated for a random schema, after 0-3 damages of '
            'its values and/or of its bytes, a torn or stale write or a power loss, under 2-4 simulated orders of map '
            'iteration. The verdict (and the content written back) is compared with an independent model of the '
            'documented rules. Distinct: schema, text of the document and cap of the error list; non-trivial: the '
            'text is JSON.')
    assumptions = ["Go's encoding/json, regexp, time.Parse and time.LoadLocation mean what they mean.",
                   'Map order is decided by the simulator in rewritten generated code (range over maps).']
    components = {'real': ['mapry command line generating the code; the generated Go package; the Go compiler, '
                           'library and runtime'],
                  'stub': ['system calls and disk under the storing process; order of map iteration']}

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)

        def make_plan(spec):
            plan = random_documents(r, spec, GoModel(spec['mapping']))
            for item in plan['items']:
                item['cap'] = r.choice([1, 1, 1, 1, 1, 0, 2, 10])
                item['orders'] = [0, 1] + [r.getrandbits(40) + 2 for _ in range(r.choice([0, 1, 2]))]
            return plan

        plans, program = self.batch(r, stats, make_plan)
        out = self.without[:1]
        kinds = set()
        try:
            for i, plan in enumerate(plans):
                if not self.usable(program, i, stats):
                    continue
                for violation in self.judge_all(plan, program, i, stats):
                    n = violation.pop('item')
                    if violation['kind'] in kinds and 'finding' not in violation:
                        continue
                    kinds.add(violation['kind'])
                    only = plan if plan['write_faults'] else dict(plan, items=[plan['items'][n]])
                    out.append(dict(violation, plan=only))
        finally:
            program.close()
        return out

    def run(self, plan, stats):
        spec = plan['schemas'][0]
        files = generated_files(spec, 'go', stats)
        if files is None:
            return []
        program, i = self.program(files, spec['mapping']['name'])
        if i in program.failed:
            stats.add('skipped:does-not-compile')
            return []
        return self.judge_all(plan, program, i, stats)

    def judge_all(self, plan, program, index, stats):
        fs = stored_documents(plan, stats, self.log)
        items = []
        for n, item in enumerate(plan['items']):
            try:
                data = bytes(fs.walk(doc_path(n)).data)
            except OSError:
                stats.add('state:missing')
                continue
            items.append((n, item, data))
        results = program.ask(index, {'op': 'docs', 'items': [
            {'text': gogen.b64(data), 'ref': item['ref'], 'cap': item['cap'], 'orders': item['orders']}
            for _, item, data in items]})
        self.log(results)
        if 'died' in results:
            return [{'kind': 'reader-died', 'detail': results['died'], 'item': 0}]
        out = []
        mapping = plan['schemas'][0]['mapping']
        schema_key = util.digest(mapping)
        for (n, item, data), result in zip(items, results):
            stats.add('documents')
            stats.add('state:' + result['state'])
            if result['state'] != 'read':
                continue
            stats.state(schema_key, util.digest(data), item['cap'])
            found = self.judge(mapping, loads(result['doc']), item, result['runs'], stats)
            if found:
                out.append(dict(found, item=n, detail='{} [document {}]'.format(
                    found['detail'], util.clip(result['doc'], 600))))
        stats.sample({'documents': len(items), 'first': util.clip(results[:1], 300)})
        return out

    @staticmethod
    def judge(mapping, doc, item, runs, stats):
        model = GoModel(mapping)
        bad, content = model.read(doc)
        if 'boundary' in model.used:
            stats.add('unjudged:boundary-of-a-range')
            return None
        stats.add('valid' if not bad else 'invalid')
        places = refs_of(doc, item['ref'])
        guilty = set()
        for violation in bad:
            guilty |= {item['ref'] + p for p in spellings(violation.path)}
        graphs = set()
        conflicts = {item['ref'] + p for path in model.conflicts for p in spellings(path)}
        for run in runs:
            stats.add('calls')
            parse = run['parse']
            if parse.get('panic'):
                out = {'kind': 'parser-panics', 'detail': parse['panic']}
                if parse['panic'] == 'unexpected non-empty errors' and (bad or conflicts) and item['cap'] != 1:
                    out['finding'] = 'go-panic-after-first-error'
                return out
            for part in (parse, run.get('serialize') or {}):
                if part.get('shared'):
                    return {'kind': 'result-shared', 'detail': part['shared']}
            if parse.get('changed'):
                return {'kind': 'input-modified', 'detail': util.clip(parse['changed'])}
            if parse['accepted'] == bool(parse['errors']):
                return {'kind': 'verdict-contradictory', 'detail': util.clip(parse)}
            if parse['accepted'] and bad:
                out = {'kind': 'damaged-accepted', 'detail': 'accepted although {}'.format(util.clip(bad))}
                if all(violation.path in model.conflicts for violation in bad):
                    out['finding'] = 'go-format-conflict'
                return out
            if parse['errors'] and any(ref in conflicts for ref, _ in parse['errors']) and not any(
                    ref in guilty for ref, _ in parse['errors'] if ref in conflicts):
                return {'kind': 'valid-rejected', 'finding': 'go-format-conflict',
                        'detail': 'rejected with {}'.format(util.clip(parse['errors']))}
            if not parse['accepted'] and not bad:
                return {'kind': 'valid-rejected', 'detail': 'rejected with {}'.format(util.clip(parse['errors']))}
            if parse['errors']:
                if item['cap'] and len(parse['errors']) > item['cap']:
                    return {'kind': 'too-many-errors', 'detail': '{} errors with cap {}'.format(
                        len(parse['errors']), item['cap'])}
                if parse['full'] != (item['cap'] != 0 and len(parse['errors']) == item['cap']):
                    return {'kind': 'fullness-wrong', 'detail': util.clip(parse)}
                for ref, message in parse['errors']:
                    if ref not in places:
                        return {'kind': 'error-at-no-place', 'detail': 'error at {!r}: {}'.format(
                            ref, util.clip(message))}
                    if not message:
                        return {'kind': 'error-without-message', 'detail': repr(ref)}
                    if '%!' in message and '%!' not in json.dumps(doc):
                        return {'kind': 'garbled-message', 'detail': 'error at {!r}: {}'.format(
                            ref, util.clip(message))}
                    if ref not in guilty:
                        out = {'kind': 'error-at-wrong-place',
                               'detail': 'error at {!r} ({}), but what is wrong is {}'.format(
                                   ref, util.clip(message), util.clip(bad))}
                        if ref in conflicts:
                            out['finding'] = 'go-format-conflict'
                        return out
                continue
            graphs.add(parse['graph'])
            if '&STRAY' in parse['graph']:
                return {'kind': 'inconsistent-graph', 'detail': 'a reference leads to an instance that is not '
                        'registered: {}'.format(util.clip(parse['graph'], 800))}
            again = run['serialize']
            if again.get('panic') or again.get('err'):
                return {'kind': 'serializer-fails', 'detail': again.get('panic') or again.get('err')}
            if again.get('changed'):
                return {'kind': 'graph-modified', 'detail': util.clip(again['changed'])}
            back_model = GoModel(mapping)
            try:
                value = loads(again['value'])
            except ValueError:
                return {'kind': 'written-invalid', 'detail': 'not JSON: {}'.format(util.clip(again['value']))}
            back, written = back_model.read(value)
            out = None
            if back:
                out = {'kind': 'written-invalid', 'detail': '{} in {}'.format(util.clip(back),
                                                                             util.clip(again['value'], 400))}
                if all(violation.path in model.conflicts for violation in back):
                    out['finding'] = 'go-format-conflict'
            else:
                diff = difference(content, written)
                if diff:
                    out = {'kind': 'content-changed', 'detail': diff}
                    for places, finding in ((model.early, 'go-fraction-of-second'),
                                            (model.conflicts, 'go-format-conflict')):
                        if places and difference(content, written, skip=places) is None:
                            out['finding'] = finding
            if out:
                return out
        if len(graphs) > 1:
            return {'kind': 'depends-on-map-order', 'detail': util.clip(sorted(graphs), 800)}
        return None

    def reductions(self, plan):
        return document_reductions(plan)
