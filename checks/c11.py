"""C11: generated Python code never accepts a damaged document."""
import copy
import json

from sim import docs as docs_mod
from sim import genproc as gp
from sim import util
from sim.base import BaseCheck, NoCode
from sim.model import Model, difference, refs_of
from sim.pyworld import reader_body, setup_generated_imports, writer_body


def code_of(plan, stats):
    """Whether there is code for a plan of a NoCode -> violations"""
    from sim import cppgen, gogen
    from sim.cppmodel import CppModel
    spec, target = plan['schemas'][0], plan['no code']
    try:
        files = generated_files(spec, target, stats)
        if files is None:
            return []
        broken = None
        if target == 'py':
            setup_generated_imports()
            cfg = {'files': files, 'module': spec['mapping']['py']['module_name'], 'graph': spec['mapping']['name'],
                   'registries': [], 'items': []}
            gp.execute(plan, {'procs': [cfg]}, gp.build_fs({}, {}), stats, body=reader_body)
        elif target == 'go':
            program = gogen.Program([(files, spec['mapping']['name'])])
            broken = program.broken.get(0)
        else:
            mapping = spec['mapping']
            program = cppgen.Program(files, mapping, [cls['registry'] for cls in CppModel(mapping).classes.values()])
            broken = program.broken
        program.close()
        if broken:
            raise NoCode(spec, target, 'does-not-compile', broken)
    except NoCode as exc:
        found = exc.violation()
        found.pop('plan')
        return [found]
    return []


def generated_files(spec, target, stats):
    """Files of an undisturbed run, or None if the schema is not accepted; NoCode if the run crashes."""
    ref = gp.reference(gp.schema_bytes(spec), target, stats)
    if ref.proc.exit == 1 and ref.proc.detail and ref.proc.detail not in ('KeyboardInterrupt', 'SimTimeout'):
        raise NoCode(spec, target, 'generation-crashed', ref.proc.detail)
    return gp.ref_files(ref, target)


def doc_path(i):
    return gp.WORK + '/doc%d.json' % i


def random_faults(r, span, kinds, errnos):
    out = []
    for _ in range(r.choice([0, 0, 2, 5])):
        kind = r.choice(kinds)
        fault = {'proc': 0, 'op': r.randint(1, span), 'kind': kind}
        if kind == 'short':
            fault['part'] = r.choice([0.0, 0.1, 0.5, 0.9])
        elif kind == 'slow':
            fault['ns'] = r.choice([10**6, 10**9])
        else:
            fault['errno'] = r.choice(errnos)
        out.append(fault)
    return out


def random_documents(r, spec, model, counts=(12, 24)):
    """Plan of stored documents: originals, damages, and faults while they are stored."""
    source = docs_mod.Docs(r, model, r.choice([1, 2, 3, 3]))
    originals = [source.doc() for _ in range(r.choice([1, 2, 3]))]
    items = []
    for _ in range(r.choice(counts)):
        item = {'doc': r.randrange(len(originals)), 'cap': r.choice([1, 1, 2, 3, 10, 10, 1000]),
                'ref': r.choice(['#', '#', '', 'file.json#']), 'how': r.choice(['rename', 'place']),
                'fsync': r.random() < 0.5}
        if r.random() < 0.3:
            item['ordered_input'] = True
        if r.random() < 0.2:
            item['step'] = r.choice([7, 64, 300])
        kind = r.random()
        if kind < 0.62:
            item['damage'] = []
            doc = originals[item['doc']]
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                item['damage'].append(source.damage(doc))
                doc = docs_mod.mutate(doc, item['damage'][-1])
        elif kind < 0.80:
            item['bytes'] = [gp.random_damage(r) for _ in range(r.choice([1, 1, 2]))]
        if r.random() < 0.1:
            item['older'] = r.randrange(len(originals))
        items.append(item)
    plan = {'schemas': [spec], 'docs': originals, 'items': items, 'write_faults': [], 'read_faults': []}
    if r.random() < 0.2:
        n = r.randint(1, 4 * len(items))
        plan['write_faults'] = [{'proc': 0, 'op': n, 'kind': r.choice(['power', 'power', 'kill']),
                                 'seed': r.getrandbits(32)}]
    plan['write_faults'] += random_faults(r, 4 * len(items), ['short', 'errno', 'slow'], ['EINTR', 'EIO', 'ENOSPC'])
    return plan


def stored_documents(plan, stats, log):
    """Store and damage the documents of the plan; -> the simulated file system"""
    items = plan['items']
    entries = {}
    store = []
    for i, item in enumerate(items):
        if item.get('older') is not None:
            entries[doc_path(i)] = gp.enc(json.dumps(plan['docs'][item['older']]))
        if 'raw' in item:
            entries[doc_path(i)] = item['raw']
            continue
        doc = plan['docs'][item['doc']]
        for m in item.get('damage', ()):
            doc = docs_mod.mutate(doc, m)
        store.append({'path': doc_path(i), 'text': json.dumps(doc, ensure_ascii=bool(i % 2)), 'how': item['how'],
                      'fsync': item.get('fsync'), 'step': item.get('step')})
    fs = gp.build_fs(plan, entries)
    if store:
        wrote = gp.execute(plan, {'procs': [{'store': store}], 'faults': plan['write_faults']}, fs, stats,
                           body=writer_body)
        log(gp.trace_digest(wrote))
    for i, item in enumerate(items):
        if item.get('bytes'):
            try:
                node = fs.walk(doc_path(i))
            except OSError:
                continue
            data = bytes(node.data)
            for m in item['bytes']:
                data = gp.damage_bytes(data, m)
            node.data[:] = data
            stats.add('fault:damaged-bytes')
        if item.get('damage'):
            stats.add('fault:damaged-values', len(item['damage']))
    return fs


def document_reductions(plan):
    """Smaller plans of stored documents."""
    if len(plan['items']) > 1:
        half = len(plan['items']) // 2
        yield dict(plan, items=plan['items'][:half])
        yield dict(plan, items=plan['items'][half:])
    for name in ('write_faults', 'read_faults'):
        for i in range(len(plan.get(name, ()))):
            yield dict(plan, **{name: plan[name][:i] + plan[name][i + 1:]})
    for i in range(len(plan['items'])):
        item = plan['items'][i]
        if len(plan['items']) > 1:
            yield dict(plan, items=plan['items'][:i] + plan['items'][i + 1:])
        for key in ('older', 'step', 'ordered_input', 'fsync'):
            if item.get(key):
                yield dict(plan, items=plan['items'][:i] + [{k: v for k, v in item.items() if k != key}] +
                           plan['items'][i + 1:])
        for key in ('damage', 'bytes'):
            for k in range(len(item.get(key, ()))):
                yield dict(plan, items=plan['items'][:i] + [dict(item, **{key: item[key][:k] + item[key][k + 1:]})]
                           + plan['items'][i + 1:])
    for smaller in gp.schema_reductions(plan['schemas'][0]['mapping']):
        new = copy.deepcopy(plan)
        new['schemas'][0]['mapping'] = smaller
        yield new
    for i, doc in enumerate(plan['docs']):
        for path in docs_mod.paths(doc):
            smaller = docs_mod.mutate(doc, ['delete', list(path)])
            if smaller != doc:
                yield dict(plan, docs=plan['docs'][:i] + [smaller] + plan['docs'][i + 1:])


class Check(BaseCheck):
    id = 'C11'
    needs_code = True
    tasks = {'quick': 4000, 'thorough': 100000}
    counted = 'documents'
    rule = ('One case: one stored document read by the Python code generated for a random schema, after 0-3 damages '
            'of its values and/or of its bytes, a torn or stale write or a power loss, under short and interrupted '
            'reads. The verdict (and the content written back) is compared with an independent model of the '
            'documented rules. Distinct: schema, text of the document and cap of the error list; non-trivial: the '
            'text is JSON.')
    assumptions = ['Regular expressions mean what re.match makes of them; dates and times what strptime makes of '
                   'their formats; time zones what the installed pytz knows.',
                   'Durations are compared up to microseconds, or to 48 bits when they go through floating point.']
    components = {'real': ['mapry command line generating the code; the generated parse, fromjsonable and tojsonable '
                           'modules; json, re, datetime, pathlib, pytz'],
                  'stub': ['system calls and disk under the storing and the reading process']}

    def worker_setup(self):
        super().worker_setup()
        setup_generated_imports()

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        spec = gp.new_schema(r, 'py')
        if generated_files(spec, 'py', stats) is None:
            stats.add('skipped:schema-rejected')
            return []
        model = Model(spec['mapping'], 'py')
        plan = random_documents(r, spec, model)
        plan['read_faults'] = random_faults(r, 4 * len(plan['items']), ['short', 'short', 'errno', 'slow'],
                                            ['EINTR', 'EINTR', 'EIO'])
        out = []
        kinds = set()
        for violation in self.run(plan, stats):
            i = violation.pop('item')
            if violation['kind'] in kinds and 'finding' not in violation:
                continue
            kinds.add(violation['kind'])
            out.append(dict(violation, plan=self._only(plan, i)))
        return out

    @staticmethod
    def _only(plan, i):
        """The plan of one document, with the text as it was stored if faults took part."""
        if plan['write_faults'] or plan['read_faults']:
            return plan
        return dict(plan, items=[plan['items'][i]])

    def run(self, plan, stats):
        spec = plan['schemas'][0]
        files = generated_files(spec, 'py', stats)
        if files is None:
            return []
        items = plan['items']
        fs = stored_documents(plan, stats, self.log)
        mapping = spec['mapping']
        cfg = {'files': files, 'module': mapping['py']['module_name'], 'graph': mapping['name'],
               'registries': [cls['registry'] for cls in Model(mapping, 'py').classes.values()],
               'items': [{'path': doc_path(i), 'ref': item['ref'], 'cap': item['cap'],
                          'ordered_input': item.get('ordered_input', False)} for i, item in enumerate(items)]}
        read = gp.execute(plan, {'procs': [cfg], 'faults': plan['read_faults']}, fs, stats, body=reader_body)
        self.log(gp.trace_digest(read))
        if read.proc.result is None:
            return [{'kind': 'reader-died', 'detail': read.brief(), 'item': 0}]
        results = json.loads(read.proc.result)
        self.log(results)
        out = []
        schema_key = util.digest(mapping)
        for i, (item, result) in enumerate(zip(items, results)):
            stats.add('documents')
            stats.add('state:' + result['state'])
            if result['state'] != 'read':
                continue
            text = bytes(fs.walk(doc_path(i)).data).decode('utf-8')
            stats.state(schema_key, text, item['cap'])
            found = self._judge(mapping, json.loads(text), item, result, stats)
            if found:
                out.append(dict(found, item=i, detail='{} [document {}]'.format(found['detail'],
                                                                               util.clip(text, 600))))
        stats.sample({'documents': len(items), 'first': util.clip(results[0], 200)})
        return out

    @staticmethod
    def _judge(mapping, doc, item, result, stats):
        """-> violation or None"""
        model = Model(mapping, 'py')
        bad, content = model.read(doc)
        used = set(model.used)
        if 'boundary' in used:
            stats.add('unjudged:boundary-of-a-range')
            return None
        stats.add('valid' if not bad else 'invalid')
        if 'raised' in result:
            out = {'kind': 'parser-raised', 'detail': result['raised']}
            if 'null-registry' in used and "'NoneType' object has no attribute 'items'" in result['raised']:
                out['finding'] = 'py-null-registry'
            if 'huge-number' in used and result['raised'].startswith('OverflowError'):
                out['finding'] = 'py-huge-number'
            return out
        if result['accepted'] == bool(result['errors']):
            return {'kind': 'verdict-contradictory',
                    'detail': 'accepted={} with errors {}'.format(result['accepted'], util.clip(result['errors']))}
        if result['accepted'] and bad:
            out = {'kind': 'damaged-accepted', 'detail': 'accepted although {}'.format(util.clip(bad))}
            if all(v.finding for v in bad):
                out['finding'] = bad[0].finding
            return out
        if not result['accepted'] and not bad:
            return {'kind': 'valid-rejected', 'detail': 'rejected with {}'.format(util.clip(result['errors']))}
        if result['errors']:
            if len(result['errors']) > item['cap']:
                return {'kind': 'too-many-errors', 'detail': '{} errors with cap {}'.format(len(result['errors']),
                                                                                          item['cap'])}
            places = refs_of(doc, item['ref'])
            for ref, message in result['errors']:
                if ref not in places:
                    return {'kind': 'error-at-no-place', 'detail': 'error at {!r}: {}'.format(ref, util.clip(message))}
                if not isinstance(message, str) or not message:
                    return {'kind': 'error-without-message', 'detail': repr(ref)}
            # errors are about what is wrong
            guilty = set()
            for violation in bad:
                guilty |= {item['ref'] + p for p in spellings(violation.path)}
            for ref, message in result['errors']:
                if ref not in guilty:
                    return {'kind': 'error-at-wrong-place',
                            'detail': 'error at {!r} ({}), but what is wrong is {}'.format(
                                ref, util.clip(message), util.clip(bad))}
            return None
        if result['strays']:
            return {'kind': 'inconsistent-graph', 'detail': util.clip(result['strays'])}
        for n, again in enumerate(result['again']):
            out = None
            if 'raised' in again:
                out = {'kind': 'serializer-raised', 'detail': again['raised']}
            else:
                back, written = Model(mapping, 'py').read(json.loads(again['text']))
                if back:
                    out = {'kind': 'written-invalid', 'detail': '{} in {}'.format(util.clip(back),
                                                                                 util.clip(again['text'], 400))}
                    if model.early and {v.path for v in back} <= model.early:
                        out['finding'] = 'py-year-below-1000'
                else:
                    diff = difference(content, written)
                    if diff:
                        out = {'kind': 'content-changed', 'detail': '{} (ordered={})'.format(diff, bool(n))}
                        if model.early and difference(content, written, skip=model.early) is None:
                            out['finding'] = 'py-year-below-1000'
            if out:
                return out
        return None

    def reductions(self, plan):
        return document_reductions(plan)


def spellings(path):
    """References that may stand for the path."""
    out = ['']
    for key in path:
        names = {str(key), repr(key)}
        out = [base + '/' + name for base in out for name in names]
    return out
