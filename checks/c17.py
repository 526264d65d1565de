"""C17: documents keep their content on the way through code of other languages and later schemas."""
import copy
import json

from sim import docs as docs_mod
from sim import cppgen, gogen, util
from sim import genproc as gp
from sim.cppmodel import CppModel
from sim.gomodel import GoModel, loads
from sim.model import Model, difference
from sim.pyworld import reader_body, setup_generated_imports, writer_body
from sim.schema_gen import PATTERNS
from fractions import Fraction
from checks.c11 import NoCode, doc_path, generated_files, random_faults
from checks.c13 import GoCheck
from checks.c14 import CppCheck

BATCH = 3
LANGUAGES = ('py', 'go', 'cpp')


# -- schemas and their earlier versions ----------------------------------------------------------------------


def holders(mapping):
    return [(None, mapping)] + [(h['name'], h) for h in mapping.get('classes', [])] + [
        (h['name'], h) for h in mapping.get('embeds', [])]


def earlier(mapping, later):
    """The schema before the later changes; changes that do not apply are left out."""
    for change in later:
        new = copy.deepcopy(mapping)
        found = dict(holders(new))
        if change[0] == 'composite':
            for kind in ('classes', 'embeds'):
                if kind in new:
                    new[kind] = [h for h in new[kind] if h['name'] != change[1]]
        else:
            properties = found.get(change[1], {}).get('properties', {})
            prop = properties.get(change[2])
            if prop is None:
                continue
            if change[0] == 'property':
                if not prop.get('optional'):
                    continue
                del properties[change[2]]
            elif change[0] == 'strict':
                if change[3] in ('minimum_size', 'pattern', 'minimum') and (
                        change[4] > prop.get('maximum_size', 99) if change[3] == 'minimum_size' else change[3] in prop):
                    continue
                prop[change[3]] = change[4]
        if gp.consistent(new):
            mapping = new
    return mapping


def random_changes(r, mapping):
    """What may have been added or loosened since an earlier version."""
    out = []
    for holder, definition in holders(mapping):
        for name, prop in definition.get('properties', {}).items():
            kind = prop['type']
            if prop.get('optional') and r.random() < 0.55:
                out.append(['property', holder, name])
            elif prop.get('optional') and r.random() < 0.4:
                out.append(['strict', holder, name, 'optional', False])
            elif kind == 'array' and r.random() < 0.4:
                out.append(['strict', holder, name, 'minimum_size', prop.get('minimum_size', 0) + 1])
            elif kind == 'string' and r.random() < 0.4:
                out.append(['strict', holder, name, 'pattern', r.choice(sorted(PATTERNS))])
            elif kind in ('integer', 'float') and 'maximum' not in prop and r.random() < 0.4:
                out.append(['strict', holder, name, 'minimum', r.choice([-3, 0, 4])])
    for holder, _ in holders(mapping)[1:]:
        if r.random() < 0.4:
            out.append(['composite', holder])
    return out


def loosen(content):
    """Content up to what is rounded on the way: microseconds of durations and the sign of zero."""
    if isinstance(content, tuple) and content and content[0] == 'duration':
        return ('duration', content[1], Fraction(1, 10**5))
    if isinstance(content, dict):
        return {k: loosen(v) for k, v in content.items()}
    if isinstance(content, list):
        return [loosen(v) for v in content]
    if isinstance(content, float) and content == 0:
        return 0.0
    return content


def portable(doc, mapping, languages):
    """Is the document valid in every language, and free of what is known to be lost?"""
    model = Model(mapping, 'py')
    if model.read(doc)[0] or model.used or model.early:
        return False
    if 'go' in languages:
        model = GoModel(mapping)
        if model.read(loads(json.dumps(doc)))[0] or model.conflicts or model.early or model.used:
            return False
    if 'cpp' in languages:
        model = CppModel(mapping)
        if model.read(doc)[0] or model.empty or model.wide or model.too_long or model.embedded_nul or \
                model.trailing or model.lossy or model.used:
            return False
    return True


class Check(GoCheck, CppCheck):
    id = 'C17'
    needs_code = True
    tasks = {'quick': 110, 'thorough': 4000}
    counted = 'deliveries'
    rule = ('One case: one document on a route of 1-4 nodes, each running the Python, Go or C++ code generated from an '
            'earlier or the present version of a random schema, passed on through a simulated disk with short, '
            'interrupted, failing and torn writes, kills and power losses, stale and repeated deliveries. Each node '
            'must accept the document and pass on the same content; lost ones arrive when they are sent again. '
            'Distinct: schemas, text, language and version of a delivery; non-trivial: the text is JSON.')
    assumptions = ['Documents stay within what all languages can represent (integers up to 2^53, known time zones, '
                   'formats that all libraries know) and outside the known findings of C11, C13 and C14.',
                   'Durations are compared up to 10 microseconds, zeros without sign.']
    components = {'real': ['mapry command line generating the code; the generated Python, Go and C++ code'],
                  'stub': ['system calls and disk between the nodes; order of map iteration in Go; jsoncpp and time zone '
                           'data base of C++']}

    def prepare(self, tier, scratch):
        return dict(gogen.prepare(scratch), **cppgen.prepare(scratch))

    def worker_setup(self):
        super().worker_setup()
        setup_generated_imports()

    # -- plans ---------------------------------------------------------------------------------------------

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        plans = [self.random_plan(r) for _ in range(BATCH)]
        worlds = self.build(plans, stats)
        out = []
        kinds = set()
        try:
            for plan, world in zip(plans, worlds):
                for violation in self.relay(plan, world, stats):
                    if violation['kind'] not in kinds:
                        kinds.add(violation['kind'])
                        out.append(dict(violation, plan=plan))
        finally:
            for program in {id(p): p for world in worlds for p, _ in world['programs'].values()}.values():
                program.close()
        return out

    @staticmethod
    def random_plan(r):
        spec = gp.new_schema(r, 'run', anchored=r.random() < 0.8)
        languages = r.choice([LANGUAGES] * 3 + [('py', 'go'), ('py', 'cpp'), ('go', 'cpp'), ('py', 'py'), ('go', 'go')])
        later = random_changes(r, spec['mapping']) if r.random() < 0.65 else []
        versions = [earlier(spec['mapping'], later), spec['mapping']]
        docs = []
        for _ in range(r.choice([6, 12, 20])):
            version = 0 if later and r.random() < 0.7 else 1
            for _ in range(12):
                source = docs_mod.Docs(r, Model(versions[version], 'py'), r.choice([1, 2, 3]))
                source.nulls = False
                source.p_absent = r.choice([0.1, 0.3, 0.6])
                doc = source.doc()
                if portable(doc, versions[0], languages) if version == 0 else portable(doc, versions[1], languages):
                    break
            route = []
            at = version
            for _ in range(r.choice([1, 2, 2, 3, 3, 4])):
                if at == 0 and r.random() < 0.5:
                    at = 1
                route.append([r.choice(languages), at, r.choice([1, 2, 10])])
            docs.append({'version': version, 'doc': doc, 'route': route, 'how': r.choice(['rename', 'rename', 'place']),
                         'fsync': r.random() < 0.5, 'orders': [r.getrandbits(40)], 'ordered': r.random() < 0.5,
                         'ascii': r.random() < 0.5})
            if r.random() < 0.2:
                docs[-1]['step'] = r.choice([7, 64, 300])
            if r.random() < 0.2:
                docs[-1]['twice'] = True
        rounds = []
        for _ in range(4):
            write = random_faults(r, 4 * len(docs), ['short', 'errno', 'slow'], ['EINTR', 'EIO', 'ENOSPC'])
            if r.random() < 0.25:
                write.append({'proc': 0, 'op': r.randint(1, 4 * len(docs)), 'kind': r.choice(['power', 'power', 'kill']),
                              'seed': r.getrandbits(32)})
            read = random_faults(r, 4 * len(docs), ['short', 'short', 'errno', 'slow'], ['EINTR', 'EINTR', 'EIO'])
            rounds.append({'write_faults': write, 'read_faults': read, 'order': r.getrandbits(30)})
        return {'schemas': [spec], 'later': later, 'docs': docs, 'rounds': rounds}

    def build(self, plans, stats):
        """What runs the nodes: -> for each plan its schemas, generated files and programs"""
        worlds = []
        packages = []
        for plan in plans:
            spec = plan['schemas'][0]
            world = {'mappings': [earlier(spec['mapping'], plan['later']), spec['mapping']], 'files': {}, 'programs': {}}
            worlds.append(world)
            for language, version in sorted({(stage[0], stage[1]) for item in plan['docs'] for stage in item['route']}):
                mapping = world['mappings'][version]
                files = generated_files({'mapping': mapping, 'style': spec['style']}, language, stats)
                if files is None:
                    stats.add('skipped:schema-rejected')
                    continue
                world['files'][language, version] = files
                if language == 'go':
                    packages.append((world, version, files, mapping['name']))
                elif language == 'cpp':
                    program = None
                    if world['mappings'][0] == world['mappings'][1] and ('cpp', 1 - version) in world['programs']:
                        program = world['programs']['cpp', 1 - version][0]
                    if program is None:
                        registries = [cls['registry'] for cls in CppModel(mapping).classes.values()]
                        program = cppgen.Program(files, mapping, registries)
                    if program.failed is None:
                        world['programs']['cpp', version] = (program, None)
                    else:
                        program.close()
                        if program.broken:
                            raise NoCode({'mapping': mapping, 'style': spec['style']}, 'cpp', 'does-not-compile',
                                         program.broken)
                        stats.add('skipped:does-not-compile')
                        stats.sample({'does not compile': util.clip(program.failed, 500)})
        if packages:
            program = gogen.Program([(files, name) for _, _, files, name in packages])
            for i, (world, version, _, _) in enumerate(packages):
                if i in program.broken:
                    program.close()
                    plan = plans[worlds.index(world)]
                    raise NoCode({'mapping': world['mappings'][version], 'style': plan['schemas'][0]['style']}, 'go',
                                 'does-not-compile', program.broken[i])
                if i in program.failed:
                    stats.add('skipped:does-not-compile')
                    stats.sample({'does not compile': util.clip(program.failed[i], 500)})
                else:
                    world['programs']['go', version] = (program, i)
        return worlds

    def run(self, plan, stats):
        key = util.digest([plan['schemas'], plan['later'], sorted({tuple(s[:2]) for d in plan['docs'] for s in d['route']})])
        cache = self.__dict__.setdefault('_worlds', {})
        if key not in cache:
            while len(cache) >= 4:
                for program, _ in cache.pop(next(iter(cache)))['programs'].values():
                    program.close()
            cache[key] = self.build([plan], stats)[0]
        return self.relay(plan, cache[key], stats)

    # -- runs ----------------------------------------------------------------------------------------------

    def relay(self, plan, world, stats):
        mappings = world['mappings']
        schema_key = util.digest(mappings)
        languages = sorted({s[0] for d in plan['docs'] for s in d['route']})
        travellers = {}
        for i, item in enumerate(plan['docs']):
            usable = all((s[0], s[1]) in world['files'] and (s[0] == 'py' or (s[0], s[1]) in world['programs'])
                         for s in item['route'])
            if not usable:
                stats.add('skipped:node-missing')
            elif not all(portable(item['doc'], mappings[v], languages) for v in range(item['version'], 2)):
                stats.add('skipped:not-portable')
            else:
                travellers[i] = json.dumps(item['doc'], ensure_ascii=item.get('ascii', True))
        stats.add('documents', len(travellers))
        stats.add('documents of an earlier schema', sum(not plan['docs'][i]['version'] for i in travellers))
        fs = gp.build_fs(plan, {})
        sent = {i: set() for i in travellers}
        for k, phase in enumerate(plan['rounds']):
            pending = [i for i in travellers if len(plan['docs'][i]['route']) > k]
            if not pending:
                break
            pending.sort(key=lambda i: util.digest([phase['order'], i]))
            for i in pending:
                sent[i].add(travellers[i])
            self.send(plan, fs, {i: travellers[i] for i in pending}, phase['write_faults'], stats)
            arrived = self.deliver(plan, world, fs, k, pending, sent, phase['read_faults'], stats)
            stats.add('stale deliveries', sum(arrived[i].get('text', travellers[i]) != travellers[i] for i in pending))
            again = [i for i in pending if arrived[i]['state'] != 'read']
            if again:
                stats.add('sent again', len(again))
                self.send(plan, fs, {i: travellers[i] for i in again}, [], stats)
                arrived.update(self.deliver(plan, world, fs, k, again, sent, [], stats))
            for i in pending:
                item = plan['docs'][i]
                language, version, _ = item['route'][k]
                stats.add('deliveries')
                stats.add('delivered to ' + language)
                stats.state(schema_key, arrived[i].get('text'), language, version)
                found = self.judge(item, mappings[version], arrived[i])
                if found:
                    kind, detail = found
                    way = ' -> '.join('{} (schema {})'.format(s[0], s[1] + 1) for s in item['route'][:k + 1])
                    return [{'kind': kind, 'detail': '{} [{}; text {}]'.format(
                        detail, way, util.clip(arrived[i].get('text', travellers[i]), 500))}]
                travellers[i] = arrived[i]['written'][-1 if item.get('ordered') else 0]
        stats.sample({'documents': len(travellers), 'versions': 1 + (mappings[0] != mappings[1]),
                      'routes': [[s[:2] for s in plan['docs'][i]['route']] for i in list(travellers)[:3]]})
        return []

    def send(self, plan, fs, texts, faults, stats):
        store = [{'path': doc_path(i), 'text': text, 'how': plan['docs'][i]['how'], 'fsync': plan['docs'][i]['fsync'],
                  'step': plan['docs'][i].get('step')} for i, text in texts.items()]
        wrote = gp.execute(plan, {'procs': [{'store': store}], 'faults': faults}, fs, stats, body=writer_body)
        self.log(gp.trace_digest(wrote))

    def deliver(self, plan, world, fs, k, pending, sent, faults, stats):
        """-> {document: {'state', 'text', 'problem', 'written': texts}}"""
        out = {}
        groups = {}
        for i in pending:
            # the envelope has a checksum: what the disk damaged is not delivered
            try:
                data = bytes(fs.walk(doc_path(i)).data)
            except OSError:
                out[i] = {'state': 'missing'}
                continue
            if data not in {text.encode('utf-8') for text in sent[i]}:
                out[i] = {'state': 'damaged'}
                continue
            language, version, _ = plan['docs'][i]['route'][k]
            groups.setdefault((language, version), []).extend([i, i] if plan['docs'][i].get('twice') else [i])
        for (language, version), members in sorted(groups.items()):
            if language == 'py':
                results = self.python(plan, world, fs, k, version, members, faults, stats)
            else:
                results = self.compiled(plan, world, fs, k, language, version, members)
            self.log(results)
            for i, result in zip(members, results):
                if i in out and out[i]['state'] == result['state'] == 'read' and (
                        out[i]['text'] == result['text']) and out[i].get('written') != result.get('written'):
                    result['problem'] = 'delivered twice, written differently: {} and {}'.format(
                        util.clip(out[i].get('written')), util.clip(result.get('written')))
                if not (i in out and out[i]['state'] == 'read'):
                    out[i] = result
                elif result.get('problem'):
                    out[i] = result
        return out

    def python(self, plan, world, fs, k, version, members, faults, stats):
        mapping = world['mappings'][version]
        cfg = {'files': world['files']['py', version], 'module': mapping['py']['module_name'], 'graph': mapping['name'],
               'registries': [cls['registry'] for cls in Model(mapping, 'py').classes.values()],
               'items': [{'path': doc_path(i), 'ref': '#', 'cap': plan['docs'][i]['route'][k][2]} for i in members]}
        read = gp.execute(dict(plan, schemas=[dict(plan['schemas'][0], mapping=mapping)]),
                          {'procs': [cfg], 'faults': faults}, fs, stats, body=reader_body)
        self.log(gp.trace_digest(read))
        if read.proc.result is None:
            return [{'state': 'died', 'problem': read.brief()} for _ in members]
        out = []
        for i, result in zip(members, json.loads(read.proc.result)):
            entry = {'state': result['state']}
            out.append(entry)
            if result['state'] != 'read':
                continue
            entry['text'] = bytes(fs.walk(doc_path(i)).data).decode('utf-8')
            if 'raised' in result:
                entry['problem'] = 'raised ' + result['raised']
            elif not result['accepted'] or result['errors']:
                entry['problem'] = 'rejected with {}'.format(util.clip(result['errors']))
            elif result['strays']:
                entry['problem'] = 'inconsistent graph: {}'.format(util.clip(result['strays']))
            else:
                failed = [again['raised'] for again in result['again'] if 'raised' in again]
                if failed:
                    entry['problem'] = 'serializer raised ' + failed[0]
                else:
                    entry['written'] = [again['text'] for again in result['again']]
        return out

    @staticmethod
    def compiled(plan, world, fs, k, language, version, members):
        program, index = world['programs'][language, version]
        items, at = [], []
        out = [{'state': 'missing'} for _ in members]
        for n, i in enumerate(members):
            try:
                data = bytes(fs.walk(doc_path(i)).data)
            except OSError:
                continue
            at.append((n, data))
            item = plan['docs'][i]
            items.append({'text': gogen.b64(data), 'ref': '#', 'cap': item['route'][k][2]})
            items[-1].update({'orders': item['orders']} if language == 'go' else {'fills': [item['orders'][0] % 256]})
        request = {'op': 'docs', 'items': items}
        results = program.ask(index, request) if language == 'go' else program.ask(request)
        if 'died' in results:
            return [{'state': 'died', 'problem': results['died']} for _ in members]
        for (n, data), result in zip(at, results):
            entry = {'state': result['state']}
            out[n] = entry
            if result['state'] != 'read':
                continue
            entry['text'] = data.decode('utf-8', 'replace')
            parse = result['runs'][0]['parse']
            again = result['runs'][0].get('serialize') or {}
            failure = parse.get('panic') or parse.get('threw')
            if failure:
                entry['problem'] = 'parser failed: {}'.format(failure)
            elif not parse['accepted'] or parse['errors']:
                entry['problem'] = 'rejected with {}'.format(util.clip(parse['errors']))
            elif again.get('panic') or again.get('threw') or again.get('err'):
                entry['problem'] = 'serializer failed: {}'.format(
                    again.get('panic') or again.get('threw') or again.get('err'))
            else:
                entry['written'] = [again['value']]
        return out

    @staticmethod
    def judge(item, mapping, arrived):
        """-> (kind, detail) or None"""
        if arrived['state'] == 'died':
            return 'node-died', util.clip(arrived['problem'], 800)
        if arrived['state'] != 'read':
            return 'no-progress', 'sent again without faults, but the node finds it ' + arrived['state']
        if arrived.get('problem'):
            return 'node-fails', arrived['problem']
        content = Model(mapping, 'py').read(item['doc'])[1]
        for text in arrived['written']:
            try:
                value = json.loads(text)
            except ValueError:
                return 'written-no-json', util.clip(text)
            bad, written = Model(mapping, 'py').read(value)
            if bad:
                return 'written-invalid', '{} in {}'.format(util.clip(bad), util.clip(text, 500))
            diff = difference(loosen(content), loosen(written))
            if diff:
                return 'content-changed', diff
        return None

    def reductions(self, plan):
        docs = plan['docs']
        if len(docs) > 1:
            half = len(docs) // 2
            yield dict(plan, docs=docs[:half])
            yield dict(plan, docs=docs[half:])
            for i in range(len(docs)):
                yield dict(plan, docs=docs[:i] + docs[i + 1:])
        longest = max([len(d['route']) for d in docs] or [0])
        if len(plan['rounds']) > max(longest, 1):
            yield dict(plan, rounds=plan['rounds'][:longest])
        for i, phase in enumerate(plan['rounds']):
            for name in ('write_faults', 'read_faults'):
                for n in range(len(phase[name])):
                    smaller = dict(phase, **{name: phase[name][:n] + phase[name][n + 1:]})
                    yield dict(plan, rounds=plan['rounds'][:i] + [smaller] + plan['rounds'][i + 1:])
        for i, item in enumerate(docs):
            for n in range(len(item['route'])):
                if len(item['route']) > 1:
                    yield dict(plan, docs=docs[:i] + [dict(item, route=item['route'][:n] + item['route'][n + 1:])] +
                               docs[i + 1:])
            for key in ('twice', 'step', 'ordered'):
                if item.get(key):
                    yield dict(plan, docs=docs[:i] + [{k: v for k, v in item.items() if k != key}] + docs[i + 1:])
        for i in range(len(plan['later'])):
            yield dict(plan, later=plan['later'][:i] + plan['later'][i + 1:])
        for smaller in gp.schema_reductions(plan['schemas'][0]['mapping']):
            yield dict(plan, schemas=[dict(plan['schemas'][0], mapping=smaller)])
        for i, item in enumerate(docs):
            for path in docs_mod.paths(item['doc']):
                smaller = docs_mod.mutate(item['doc'], ['delete', list(path)])
                if smaller != item['doc']:
                    yield dict(plan, docs=docs[:i] + [dict(item, doc=smaller)] + docs[i + 1:])
