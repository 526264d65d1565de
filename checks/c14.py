"""C14: generated C++ code never accepts a damaged document."""
import json

from sim import cppgen
from sim import genproc as gp
from sim import util
from sim.base import BaseCheck
from sim.cppmodel import CppModel
from sim.gogen import b64
from sim.model import difference, refs_of
from checks.c11 import doc_path, document_reductions, generated_files, random_documents, spellings, stored_documents


class CppCheck(BaseCheck):
    """Checks that run generated C++ code: programs are kept for a while."""
    variants = [{'PYTHONHASHSEED': '1'}]

    def prepare(self, tier, scratch):
        return cppgen.prepare(scratch)

    def program(self, files, mapping, init='zero', keep=6):
        key = util.digest([cppgen.fingerprint(files), mapping, init])
        cache = self.__dict__.setdefault('_programs', {})
        if key not in cache:
            while len(cache) >= keep:
                cache.pop(next(iter(cache))).close()
            registries = [cls['registry'] for cls in CppModel(mapping).classes.values()]
            cache[key] = cppgen.Program(files, mapping, registries, init)
        return cache[key]

    @staticmethod
    def usable(program, stats):
        """-> a violation if it does not compile, for other reasons than what the stand-in of jsoncpp lacks"""
        if program.failed is None:
            if not program.counted:
                program.counted = True
                stats.add('packages')
            return []
        stats.add('does not compile')
        if not program.broken:
            stats.add('skipped:stand-in-of-jsoncpp')
            stats.sample({'does not compile': util.clip(program.failed, 500)})
            return []
        return [{'kind': 'does-not-compile', 'detail': util.clip(program.failed, 1500)}]

    @staticmethod
    def new_schema(r):
        return gp.new_schema(r, 'cpp', anchored=r.random() < 0.7)


class Check(CppCheck):
    id = 'C14'
    needs_code = True
    tasks = {'quick': 200, 'thorough': 6000}
    counted = 'documents'
    rule = ('One case: one stored document read by the C++ code generated for a random schema, after 0-3 damages of '
            'its values and/or of its bytes, a torn or stale write or a power loss, with 2-3 different contents of '
            'fresh memory. The verdict (and the content written back) is compared with an independent model of the '
            'documented rules. Distinct: schema, text of the document and cap of the error list; non-trivial: the '
            'text is JSON.')
    assumptions = ['std::regex, strptime and strftime of the C library and date.h mean what they mean.',
                   'jsoncpp is a stand-in that does what jsoncpp 1.9 does; the time zones of date/tz.h are a fixed list.']
    components = {'real': ['mapry command line generating the code; the generated C++ package compiled by g++ with '
                           'AddressSanitizer; libstdc++, glibc, date.h, boost, optional.hpp'],
                  'stub': ['system calls and disk under the storing process; jsoncpp and the time zone data base; '
                           'contents of fresh memory']}

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        spec = self.new_schema(r)
        plan = random_documents(r, spec, CppModel(spec['mapping']), (24, 48))
        plan['init'] = r.choice(['zero', 'zero', 'zero', 'none'])
        for item in plan['items']:
            item['cap'] = r.choice([1, 1, 2, 3, 10, 1000])
            item['fills'] = [0, 255] + ([r.randrange(1, 255)] if r.random() < 0.3 else [])
        out = []
        kinds = set()
        for violation in self.run(plan, stats):
            n = violation.pop('item')
            if violation['kind'] in kinds and 'finding' not in violation:
                continue
            kinds.add(violation['kind'])
            only = plan if plan['write_faults'] else dict(plan, items=[plan['items'][n]])
            out.append(dict(violation, plan=only))
        return out

    def run(self, plan, stats):
        spec = plan['schemas'][0]
        mapping = spec['mapping']
        files = generated_files(spec, 'cpp', stats)
        if files is None:
            stats.add('skipped:schema-rejected')
            return []
        program = self.program(files, mapping, plan['init'])
        found = self.usable(program, stats)
        if program.failed is not None:
            return [dict(v, item=0) for v in found]
        fs = stored_documents(plan, stats, self.log)
        items = []
        for n, item in enumerate(plan['items']):
            try:
                data = bytes(fs.walk(doc_path(n)).data)
            except OSError:
                stats.add('state:missing')
                continue
            items.append((n, item, data))
        results = program.ask({'op': 'docs', 'items': [
            {'text': b64(data), 'ref': item['ref'], 'cap': item['cap'], 'fills': item['fills']}
            for _, item, data in items]})
        self.log(results)
        if 'died' in results:
            for n, item, data in items:
                alone = program.ask({'op': 'docs', 'items': [{'text': b64(data), 'ref': item['ref'], 'cap': item['cap'],
                                                              'fills': item['fills']}]})
                if 'died' in alone:
                    return [{'kind': 'reader-died', 'detail': alone['died'], 'item': n}]
            return [{'kind': 'reader-died-of-several', 'detail': results['died'], 'item': 0}]
        out = []
        schema_key = util.digest(mapping)
        stats.add('init:' + plan['init'], len(items))
        for (n, item, data), result in zip(items, results):
            stats.add('documents')
            stats.add('state:' + result['state'])
            if result['state'] != 'read':
                continue
            stats.state(schema_key, util.digest(data), item['cap'])
            found = self.judge(mapping, json.loads(result['doc']), item, result['runs'], plan['init'], stats)
            if found:
                out.append(dict(found, item=n, detail='{} [document {}]'.format(
                    found['detail'], util.clip(result['doc'], 600))))
        stats.sample({'documents': len(items), 'first': util.clip(results[:1], 300)})
        return out

    @staticmethod
    def judge(mapping, doc, item, runs, init, stats):
        model = CppModel(mapping)
        bad, content = model.read(doc)
        if 'boundary' in model.used:
            stats.add('unjudged:boundary-of-a-range')
            return None
        stats.add('valid' if not bad else 'invalid')
        places = refs_of(doc, item['ref'])

        def refs(paths):
            return {item['ref'] + p for path in paths for p in spellings(path)}

        guilty = refs(violation.path for violation in bad)
        durations = refs(model.durations)
        graphs = set()
        for run in runs:
            stats.add('calls')
            if run.get('changed'):
                return {'kind': 'input-modified', 'detail': util.clip(run['changed'])}
            parse = run['parse']
            if parse.get('threw'):
                out = {'kind': 'parser-throws', 'detail': parse['threw']}
                if parse['threw'].startswith('std::out_of_range') and model.too_long:
                    out['finding'] = 'cpp-duration-throws'
                return out
            if parse['accepted'] == bool(parse['errors']):
                return {'kind': 'verdict-contradictory', 'detail': util.clip(parse)}
            if parse['accepted'] and bad:
                out = {'kind': 'damaged-accepted', 'detail': 'accepted although {}'.format(util.clip(bad))}
                paths = {violation.path for violation in bad}
                if paths <= model.embedded_nul:
                    out['finding'] = 'cpp-date-with-nul'
                elif paths <= model.trailing:
                    out['finding'] = 'cpp-date-trailing'
                return out
            wrong = [error for error in parse['errors'] if error[0] not in guilty]
            if init == 'none' and wrong and all(
                    ref in durations and 'duration overflows as nanoseconds' in message for ref, message in wrong):
                return {'kind': 'valid-rejected', 'detail': util.clip(parse['errors']),
                        'finding': 'cpp-duration-uninitialized'}
            if not parse['accepted'] and not bad:
                return {'kind': 'valid-rejected', 'detail': 'rejected with {}'.format(util.clip(parse['errors']))}
            if parse['errors']:
                if len(parse['errors']) > item['cap']:
                    return {'kind': 'too-many-errors', 'detail': '{} errors with cap {}'.format(
                        len(parse['errors']), item['cap'])}
                if parse['full'] != (len(parse['errors']) == item['cap']):
                    return {'kind': 'fullness-wrong', 'detail': util.clip(parse)}
                for ref, message in parse['errors']:
                    if ref not in places:
                        return {'kind': 'error-at-no-place', 'detail': 'error at {!r}: {}'.format(
                            ref, util.clip(message))}
                    if not message:
                        return {'kind': 'error-without-message', 'detail': repr(ref)}
                    if ref not in guilty:
                        return {'kind': 'error-at-wrong-place',
                                'detail': 'error at {!r} ({}), but what is wrong is {}'.format(
                                    ref, util.clip(message), util.clip(bad))}
                continue
            graphs.add(parse['graph'])
            for mark in ('&STRAY', '&NULL', 'NULL', 'WRONG-ID', 'nullzone'):
                if mark in parse['graph'] and mark not in json.dumps(doc):
                    return {'kind': 'inconsistent-graph', 'detail': '{}: {}'.format(
                        mark, util.clip(parse['graph'], 800))}
            again = run['serialize']
            if again.get('threw'):
                out = {'kind': 'serializer-throws', 'detail': again['threw']}
                if again['runaway'] and model.wide:
                    out['finding'] = 'cpp-date-endless'
                return out
            if run.get('graph_changed'):
                return {'kind': 'graph-modified', 'detail': util.clip(run['graph_changed'])}
            back_model = CppModel(mapping)
            value = json.loads(again['value'])
            back, written = back_model.read(value)
            if back:
                out = {'kind': 'written-invalid', 'detail': '{} in {}'.format(util.clip(back),
                                                                             util.clip(again['value'], 400))}
                if all(violation.what == 'not an object' and violation.path in model.empty and
                       _at(value, violation.path) is None for violation in back):
                    out['finding'] = 'cpp-empty-null'
                return out
            diff = difference(content, written)
            if diff:
                return {'kind': 'content-changed', 'detail': diff}
        if len(graphs) > 1:
            return {'kind': 'depends-on-memory', 'detail': util.clip(sorted(graphs), 800)}
        return None

    def reductions(self, plan):
        return document_reductions(plan)


def _at(value, path):
    for key in path:
        value = value[key]
    return value
