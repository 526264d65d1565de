"""C02: a run that cannot generate fails and changes no file."""
import copy
import json

from sim import genproc as gp
from sim import util
from sim.base import BaseCheck

KEYWORD = {'cpp': 'double', 'go': 'func', 'py': 'lambda'}


def breaking_mutations(r, mapping, target):
    """Schemas that break a documented rule, so that no code may be generated."""
    new = copy.deepcopy(mapping)
    props = new.setdefault('properties', {})
    # order matters in schemas: re-append at the end is fine for a property
    kinds = ['no-settings', 'unknown-type', 'bad-pattern', 'bounds', 'array-bounds', 'format', 'keyword',
             'duplicate', 'no-description', 'additional', 'reserved-id', 'plural', 'no-values', 'name-type', 'many']
    kind = r.choice(kinds)
    if kind == 'no-settings':
        new.pop(target)
    elif kind == 'unknown-type':
        props['zz_unknown'] = {'type': 'Nonexistent_thing', 'description': 'gives a thing.'}
    elif kind == 'bad-pattern':
        props['zz_pattern'] = {'type': 'string', 'description': 'gives a text.', 'pattern': '['}
    elif kind == 'bounds':
        props['zz_bounds'] = {'type': 'integer', 'description': 'gives a number.', 'minimum': 3, 'maximum': 2}
    elif kind == 'array-bounds':
        props['zz_array'] = {'type': 'array', 'description': 'gives a list.', 'values': {'type': 'integer'},
                             'minimum_size': 3, 'maximum_size': 2}
    elif kind == 'format':
        props['zz_date'] = {'type': 'date', 'description': 'gives a date.', 'format': '%q'}
    elif kind == 'keyword':
        if target == 'go':
            # Go fields are capitalised; the validation concerns formats and duplicates
            props['zz_some_name'] = {'type': 'integer', 'description': 'gives a number.'}
            props['zz_someName'] = {'type': 'integer', 'description': 'gives a number.'}
        else:
            props[KEYWORD[target]] = {'type': 'integer', 'description': 'gives a number.'}
    elif kind == 'duplicate':
        name = 'Zz_twice'
        new.setdefault('classes', []).append({'name': name, 'description': 'defines one.'})
        new['classes'].append({'name': name, 'description': 'defines one.'})
    elif kind == 'no-description':
        props['zz_plain'] = {'type': 'integer'}
    elif kind == 'additional':
        props['zz_more'] = {'type': 'integer', 'description': 'gives a number.', 'unheard_of': 1}
    elif kind == 'reserved-id':
        new.setdefault('classes', []).append({'name': 'Zz_class', 'description': 'defines one.', 'properties': {
            'id': {'type': 'string', 'description': 'gives an id.'}}})
    elif kind == 'plural':
        new.setdefault('classes', []).append({'name': 'Zz_class', 'description': 'defines one.'})
        props['zz_classes' if 'Zz_class'[-1] == 's' else 'zz_classes'] = {
            'type': 'integer', 'description': 'gives a number.'}
    elif kind == 'no-values':
        props['zz_map'] = {'type': 'map', 'description': 'gives a map.'}
    elif kind == 'name-type':
        new['name'] = 7
    elif kind == 'many':
        # as many violations as make a count wrap around in an exit status
        for i in range(r.choice([256, 256, 512])):
            for name in ('zz_n%d' % i, 'zz_N%d' % i):
                props[name] = {'type': 'integer', 'description': 'gives a number.'}
    return kind, new


class Check(BaseCheck):
    id = 'C02'
    tasks = {'quick': 400, 'thorough': 15000}
    counted = 'runs'
    rule = ('One case: a schema that cannot be generated from (stored copy damaged, file missing, unreadable or '
            'replaced by a directory, a documented rule broken, settings absent), or a valid one whose run is hit '
            'before the code is complete (failing operation, asynchronous exception or kill at any line of reading, '
            'checking or rendering), over an output directory with earlier content. Distinct: schema bytes, target '
            'and trace of operations; non-trivial: the run did not succeed.')
    assumptions = ['"Before the code is complete" is everything up to the last executed line of the parsing, '
                   'validation or rendering modules in an undisturbed run.',
                   'Stored damage that leaves valid JSON is not required to be rejected, only to be all-or-nothing.']
    components = {'real': ['mapry command line, parser, validation, generators', 'CPython I/O stack, json, '
                           'jsonschema, jinja2'],
                  'stub': ['system calls, clock, randomness, environment', 'delivery of signals and of failing '
                           'allocations (raised at line granularity)']}

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        target = gp.TARGETS[index % 3]
        schema = gp.new_schema(r)
        data = gp.schema_bytes(schema)
        ref = gp.reference(data, target, stats, count_lines=True)
        files = gp.ref_files(ref, target) or {name: b'reference failed\n' for name in gp.FILES[target]}
        other = gp.ref_files(gp.reference(gp.schema_bytes(gp.new_schema(r, size=1)), target, stats), target) or {}
        outdir = gp.WORK + '/out'
        style, entries = gp.stale_state(r, target, files, other, outdir)
        if style == 'absent' and r.random() < 0.7:
            style, entries = gp.stale_state(r, target, files, other, outdir)
        entries[gp.WORK + '/notes.txt'] = {'text': 'keep me\n'}
        argv = ['mapry', target, '--schema', 'schema.json', '--outdir', 'out']
        out = []

        def case(schema_spec, step, extra_fs=None, must_fail=False, what=''):
            fs = {gp.WORK + '/schema.json': {'schema': 0}}
            fs.update(entries)
            fs.update(extra_fs or {})
            fs = {k: v for k, v in fs.items() if v is not None}
            plan = {'target': target, 'schemas': [schema_spec], 'fs': fs, 'outdir': outdir, 'must_fail': must_fail,
                    'what': what, 'step': step}
            violations, outcome = self._run(plan, stats)
            stats.add('case:' + what)
            if outcome.proc.exit != 0:
                stats.state(util.digest(gp.schema_bytes(schema_spec)), target, gp.trace_digest(outcome))
            stats.sample({'what': what, 'faults': step.get('faults'), 'interrupt': step['procs'][0].get('interrupt'),
                          'exit': outcome.proc.exit, 'detail': util.clip(outcome.brief())})
            out.extend(dict(v, plan=plan) for v in violations)

        def proc(**kwargs):
            return dict({'argv': argv, 'entry': r.choice(['module', 'script'])}, **kwargs)

        # stored copies damaged
        for _ in range(4):
            spec = dict(schema, damage=[gp.random_damage(r) for _ in range(r.choice([1, 1, 1, 2]))])
            case(spec, {'procs': [proc()]}, what='damaged')
        # every cut at or near a line end exercises the diagnostics
        spec = dict(schema, damage=[{'kind': 'cut', 'at': self._line_end(r, data)}])
        case(spec, {'procs': [proc()]}, what='cut-at-line')
        # broken rules
        for _ in range(3):
            kind, bad = breaking_mutations(r, schema['mapping'], target)
            case({'mapping': bad, 'style': schema['style']}, {'procs': [proc()]}, must_fail=True, what='rule')
        # no readable schema at all
        kind = r.choice(['missing', 'directory', 'unreadable', 'dangling', 'empty', 'blank', 'list', 'null'])
        where = gp.WORK + '/schema.json'
        entry = {'missing': None, 'directory': {'dir': True}, 'unreadable': {'schema': 0, 'mode': 0},
                 'dangling': {'link': '/sim/work/nowhere.json'}, 'empty': {'text': ''}, 'blank': {'text': '\n\n'},
                 'list': {'text': '[]\n'}, 'null': {'text': 'null\n'}}[kind]
        case(schema, {'procs': [proc()]}, {where: entry}, must_fail=True, what='no-schema')
        # operations that fail before the code is complete
        ops = gp.ops_of(ref.kernel.trace)
        limit = ref.proc.ops_at_gen
        for _ in range(3):
            faults = gp.pick_faults(r, ops, r.choice([['errno'], ['persist'], ['errno', 'short', 'eintr']]),
                                    r.choice([1, 1, 2]), limit=limit)
            case(schema, {'procs': [proc()], 'faults': faults}, what='io-error')
        # interrupted at a line before the code is complete
        lines = ref.proc.gen_lines
        if lines:
            for _ in range(5):
                kind = r.choice(['KeyboardInterrupt', 'MemoryError', 'MemoryError', 'SimTimeout', 'SystemExit143',
                                 'RecursionError', 'kill', 'power'])
                line = r.randint(1, lines) if r.random() < 0.7 else max(1, lines - r.randint(0, 60))
                case(schema, {'procs': [proc(entry='module',
                                             interrupt={'line': line, 'kind': kind, 'seed': r.getrandbits(32)})]},
                     what='interrupt')
        return out

    @staticmethod
    def _line_end(r, data):
        ends = [i + 1 for i, c in enumerate(data) if c == 10] or [len(data)]
        return max(0, r.choice(ends) - r.choice([0, 0, 1]))

    def run(self, plan, stats):
        return self._run(plan, stats)[0]

    def _run(self, plan, stats):
        target = plan['target']
        spec = plan['schemas'][0]
        data = gp.schema_bytes(spec)
        fs = gp.build_fs(plan, plan['fs'])
        outcome = gp.execute(plan, plan['step'], fs, stats)
        stats.add('runs')
        exit_status = outcome.proc.exit
        stats.add('exit:' + str(exit_status))
        self.log(gp.trace_digest(outcome), exit_status)
        found = []
        must_fail = plan.get('must_fail')
        if not must_fail and spec.get('damage'):
            try:
                json.loads(data.decode('utf-8'))
            except (ValueError, RecursionError):
                must_fail = True
        if exit_status == 0:
            if must_fail:
                found.append({'kind': 'unusable-schema-reported-as-success',
                              'detail': '{}: exit status 0 from {}'.format(plan['what'], util.clip(repr(data), 200))})
                return found, outcome
            if not spec.get('damage'):
                want = gp.ref_files(gp.reference(data, target, stats), target)
                diff = gp.compare_files(want, gp.tree_files(outcome.after, fs, plan['outdir'], target)) \
                    if want is not None else None
                if diff is not None:
                    found.append({'kind': 'success-without-complete-output',
                                  'detail': '{}: {}'.format(plan['what'], diff)})
            return found, outcome
        if exit_status == 'hang' or exit_status == 'deadlock':
            found.append({'kind': 'does-not-end', 'detail': '{}: {}'.format(plan['what'], exit_status)})
            return found, outcome
        if outcome.proc.failed_ops:
            # operations that fail once the code is complete are another matter (C01, C03)
            limit = gp.reference(data, target, stats, count_lines=True).proc.ops_at_gen
            if max(outcome.proc.failed_ops) > limit:
                stats.add('skipped:failed-after-completion')
                return found, outcome
        diff = self._changed(outcome, plan, target)
        if diff is not None:
            found.append({'kind': 'failed-run-changed-files', 'detail': '{}: {}, but {}'.format(
                plan['what'], outcome.brief(), diff)})
        if exit_status == 1 and must_fail and plan['what'] in ('damaged', 'cut-at-line'):
            # the diagnostic has to be about the schema, not an accident of producing it
            err = bytes(outcome.proc.out[2]).decode('utf-8', 'replace')
            if not err.strip():
                found.append({'kind': 'no-diagnosis', 'detail': '{}: nothing on standard error'.format(plan['what'])})
            text = outcome.proc.detail or bytes(outcome.proc.out[2]).decode('utf-8', 'replace')
            if text.startswith(('IndexError', 'KeyError', 'AttributeError', 'TypeError', 'UnboundLocalError',
                                'AssertionError', 'NameError')):
                found.append({'kind': 'diagnosis-crashes', 'detail': '{}: {} on {}'.format(
                    plan['what'], util.clip(text), util.clip(repr(data[-60:])))})
        return found, outcome

    @staticmethod
    def _changed(outcome, plan, target):
        for path, entry in outcome.before.items():
            now = outcome.after.get(path)
            if entry[0] in 'fl' and now != entry:
                if now is None:
                    return '{} is gone'.format(path)
                return '{} changed ({} -> {} bytes)'.format(path, len(entry[2]), len(now[2] or ''))
        names = {plan['outdir'] + '/' + name for name in gp.FILES[target]}
        for path in outcome.after:
            if path in names and path not in outcome.before and outcome.after[path][0] != 'd':
                return '{} was added'.format(path)
        return None

    def reductions(self, plan):
        return gp.plan_reductions(plan)
