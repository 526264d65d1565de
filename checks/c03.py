"""C03: regeneration always converges to the clean result."""
import copy

from sim import genproc as gp
from sim import util
from sim.base import BaseCheck


class Check(BaseCheck):
    id = 'C03'
    tasks = {'quick': 700, 'thorough': 20000}
    counted = 'runs'
    rule = ('One case: a history of 1-6 steps on one machine - runs of any target for any of several schemas with '
            'failing operations, kills, interrupts or power loss; damage to files of the output directory - followed '
            'by one undisturbed run. Distinct: the traces of all steps; non-trivial: the output directory held '
            'something before the last run.')
    assumptions = ['Power loss keeps, per file and per directory entry not synced, any mixture of old, new, cut, '
                   'zeroed and bit-flipped content.',
                   'Damage never takes away the permission to write or puts a directory in place of a file.']
    components = {'real': ['mapry command line and everything below it down to the io layers of CPython'],
                  'stub': ['system calls and disk (page cache, durable state), clock, randomness, environment']}

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        target = gp.TARGETS[index % 3]
        schemas = [gp.new_schema(r)]
        # versions of the schema: edited copies and unrelated ones
        for _ in range(r.randint(0, 2)):
            if r.random() < 0.5:
                edits = list(gp.schema_reductions(schemas[0]['mapping']))
                edits = [m for m in edits if all(t in m for t in gp.TARGETS)]
                if edits:
                    schemas.append({'mapping': r.choice(edits), 'style': schemas[0]['style']})
                    continue
            schemas.append(gp.new_schema(r, size=r.choice([0, 1, 2])))
        outdirs = ['out', 'out', 'gen/deep/out']
        out_arg = r.choice(outdirs)
        outdir = gp.WORK + '/' + out_arg
        fs = {gp.WORK + '/s%d.json' % i: {'schema': i} for i in range(len(schemas))}
        if r.random() < 0.15:
            fs[outdir] = {'link': '/sim/work/elsewhere'} if r.random() < 0.5 else {'dir': True}
            if 'link' in fs[outdir]:
                fs['/sim/work/elsewhere'] = {'dir': True}
        refs = {}

        def ref(i, t):
            if (i, t) not in refs:
                refs[i, t] = gp.reference(gp.schema_bytes(schemas[i]), t, stats, count_lines=True)
            return refs[i, t]

        steps = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 5])):
            if r.random() < 0.3:
                steps.append({'do': 'damage', 'files': self._damage(r, target, outdir, ref(0, target))})
                continue
            i = r.randrange(len(schemas))
            t = target if r.random() < 0.85 else r.choice(gp.TARGETS)
            proc = {'argv': ['mapry', t, '--schema', 's%d.json' % i, '--outdir', out_arg],
                    'entry': r.choice(['module', 'script'])}
            step = {'do': 'run', 'procs': [proc], 'faults': []}
            base = ref(i, t)
            ops = gp.ops_of(base.kernel.trace)
            mode = r.choice(['clean', 'fail', 'kill', 'kill', 'power', 'power', 'interrupt', 'persist'])
            if mode == 'fail':
                step['faults'] = gp.pick_faults(r, ops, ['errno', 'short', 'eintr'], r.choice([1, 2]),
                                                bias=gp.mutation_ops)
            elif mode in ('kill', 'power'):
                step['faults'] = gp.pick_faults(r, ops, [mode], 1, bias=gp.mutation_ops)
                if r.random() < 0.3:
                    step['faults'] += gp.pick_faults(r, ops, ['short', 'slow', 'eintr'], 1)
            elif mode == 'persist':
                step['faults'] = gp.pick_faults(r, ops, ['persist'], 1)
            elif mode == 'interrupt' and base.proc.lines:
                proc['interrupt'] = {'line': max(1, base.proc.lines - r.choice([0, 1, 2, 5, 10, 30, 500])),
                                     'kind': r.choice(['KeyboardInterrupt', 'MemoryError', 'kill', 'power']),
                                     'seed': r.getrandbits(32)}
            if r.random() < 0.1:
                step['power_after'] = r.getrandbits(32)
            steps.append(step)
        last = {'do': 'run', 'procs': [{'argv': ['mapry', target, '--schema', 's0.json', '--outdir', out_arg],
                                        'entry': r.choice(['module', 'script'])}], 'faults': []}
        if r.random() < 0.3:
            last['faults'] = [f for f in gp.pick_faults(r, gp.ops_of(ref(0, target).kernel.trace),
                                                        ['short', 'slow', 'eintr'], 2)]
        steps.append(last)
        plan = {'target': target, 'schemas': schemas, 'fs': fs, 'outdir': outdir, 'steps': steps}
        return [dict(v, plan=plan) for v in self.run(plan, stats)]

    @staticmethod
    def _damage(r, target, outdir, ref):
        files = gp.ref_files(ref, target) or {}
        out = []
        for name in r.sample(gp.FILES[target], r.randint(1, 3)):
            how = r.choice(['damage', 'damage', 'delete', 'replace', 'extend', 'same-size', 'newlines'])
            item = {'name': name, 'how': how}
            if how == 'damage':
                item['m'] = gp.random_damage(r)
            elif how == 'newlines':
                item['how'] = 'damage'
                item['m'] = {'kind': 'newlines', 'as': r.choice(['\r\n', '\r'])}
            elif how == 'replace':
                item.update(gp.enc(r.choice([b'', b'x', b'// other\n' * 2000, files.get(name, b'')[::-1]])))
            elif how == 'same-size':
                blob = bytearray(files.get(name, b'zz'))
                if blob:
                    blob[r.randrange(len(blob))] = 35
                item.update(gp.enc(bytes(blob)))
            if r.random() < 0.4:
                item['mtime'] = r.choice([0, 4 * 10**18])
            out.append(item)
        return out

    def run(self, plan, stats):
        target = plan['target']
        data = gp.schema_bytes(plan['schemas'][0])
        want = gp.ref_files(gp.reference(data, target, stats), target)
        if want is None:
            return []
        fs = gp.build_fs(plan, plan['fs'])
        found = []
        traces = []
        held = False
        for n, step in enumerate(plan['steps']):
            if step['do'] == 'damage':
                for item in step['files']:
                    path = plan['outdir'] + '/' + item['name']
                    try:
                        path = fs.canonical(path)
                        try:
                            old = bytes(fs.walk(path).data)
                        except FileNotFoundError:
                            old = b''
                        if item['how'] == 'delete':
                            fs.unlink(path)
                        elif item['how'] == 'damage':
                            fs.put(path, gp.damage_bytes(old, item['m']))
                        elif item['how'] == 'extend':
                            fs.put(path, old + b'\n// more\n')
                        else:
                            fs.put(path, gp.content(item, plan))
                        if 'mtime' in item:
                            fs.walk(path).mtime = item['mtime']
                    except (OSError, TypeError):
                        continue
                    stats.add('fault:damage:' + item['how'])
                continue
            if n == len(plan['steps']) - 1:
                held = bool(gp.tree_files(None, fs, plan['outdir'], target))
            outcome = gp.execute(plan, step, fs, stats)
            if 'power_after' in step:
                fs.power_loss(step['power_after'])
                stats.add('fault:power-after-run')
            traces.append(gp.trace_digest(outcome))
            stats.add('step-exit:' + str(outcome.proc.exit))
            self.log(traces[-1], outcome.proc.exit)
        stats.add('runs')
        if held:
            stats.state(util.digest(data), traces)
        stats.sample({'steps': [s.get('files') or [s['procs'][0]['argv'][1:4], s['faults'],
                                                   s['procs'][0].get('interrupt')] for s in plan['steps']],
                      'last-exit': outcome.proc.exit})
        if outcome.proc.exit != 0:
            found.append({'kind': 'regeneration-fails', 'detail': 'undisturbed run after the history: ' +
                          outcome.brief()})
            return found
        diff = gp.compare_files(want, gp.tree_files(outcome.after, fs, plan['outdir'], target))
        if diff is not None:
            found.append({'kind': 'regeneration-differs', 'detail': diff})
        return found

    def reductions(self, plan):
        steps = plan['steps']
        for i in range(len(steps) - 1):
            new = copy.deepcopy(plan)
            del new['steps'][i]
            yield new
        for i, step in enumerate(steps):
            if step['do'] == 'damage':
                for j in range(len(step['files'])):
                    if len(step['files']) > 1:
                        new = copy.deepcopy(plan)
                        del new['steps'][i]['files'][j]
                        yield new
                continue
            for j in range(len(step['faults'])):
                new = copy.deepcopy(plan)
                del new['steps'][i]['faults'][j]
                yield new
            for key in ('interrupt', 'entry'):
                if key in step['procs'][0]:
                    new = copy.deepcopy(plan)
                    del new['steps'][i]['procs'][0][key]
                    yield new
            if 'power_after' in step:
                new = copy.deepcopy(plan)
                del new['steps'][i]['power_after']
                yield new
        bare = dict(plan, steps=[])
        for smaller in gp.plan_reductions(dict(bare, step={'procs': [p for s in steps for p in s.get('procs', ())]})):
            if smaller['fs'] != plan['fs'] or smaller['schemas'] != plan['schemas']:
                new = copy.deepcopy(plan)
                new['fs'] = {k: v for k, v in smaller['fs'].items()}
                new['schemas'] = smaller['schemas']
                yield new
