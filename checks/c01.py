"""C01: reported success means complete output files."""
from sim import genproc as gp
from sim import util
from sim.base import BaseCheck

OUT_SPELLINGS = ['out', 'out', './out', 'gen/deep/out', '/sim/work/out', '../work/out']


class Check(BaseCheck):
    id = 'C01'
    tasks = {'quick': 700, 'thorough': 20000}
    counted = 'runs'
    rule = ('One case: a random valid schema, a target and an initial state of the output directory; first a run '
            'without faults, then several with 1-4 faults placed on operations of that run (errors, short '
            'transfers, EINTR, slow operations, lasting disk-full/read-only/out-of-descriptor states, limited '
            'capacity). Distinct: the pair of schema/target/initial state and the trace of operations with their '
            'results; non-trivial: at least one fault fired, or the initial directory was not empty.')
    assumptions = ['The kernel model (sim/vfs.py, sim/kernel.py) returns errors only where Linux may return them.',
                   'The reference is an undisturbed run of the same code in a fresh machine.']
    components = {'real': ['mapry command line, parser, validation, generators', 'argparse, pathlib, json, jinja2, '
                           'jsonschema, io buffering and text layers of CPython'],
                  'stub': ['system calls on files, descriptors and standard streams', 'clock, randomness, environment']}

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        target = gp.TARGETS[index % 3]
        schema = gp.new_schema(r)
        data = gp.schema_bytes(schema)
        ref = gp.reference(data, target, stats)
        files = gp.ref_files(ref, target) or {name: b'reference failed\n' for name in gp.FILES[target]}
        other = gp.ref_files(gp.reference(gp.schema_bytes(gp.new_schema(r, size=1)), target, stats), target) or {}
        spelling = r.choice(OUT_SPELLINGS)
        outdir = gp.WORK + '/' + spelling if not spelling.startswith('/') else spelling
        outdir = outdir.replace('/./', '/').replace('/sim/work/../work', '/sim/work')
        style, entries = gp.stale_state(r, target, files, other, outdir)
        fs = {gp.WORK + '/schema.json': {'schema': 0}}
        fs.update(entries)
        proc = {'argv': ['mapry', target, '--schema', r.choice(['schema.json', '/sim/work/schema.json']),
                         '--outdir', spelling],
                'entry': r.choice(['module', 'script']), 'stdout_line_buffered': r.random() < 0.5}
        plan = {'target': target, 'schemas': [schema], 'fs': fs, 'outdir': outdir,
                'step': {'procs': [proc], 'faults': []}}
        violations, base = self._run(plan, stats)
        if violations:
            return [dict(v, plan=plan) for v in violations]
        stats.state(util.digest(data), target, style, gp.trace_digest(base))
        stats.add('initial:' + style)
        ops = gp.ops_of(base.kernel.trace)
        out = []
        for j in range(10):
            kinds = r.choice([['errno'], ['errno'], ['errno', 'short', 'eintr'], ['short', 'eintr', 'slow'],
                              ['persist'], ['persist', 'short'], ['errno', 'slow', 'persist', 'eintr', 'short']])
            faults = gp.pick_faults(r, ops, kinds, r.choice([1, 1, 1, 2, 3, 4]), bias=gp.mutation_ops)
            faulty = {'target': target, 'schemas': [schema], 'fs': fs, 'outdir': outdir,
                      'step': {'procs': [proc], 'faults': faults}}
            if r.random() < 0.12:
                faulty['capacity'] = int(sum(len(v) for v in files.values()) * r.choice([0.1, 0.5, 0.9, 0.99, 1.5]))
            if r.random() < 0.1:
                # a file of the target that cannot be replaced
                name = outdir + '/' + r.choice(gp.FILES[target])
                faulty['fs'] = dict(fs)
                faulty['fs'][name] = r.choice([{'dir': True}, {'text': 'locked\n', 'mode': 0o444},
                                               {'link': '/sim/work/missing/x'}, {'link': name}])
            elif r.random() < 0.05:
                faulty['fs'] = dict(fs)
                faulty['fs'].setdefault(outdir, {'dir': True})
                faulty['fs'][outdir] = dict(faulty['fs'][outdir], mode=0o555)
            violations, outcome = self._run(faulty, stats)
            stats.state(util.digest(data), target, style, gp.trace_digest(outcome))
            stats.sample({'argv': proc['argv'], 'initial': style, 'faults': faults, 'exit': outcome.proc.exit,
                          'operations': [list(map(str, e[1:])) for e in outcome.kernel.trace][-12:]})
            out.extend(dict(v, plan=faulty) for v in violations)
            if out:
                break
        return out

    def run(self, plan, stats):
        return self._run(plan, stats)[0]

    def _run(self, plan, stats):
        data = gp.schema_bytes(plan['schemas'][0])
        target = plan['target']
        ref = gp.reference(data, target, stats)
        want = gp.ref_files(ref, target)
        fs = gp.build_fs(plan, plan['fs'], plan.get('capacity'))
        outcome = gp.execute(plan, plan['step'], fs, stats)
        stats.add('runs')
        self.log(gp.trace_digest(outcome), outcome.proc.exit)
        found = []
        if ref.proc.exit != 0 or want is None:
            # generated schemas are valid: an undisturbed run has to succeed with all files
            found.append({'kind': 'undisturbed-run-fails', 'detail': '{} on a valid schema: {}'.format(
                target, ref.brief())})
            return found, outcome
        exit_status = outcome.proc.exit
        stats.add('exit:' + str(exit_status))
        if exit_status == 0:
            diff = gp.compare_files(want, gp.tree_files(outcome.after, fs, plan['outdir'], target))
            if diff is not None:
                found.append({'kind': 'success-without-complete-output', 'detail':
                              'exit status 0, but {}; faults: {}'.format(diff, sorted(outcome.kernel.fired))})
        elif not gp.harmful(outcome.kernel) and 'capacity' not in plan and \
                not any('mode' in e or 'link' in e or ('dir' in e and p.startswith(plan['outdir'] + '/'))
                        for p, e in plan['fs'].items()):
            found.append({'kind': 'failure-without-fault', 'detail':
                          'no operation failed, but {}; faults: {}'.format(outcome.brief(),
                                                                          sorted(outcome.kernel.fired))})
        return found, outcome

    def reductions(self, plan):
        return gp.plan_reductions(plan)
