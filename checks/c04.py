"""C04: a run touches nothing but its own output files."""
import posixpath

from sim import genproc as gp
from sim import util
from sim.base import BaseCheck

# (cwd, --outdir, where that leads, links to set up)
LAYOUTS = [
    (gp.WORK, 'out', gp.WORK + '/out', {}),
    (gp.WORK, './out/', gp.WORK + '/out', {}),
    (gp.WORK, '/sim/work/out', gp.WORK + '/out', {}),
    (gp.WORK, 'gen/deep/er/out', gp.WORK + '/gen/deep/er/out', {}),
    (gp.WORK, '../work/out', gp.WORK + '/out', {}),
    (gp.WORK + '/sub', '../out', gp.WORK + '/out', {gp.WORK + '/sub': {'dir': True}}),
    (gp.WORK, '.', gp.WORK, {}),
    (gp.WORK, 'link', '/sim/elsewhere/real', {gp.WORK + '/link': {'link': '/sim/elsewhere/real'},
                                              '/sim/elsewhere/real': {'dir': True}}),
    (gp.WORK, 'link/out', '/sim/elsewhere/out', {gp.WORK + '/link': {'link': '../elsewhere'},
                                                 '/sim/elsewhere': {'dir': True}}),
    (gp.WORK + '/with space', 'o ut', gp.WORK + '/with space/o ut', {gp.WORK + '/with space': {'dir': True}}),
    (gp.WORK, 'out', gp.WORK + '/out', {gp.WORK + '/out': {'text': 'a file is in the way\n'}}),
    (gp.WORK, 'gen/out', gp.WORK + '/gen/out', {gp.WORK + '/gen': {'text': 'a file is in the way\n'}}),
]
BYSTANDERS = ['{f}.bak', '{f}~', '.{f}.swp', '{f}.tmp', '{f}.new', '{f}.orig', 'tmp{f}', '.{f}', '{f}.lock', 'README',
              'CMakeLists.txt', 'test_{f}', '{f}.json', '__pycache__/parse.cpython-312.pyc', 'sub/{f}', '.gitignore',
              'go.mod', 'extra.go', 'extra.h', 'extra.cpp', 'extra.py', 'util/__init__.py', 'optional.h', 'tmp',
              '.mapry', 'mapry.lock', 'schema.json', 'vendor/dep.go']


class Check(BaseCheck):
    id = 'C04'
    tasks = {'quick': 550, 'thorough': 15000}
    counted = 'runs'
    rule = ('One case: a schema (valid, damaged or breaking a rule), a target, a spelling of the paths and a file '
            'system holding the target\'s earlier files, the other targets\' files, look-alike names and files '
            'outside; one undisturbed run, then runs with failing operations, kills, power loss or asynchronous '
            'exceptions. Every change made through the system-call seam is checked as it happens, and the trees '
            'before and after are compared. Distinct: schema, target, layout and trace; non-trivial: the machine '
            'held files that are not the run\'s own.')
    assumptions = ['A temporary file is no violation if it is created by the run, does not replace anything and is '
                   'gone when the run ends by itself (a kill may leave it).',
                   'Files reached through symbolic links of the output directory count as the documented files.']
    components = {'real': ['mapry command line and everything below it down to the io layers of CPython'],
                  'stub': ['system calls and disk, clock, randomness, environment']}

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        target = gp.TARGETS[index % 3]
        schema = gp.new_schema(r)
        if r.random() < 0.15:
            schema = dict(schema, damage=[gp.random_damage(r)])
        elif r.random() < 0.1:
            schema['mapping'].pop(target)
        data = gp.schema_bytes(schema)
        ref = gp.reference(data, target, stats, count_lines=True)
        files = gp.ref_files(ref, target)
        cwd, arg, outdir, links = r.choice(LAYOUTS)
        fs = {}
        if files and not any('text' in e for e in links.values()):
            fs.update(gp.stale_state(r, target, files, {}, outdir)[1])
        fs.update(links)
        fs.update(self._bystanders(r, target, outdir, links))
        schema_at = r.choice([gp.WORK + '/schema.json', gp.WORK + '/schema.json', outdir + '/schema.json',
                              '/sim/other/place/my schema.json'])
        if any('text' in e for e in links.values()):
            schema_at = gp.WORK + '/schema.json'
        fs[schema_at] = {'schema': 0}
        if r.random() < 0.2:
            fs[schema_at]['mode'] = 0o444
        proc = {'argv': ['mapry', target, '--schema', posixpath.relpath(schema_at, cwd) if r.random() < 0.5
                         else schema_at, '--outdir', arg],
                'entry': r.choice(['module', 'script']), 'cwd': cwd,
                'umask': r.choice([0o022, 0o022, 0o077, 0o002]), 'seed': r.getrandbits(16)}
        if r.random() < 0.15 and files:
            other = r.choice(gp.TARGETS)
            proc['before'] = [['mapry', other, '--schema', schema_at, '--outdir', '/sim/work/before']]
        plan = {'target': target, 'schemas': [schema], 'fs': fs, 'outdir': outdir,
                'step': {'procs': [proc], 'faults': []}}
        violations, base = self._run(plan, stats)
        if violations:
            return [dict(v, plan=plan) for v in violations]
        stats.state(util.digest(data), arg, sorted(fs), gp.trace_digest(base))
        ops = gp.ops_of(base.kernel.trace)
        out = []
        for _ in range(7):
            mode = r.choice(['fail', 'fail', 'kill', 'kill', 'power', 'interrupt', 'persist'])
            p = dict(proc)
            faults = []
            if mode == 'interrupt' and ref.proc.lines:
                p['interrupt'] = {'line': r.randint(1, ref.proc.lines) if r.random() < 0.3 else
                                  max(1, ref.proc.lines - r.randrange(30)),
                                  'kind': r.choice(['KeyboardInterrupt', 'MemoryError', 'kill', 'SystemExit143']),
                                  'seed': r.getrandbits(32)}
                p.pop('before', None)
            else:
                kinds = {'fail': ['errno', 'short', 'eintr'], 'kill': ['kill'], 'power': ['power'],
                         'persist': ['persist'], 'interrupt': ['errno']}[mode]
                faults = gp.pick_faults(r, ops, kinds, r.choice([1, 1, 2]) if mode == 'fail' else 1,
                                        bias=gp.mutation_ops)
            faulty = dict(plan, step={'procs': [p], 'faults': faults})
            violations, outcome = self._run(faulty, stats)
            stats.state(util.digest(data), arg, sorted(fs), gp.trace_digest(outcome))
            stats.sample({'argv': proc['argv'], 'files': sorted(fs), 'faults': faults,
                          'interrupt': p.get('interrupt'), 'exit': outcome.proc.exit,
                          'changes': [m[2:] for m in outcome.kernel.mutations][-10:]})
            out.extend(dict(v, plan=faulty) for v in violations)
            if out:
                break
        return out

    @staticmethod
    def _bystanders(r, target, outdir, links):
        fs = {}
        blocked = [p for p, e in links.items() if 'text' in e]
        for _ in range(r.randint(2, 7)):
            name = r.choice(BYSTANDERS).format(f=r.choice(gp.FILES[target]))
            where = r.choice([outdir, outdir, outdir, posixpath.dirname(outdir), '/sim/home', '/sim/tmp', gp.WORK])
            path = where + '/' + name
            fs[path] = r.choice([{'text': 'by ' + name + '\n'}, {'text': 'by ' + name + '\n', 'mode': 0o600},
                                 {'text': ''}, {'text': 'read only\n', 'mode': 0o444}, {'b64': 'AAEC'},
                                 {'text': 'script\n', 'mode': 0o755}])
        for other in gp.TARGETS:
            if other != target and r.random() < 0.6:
                for name in gp.FILES[other]:
                    if name not in gp.FILES[target] and r.random() < 0.7:
                        fs[outdir + '/' + name] = {'text': '// of the {} target\n'.format(other)}
        if r.random() < 0.3:
            # the names of this target's files in neighbouring directories
            for name in gp.FILES[target]:
                fs[gp.WORK + '/neighbour/' + name] = {'text': 'neighbour\n'}
                if outdir != gp.WORK and r.random() < 0.5:
                    fs[posixpath.dirname(outdir) + '/' + name] = {'text': 'parent\n'}
        names = {outdir + '/' + n for n in gp.FILES[target]}
        out = {}
        for path in sorted(fs):
            if path in names or any(path == p or path.startswith(p + '/') for p in blocked):
                continue
            if path in links or any(path.startswith(q + '/') and q in fs for q in
                                    ['/'.join(path.split('/')[:k]) for k in range(2, path.count('/') + 1)]):
                continue
            if path.startswith(tuple(p + '/' for p, e in links.items() if 'link' in e)):
                continue
            out[path] = fs[path]
        return out

    def run(self, plan, stats):
        return self._run(plan, stats)[0]

    def _run(self, plan, stats):
        target = plan['target']
        fs = gp.build_fs(plan, plan['fs'])
        proc = plan['step']['procs'][0]
        own, leading = self._allowed(fs, proc)
        outcome = gp.execute(plan, plan['step'], fs, stats)
        stats.add('runs')
        stats.add('exit:' + str(outcome.proc.exit))
        stats.add('changes', len(outcome.kernel.mutations))
        self.log(gp.trace_digest(outcome), outcome.proc.exit)
        del target
        what = self._judge(outcome, own, leading)
        if what is None:
            return [], outcome
        kind, text = what
        return [{'kind': kind, 'detail': '{}; {}; faults: {}'.format(text, outcome.brief(),
                                                                   sorted(outcome.kernel.fired))}], outcome

    @staticmethod
    def _allowed(fs, proc):
        """-> documented files and the directories leading to them, with symbolic links resolved"""
        own, leading = set(), set()
        for argv in list(proc.get('before', ())) + [proc['argv']]:
            arg = argv[argv.index('--outdir') + 1]
            full = fs.canonical(posixpath.join(proc.get('cwd', gp.WORK), arg))
            for name in gp.FILES[argv[1]]:
                own.add(fs.canonical(full + '/' + name))
            while full != '/':
                leading.add(full)
                full = posixpath.dirname(full)
        return own, leading

    @staticmethod
    def _judge(outcome, own, leading):
        proc = outcome.proc
        if proc.escapes:
            return 'touches-the-outside', 'effect outside the simulated machine: {}'.format(proc.escapes[0])
        created = set()
        for _, nr, how, path in outcome.kernel.mutations:
            if path in own:
                continue
            if how == 'mkdir' and path in leading and path not in outcome.before:
                continue
            if path not in outcome.before and (path in created or how in ('create', 'mkdir', 'rename-to', 'link',
                                                                           'symlink', 'open', 'write', 'truncate')):
                created.add(path)
                continue
            return 'touches-other-files', 'operation {}: {} of {}'.format(nr, how, path)
        for path, entry in outcome.before.items():
            if path in own:
                continue
            now = outcome.after.get(path)
            if now is None:
                if outcome.kernel.power_lost is None:
                    return 'touches-other-files', '{} is gone'.format(path)
                continue
            if now != entry:
                return 'touches-other-files', '{} changed'.format(path)
        if proc.exit == 'killed' or outcome.kernel.power_lost is not None:
            return None
        if any(kind.partition('@')[2].startswith(('unlink', 'rmdir')) or kind.startswith('persist')
               for kind in outcome.kernel.fired):
            return None
        for path in outcome.after:
            if path not in outcome.before and path not in own and path not in leading:
                return 'leaves-files', '{} was left behind'.format(path)
        return None

    def reductions(self, plan):
        return gp.plan_reductions(plan)
