"""C07: generator processes may run in parallel."""
from sim import genproc as gp
from sim import util
from sim.base import BaseCheck


class Check(BaseCheck):
    id = 'C07'
    tasks = {'quick': 400, 'thorough': 12000}
    counted = 'runs'
    rule = ('One case: 2-5 generator processes on one machine (different targets into one directory, the same schema '
            'and target into one directory, several schemas into directories with missing common parents, or a mix) '
            'and a schedule that decides before every operation which process goes on; in part of the cases one of '
            'them meets failing operations, an asynchronous exception or a kill. Distinct: schemas, processes and '
            'the interleaving with its operations; non-trivial: at least two processes alternate.')
    assumptions = ['Processes share nothing but the file system; file operations are atomic one by one.',
                   'Runs of the same target into the directory of a failed run are not judged.']
    components = {'real': ['mapry command line and everything below it, one interpreter per process'],
                  'stub': ['system calls, scheduler of the machine, disk, clock, randomness, environment']}

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        nschemas = r.choice([1, 1, 2, 3])
        schemas = [gp.new_schema(r, size=r.choice([0, 1, 2])) for _ in range(nschemas)]
        shape = r.choice(['targets', 'targets', 'twins', 'parents', 'mix', 'mix'])
        procs = []

        def add(i, target, out):
            procs.append({'argv': ['mapry', target, '--schema', 's%d.json' % i, '--outdir', out],
                          'entry': r.choice(['module', 'script']), 'seed': r.getrandbits(16),
                          'pid': 1000 + len(procs)})

        base = r.choice(['out', 'gen/deep/out', 'gen'])
        if shape == 'targets':
            i = r.randrange(nschemas)
            for target in r.sample(gp.TARGETS, r.choice([2, 3, 3])):
                add(i if r.random() < 0.7 else r.randrange(nschemas), target, base)
        elif shape == 'twins':
            target = r.choice(gp.TARGETS)
            for _ in range(r.choice([2, 2, 3])):
                add(0, target, base)
        elif shape == 'parents':
            for k in range(r.choice([2, 3, 4])):
                add(r.randrange(nschemas), r.choice(gp.TARGETS), r.choice(['a/b/c%d', 'a/b%d/c', 'a/%d']) % k)
        else:
            owner = {}
            for _ in range(r.choice([3, 4, 5])):
                target, out = r.choice(gp.TARGETS), r.choice([base, base, base + '/sub', 'gen/x'])
                i = owner.setdefault((target, out), r.randrange(nschemas))
                add(i, target, out)
        fs = {gp.WORK + '/s%d.json' % i: {'schema': i} for i in range(nschemas)}
        if r.random() < 0.3:
            for p in procs:
                for name in r.sample(gp.FILES[p['argv'][1]], 2):
                    fs[gp.WORK + '/' + p['argv'][5] + '/' + name] = {'text': 'old\n' * r.choice([1, 9999])}
        refs = [gp.reference(gp.schema_bytes(schemas[int(p['argv'][3][1])]), p['argv'][1], stats, count_lines=True)
                for p in procs]
        total = sum(ref.kernel.step for ref in refs)
        out = []
        for _ in range(5):
            ps = [dict(p) for p in procs]
            faults = []
            if r.random() < 0.4:
                victim = r.randrange(len(ps))
                how = r.choice(['errno', 'persist', 'kill', 'kill', 'interrupt'])
                if how == 'interrupt':
                    n = refs[victim].proc.lines
                    if n:
                        ps[victim]['interrupt'] = {'line': r.choice([r.randint(1, n), max(1, n - r.randrange(25))]),
                                                   'kind': r.choice(['KeyboardInterrupt', 'kill', 'MemoryError'])}
                else:
                    faults = gp.pick_faults(r, gp.ops_of(refs[victim].kernel.trace), [how], 1, proc=victim,
                                            bias=gp.mutation_ops)
            if r.random() < 0.3:
                other = r.randrange(len(ps))
                faults += gp.pick_faults(r, gp.ops_of(refs[other].kernel.trace), ['short', 'eintr', 'slow'], 2,
                                         proc=other)
            plan = {'schemas': schemas, 'fs': fs, 'step': {'procs': ps, 'faults': faults,
                                                           'switches': self._schedule(r, len(ps), total, refs)}}
            violations, outcome = self._run(plan, stats)
            stats.add('shape:' + shape)
            stats.sample({'procs': [p['argv'][1:] for p in ps], 'faults': faults,
                          'interleaving': ''.join(map(str, outcome.kernel.interleaving)),
                          'exits': [p.exit for p in outcome.procs]})
            out.extend(dict(v, plan=plan) for v in violations)
            if out:
                break
        return out

    @staticmethod
    def _schedule(r, n, total, refs):
        style = r.choice(['dense', 'dense', 'sparse', 'bursts', 'lockstep', 'late'])
        if style == 'dense':
            return [[s, r.randrange(n)] for s in range(1, total + 20)]
        if style == 'sparse':
            return sorted([r.randint(1, total), r.randrange(n)] for _ in range(r.randint(2, 8)))
        if style == 'bursts':
            out, s = [], 1
            while s < total + 20:
                out.append([s, r.randrange(n)])
                s += r.randint(1, 12)
            return out
        if style == 'lockstep':
            return [[s, s % n] for s in range(1, total + 20)]
        # everything up to the first change in sequence, the rest mixed
        out, s = [], 1
        for i, ref in enumerate(refs):
            first = next((e[1] for e in gp.ops_of(ref.kernel.trace) if gp.mutation_ops(e)), 10)
            out.append([s, i])
            s += max(1, first - r.choice([0, 1, 2]))
        return out + [[t, r.randrange(n)] for t in range(s, total + 20)]

    def run(self, plan, stats):
        return self._run(plan, stats)[0]

    def _run(self, plan, stats):
        fs = gp.build_fs(plan, plan['fs'])
        outcome = gp.execute(plan, plan['step'], fs, stats)
        stats.add('runs')
        seq = outcome.kernel.interleaving
        switches = sum(1 for a, b in zip(seq, seq[1:]) if a != b)
        stats.add('context-switches', switches)
        exits = [p.exit for p in outcome.procs]
        self.log(gp.trace_digest(outcome), seq, exits)
        if switches >= 2:
            stats.state([gp.schema_bytes(s).decode('utf-8', 'replace') for s in plan['schemas']],
                        gp.trace_digest(outcome), seq)
        procs = plan['step']['procs']
        hit = set()
        for i, p in enumerate(outcome.procs):
            if p.failed_ops or p.exit == 'killed' or 'interrupt' in procs[i] or p.persistent:
                hit.add(i)
        places = {(procs[i]['argv'][1], procs[i]['argv'][5]) for i in hit}
        found = []
        for i, p in enumerate(outcome.procs):
            _, target, _, schema, _, out_arg = procs[i]['argv']
            if (target, out_arg) in places:
                stats.add('not-judged')
                continue
            want = gp.ref_files(gp.reference(gp.schema_bytes(plan['schemas'][int(schema[1])]), target, stats), target)
            if want is None:
                continue
            stats.add('judged')
            if p.exit != 0:
                found.append({'kind': 'parallel-run-fails', 'detail': 'process {} ({} into {}): {}; exits of all: {}; '
                              'faults: {}'.format(i, target, out_arg, outcome.brief(i), exits,
                                                  sorted(outcome.kernel.fired))})
                break
            diff = gp.compare_files(want, gp.tree_files(outcome.after, fs, gp.WORK + '/' + out_arg, target))
            if diff is not None:
                found.append({'kind': 'parallel-run-damages-files', 'detail': 'process {} ({} into {}) reported '
                              'success, but {}; exits of all: {}; faults: {}'.format(
                                  i, target, out_arg, diff, exits, sorted(outcome.kernel.fired))})
                break
        return found, outcome

    def reductions(self, plan):
        import copy
        switches = plan['step']['switches']
        if len(switches) > 8:
            for part in (0.5, 0.75):
                for tail in (True, False):
                    new = copy.deepcopy(plan)
                    n = int(len(switches) * part)
                    new['step']['switches'] = switches[-n:] if tail else switches[:n]
                    yield new
            # merge runs that stay on one process
            new = copy.deepcopy(plan)
            merged = [s for k, s in enumerate(switches) if k == 0 or switches[k - 1][1] != s[1]]
            if len(merged) < len(switches):
                new['step']['switches'] = merged
                yield new
        for smaller in gp.plan_reductions(plan):
            yield smaller
