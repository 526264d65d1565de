"""C08: one run reflects exactly one version of the schema."""
from sim import genproc as gp
from sim import util
from sim.base import BaseCheck
from checks.c02 import breaking_mutations


class Check(BaseCheck):
    id = 'C08'
    tasks = {'quick': 650, 'thorough': 12000}
    counted = 'runs'
    rule = ('One case: a run whose schema file is atomically replaced (in part of the cases also removed and put '
            'back) 1-6 times between its operations, by versions that are valid, edited, of another layout, damaged '
            'or breaking rules; in part of the cases with short or interrupted operations. The outcome (files and '
            'diagnostics) must be that of one version alone. Distinct: the versions and the trace of operations '
            'with the replacements; non-trivial: a replacement happened while the run was going on.')
    assumptions = ['Replacement is a rename over the old file; writing into the file in place is not covered.']
    components = {'real': ['mapry command line and everything below it down to the io layers of CPython'],
                  'stub': ['system calls and disk, the editor replacing the file, clock, randomness, environment']}

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        target = gp.TARGETS[index % 3]
        schemas = [gp.new_schema(r, size=r.choice([0, 1, 2]))]
        for _ in range(r.randint(1, 3)):
            schemas.append(self._version(r, schemas, target))
        r.shuffle(schemas)
        outdir = gp.WORK + '/out'
        argv = ['mapry', target, '--schema', 'schema.json', '--outdir', 'out']
        first = gp.reference(gp.schema_bytes(schemas[0]), target, stats)
        fs = {gp.WORK + '/schema.json': {'schema': 0}}
        if r.random() < 0.5:
            for name in gp.FILES[target]:
                fs[outdir + '/' + name] = {'text': 'before\n'}
        ops = gp.ops_of(first.kernel.trace)
        reads = [e[1] for e in ops if e[2] in ('open', 'read', 'close', 'stat') and not gp.mutation_ops(e)]
        span = max(reads[-1] + 2 if reads else 4, 6)
        out = []
        for _ in range(7):
            events = []
            for step in sorted({r.randint(1, span) if r.random() < 0.85 else r.randint(1, max(span, len(ops)))
                                for _ in range(r.choice([1, 1, 1, 2, 3, 6]))}):
                event = {'step': step, 'do': 'replace', 'path': gp.WORK + '/schema.json',
                         'content': {'schema': r.randrange(len(schemas))}}
                if r.random() < 0.08:
                    event = {'step': step, 'do': 'remove', 'path': gp.WORK + '/schema.json'}
                events.append(event)
            faults = gp.pick_faults(r, ops, ['short', 'eintr', 'slow'], r.choice([0, 0, 1, 3]))
            proc = {'argv': argv, 'entry': r.choice(['module', 'script']), 'blksize': r.choice([8192, 8192, 64, 512])}
            plan = {'target': target, 'schemas': schemas, 'fs': fs, 'outdir': outdir,
                    'step': {'procs': [proc], 'faults': faults, 'events': events}}
            violations, outcome = self._run(plan, stats)
            if outcome.kernel.fired:
                stats.state([util.digest(gp.schema_bytes(s)) for s in schemas], events, gp.trace_digest(outcome))
            stats.sample({'versions': len(schemas), 'events': events, 'exit': outcome.proc.exit})
            out.extend(dict(v, plan=plan) for v in violations)
            if out:
                break
        return out

    @staticmethod
    def _version(r, schemas, target):
        base = schemas[0]
        kind = r.choice(['edited', 'sibling', 'sibling', 'unset', 'unset', 'other', 'broken', 'damaged', 'damaged',
                         'layout', 'grown'])
        if kind == 'sibling':
            return {'mapping': gp.sibling(r, base['mapping']), 'style': base['style']}
        if kind == 'unset':
            # other settings for some targets, or none at all
            mapping = gp.sibling(r, base['mapping'])
            for name in [target] + r.sample(gp.TARGETS, r.choice([0, 0, 1, 2])):
                mapping.pop(name, None)
            return {'mapping': mapping, 'style': base['style']}
        if kind == 'edited':
            edits = [m for m in gp.schema_reductions(base['mapping']) if all(t in m for t in gp.TARGETS)]
            if edits:
                return {'mapping': r.choice(edits), 'style': base['style']}
            kind = 'other'
        if kind == 'layout':
            return {'mapping': base['mapping'], 'style': (base['style'] + 1) % 4}
        if kind == 'broken':
            return {'mapping': breaking_mutations(r, base['mapping'], target)[1], 'style': base['style']}
        if kind == 'damaged':
            return dict(base, damage=[gp.random_damage(r)])
        if kind == 'grown':
            mapping = dict(base['mapping'])
            mapping['properties'] = dict(mapping.get('properties', {}),
                                         zz_new={'type': 'string', 'description': 'gives a text.'})
            return {'mapping': mapping, 'style': base['style']}
        return gp.new_schema(r, size=r.choice([0, 1]))

    def run(self, plan, stats):
        return self._run(plan, stats)[0]

    def _run(self, plan, stats):
        target = plan['target']
        fs = gp.build_fs(plan, plan['fs'])
        outcome = gp.execute(plan, plan['step'], fs, stats)
        stats.add('runs')
        stats.add('exit:' + str(outcome.proc.exit))
        self.log(gp.trace_digest(outcome), outcome.proc.exit)
        before = gp.tree_files(outcome.before, gp.build_fs(plan, plan['fs']), plan['outdir'], target)
        got = gp.tree_files(outcome.after, fs, plan['outdir'], target)
        mine = (outcome.proc.exit, bytes(outcome.proc.out[2]).decode('utf-8', 'replace'), got)
        versions = [0]
        removed = False
        for event in plan['step'].get('events', ()):
            if event['step'] <= outcome.kernel.step:
                if event['do'] == 'replace':
                    versions.append(event['content']['schema'])
                else:
                    removed = True
        why = []
        for i in dict.fromkeys(versions):
            ref = self._alone(plan, i, stats)
            files = gp.tree_files(ref.after, ref.fs, plan['outdir'], target)
            wanted = (ref.proc.exit, bytes(ref.proc.out[2]).decode('utf-8', 'replace'), files)
            if wanted == mine:
                stats.add('matched-version')
                if wanted[0] != 0:
                    stats.add('matched-rejected-version')
                return [], outcome
            diff = gp.compare_files(files, got) or (None if len(files) == len(got) else 'other files')
            why.append('version {} alone: {}{}'.format(i, ref.brief(), ', but ' + diff if diff else ''))
        if removed and outcome.proc.exit not in (0, 'hang') and got == before:
            stats.add('removed-schema-reported')
            return [], outcome
        return [{'kind': 'outcome-of-no-single-version', 'detail': '{}; {}'.format(outcome.brief(), '; '.join(why))}], \
            outcome

    def _alone(self, plan, i, stats):
        """The same run when version ``i`` is there all the time."""
        key = util.digest([gp.schema_bytes(plan['schemas'][i]).hex(), plan['target'],
                           sorted(p for p in plan['fs']), plan['step']['procs'][0]['entry']
                           if 'entry' in plan['step']['procs'][0] else ''])
        cache = self.__dict__.setdefault('_cache', {})
        if key not in cache:
            if len(cache) > 60:
                cache.clear()
            entries = dict(plan['fs'])
            entries[gp.WORK + '/schema.json'] = {'schema': i}
            fs = gp.build_fs(plan, entries)
            proc = {k: v for k, v in plan['step']['procs'][0].items() if k in ('argv', 'entry')}
            cache[key] = gp.execute(plan, {'procs': [proc]}, fs, stats)
            cache[key].fs = fs
        return cache[key]

    def reductions(self, plan):
        for smaller in gp.plan_reductions(plan):
            if len(smaller['schemas']) == len(plan['schemas']):
                yield smaller
