"""C05: generated code depends only on schema and target."""
import copy

from sim import genproc as gp
from sim import remote, util
from sim.base import BaseCheck

INTERPRETERS = [
    {'PYTHONHASHSEED': '1'},
    {'PYTHONHASHSEED': '0'},
    {'PYTHONHASHSEED': '77', 'PYTHONOPTIMIZE': '1', 'LC_ALL': 'C', 'PYTHONUTF8': '0'},
    {'PYTHONHASHSEED': '4242', 'PYTHONOPTIMIZE': '2'},
    {'PYTHONHASHSEED': '31337', 'ICONTRACT_SLOW': '1', 'LC_ALL': 'POSIX', 'PYTHONUTF8': '1', 'PYTHONMALLOC': 'debug'},
    {'PYTHONHASHSEED': '99991', 'PYTHONCOERCECLOCALE': '0', 'LANG': 'de_DE.UTF-8', 'LC_ALL': ''},
]
ENVS = [
    {'USER': 'anna', 'LANG': 'tr_TR.UTF-8'}, {'LC_ALL': 'C', 'LANG': ''}, {'COLUMNS': '20'}, {'COLUMNS': '300'},
    {'PYTHONPATH': '/x'}, {'SOURCE_DATE_EPOCH': '0'}, {'SOURCE_DATE_EPOCH': '1700000000'}, {'DEBUG': '1'},
    {'TERM': 'dumb', 'NO_COLOR': '1'}, {'HOME': '/nonexistent'}, {'TMPDIR': '/sim/other'}, {'GOPATH': '/go'},
    {'GOFLAGS': '-mod=vendor'}, {'CC': 'clang'}, {'MAPRY_DEBUG': '1', 'MAPRY_INDENT': '8'}, {'EDITOR': 'vi'},
    {'PWD': '/wrong'}, {'CI': 'true', 'GITHUB_ACTIONS': 'true'}, {'USERNAME': 'bob', 'LOGNAME': 'eve'},
    {'HOSTNAME': 'zeus'}, {'TZ': 'America/New_York'}, {'LANGUAGE': 'ja'},
]
ZONES = ['UTC', 'UTC+11', 'UTC-14', 'CET-1CEST', 'EST5EDT', 'XYZ3:30']
CLOCKS = [0, 1, 951782400 * 10**9, 1_700_000_000 * 10**9, 2**31 * 10**9, 4102444799 * 10**9, 1711846800 * 10**9]
PLACES = [  # cwd, --schema, --outdir, schema path, output directory
    (gp.WORK, 'schema.json', 'out', gp.WORK + '/schema.json', gp.WORK + '/out'),
    (gp.WORK, '/sim/work/schema.json', '/sim/work/out', gp.WORK + '/schema.json', gp.WORK + '/out'),
    ('/sim', 'work/schema.json', './work/gen/../out', gp.WORK + '/schema.json', gp.WORK + '/out'),
    (gp.WORK + '/out', '../schema.json', '.', gp.WORK + '/schema.json', gp.WORK + '/out'),
    ('/sim/home', '/sim/data/another name.json', 'generated code', '/sim/data/another name.json',
     '/sim/home/generated code'),
    ('/sim/tmp', '../data/S.JSON', 'a/b/c/d/e', '/sim/data/S.JSON', '/sim/tmp/a/b/c/d/e'),
    (gp.WORK, 'types.h', 'out', gp.WORK + '/types.h', gp.WORK + '/out'),
    (gp.WORK, 'm\u00e4p.json', '\u00f6ut', gp.WORK + '/m\u00e4p.json', gp.WORK + '/\u00f6ut'),
]
ANSWERS = [('1', ''), ('8', '8\n'), ('true', '{"indent": 8, "indention": "  ", "header": "x"}\n'),
           ('/sim/home', '[mapry]\nindent = 8\nheader = x\n'), ('de_DE.UTF-8', '// x\n'), ('', '# x\n')]


class Check(BaseCheck):
    id = 'C05'
    tasks = {'quick': 700, 'thorough': 12000}
    counted = 'runs'
    rule = ('One case: a valid schema and target, generated once in a reference machine and then in machines that '
            'differ in several of: interpreter (hash seed, -O/-OO, real locale, allocator, slow contracts), seed of '
            'object identities and default hashes, encoding of the locale, time zone, clock and clock jumps, '
            'environment variables, user, host, process id, CPU count, umask, buffer size, seed of random '
            'generators, order of directory entries, working directory and spelling of paths, name, time and mode '
            'of the schema file, content of the output directory, and earlier - also failed and interrupted - '
            'generations in the same process. Distinct: schema, target and machine; every case differs from its '
            'reference in at least two of these.')
    assumptions = ['Object identity reaches generated code only through id(), hash() and the order of sets and '
                   'dictionaries.']
    components = {'real': ['mapry command line and everything below it; the hash seed, optimisation flags and C '
                           'locale of the interpreter'],
                  'stub': ['system calls and disk, clock, time zone data, randomness, environment, process '
                           'identity, locale encoding, object identities']}

    def explore(self, seed, index, tier, stats):
        r = util.rng(seed, self.id, index)
        target = gp.TARGETS[index % 3]
        schema = gp.new_schema(r)
        out = []
        for _ in range(6):
            plan = self._machine(r, target, schema)
            violations = self.run(plan, stats)
            out.extend(dict(v, plan=plan) for v in violations)
            if out:
                break
        return out

    @staticmethod
    def _machine(r, target, schema):
        cwd, schema_arg, out_arg, schema_at, outdir = r.choice(PLACES)
        fs = {cwd: {'dir': True}} if cwd != gp.WORK + '/out' else {}
        fs[gp.WORK + '/gen'] = {'dir': True}
        fs[outdir] = {'dir': True}
        schemas = [schema]
        fs[schema_at] = {'schema': 0}
        if r.random() < 0.4:
            fs[schema_at]['mtime'] = r.choice([0, 10**18, 4 * 10**18])
        if r.random() < 0.2:
            fs[schema_at]['mode'] = r.choice([0o400, 0o755, 0o444])
        proc = {'argv': ['mapry', target, '--schema', schema_arg, '--outdir', out_arg],
                'entry': r.choice(['module', 'script']), 'cwd': cwd}
        if r.random() < 0.7:
            proc['idseed'] = r.getrandbits(20)
            if r.random() < 0.6:
                proc['idreuse'] = r.getrandbits(20)
        if r.random() < 0.5:
            proc['encoding'] = r.choice(['ascii', 'latin-1', 'cp1252', 'utf-8', 'utf-16', 'iso8859-9'])
        if r.random() < 0.5:
            proc['tz'] = r.choice(ZONES)
        if r.random() < 0.7:
            proc['clock_ns'] = r.choice(CLOCKS + [r.getrandbits(61)])
        if r.random() < 0.6:
            proc['env'] = {}
            for _ in range(r.randint(1, 5)):
                proc['env'].update(r.choice(ENVS))
            proc['env'].pop('TZ', None)
        if r.random() < 0.5:
            proc.update(user=r.choice(['root', 'zoe', 'b\u00f6']), host=r.choice(['a', 'build-7.example']),
                        pid=r.choice([1, 17, 99999]), cpus=r.choice([1, 2, 64]))
        if r.random() < 0.4:
            proc['umask'] = r.choice([0, 0o077, 0o027])
        if r.random() < 0.5:
            proc['seed'] = r.getrandbits(20)
        if r.random() < 0.3:
            proc['blksize'] = r.choice([1, 64, 1000, 65536])
        faults = []
        if r.random() < 0.3:
            faults = [{'proc': 0, 'op': r.randint(1, 40), 'kind': 'slow', 'ns': r.choice([10**9, 86400 * 10**9,
                                                                                           10**17])}
                      for _ in range(r.randint(1, 3))]
        if r.random() < 0.3:
            names = gp.FILES[target]
            for name in r.sample(names, r.randint(1, len(names))):
                fs[outdir + '/' + name] = {'text': r.choice(['', 'old\n', '# -*- mode: old -*-\nx\n' * 60,
                                                            'DO NOT OVERWRITE\n'])}
            if r.random() < 0.5:
                fs[outdir + '/CUSTOM.txt'] = {'text': 'x\n'}
        if r.random() < 0.55:
            proc['before'] = []
            for k in range(r.randint(1, 3)):
                kind = r.choice(['same', 'settings', 'sibling', 'sibling', 'sibling', 'edited', 'other', 'other', 'broken',
                                 'missing'])
                mapping = schema['mapping']
                if kind == 'settings':
                    fresh = gp.new_schema(r, size=0)['mapping']
                    mapping = dict(mapping, **{t: fresh[t] for t in gp.TARGETS if t in fresh})
                elif kind == 'sibling':
                    mapping = gp.sibling(r, mapping)
                elif kind == 'edited':
                    # the same names with other contents
                    mapping = copy.deepcopy(mapping)
                    edits = [m for m in gp.schema_reductions(mapping) if all(t in m for t in gp.TARGETS)]
                    mapping = r.choice(edits) if edits else mapping
                elif kind == 'other':
                    mapping = gp.new_schema(r, size=r.choice([1, 2]))['mapping']
                name = '/sim/work/before%d.json' % k
                if kind != 'missing':
                    schemas.append({'mapping': mapping, 'style': r.randrange(4)})
                    if kind == 'broken':
                        schemas[-1]['damage'] = [gp.random_damage(r)]
                    fs[name] = {'schema': len(schemas) - 1}
                proc['before'].append(['mapry', r.choice([target, target] + gp.TARGETS), '--schema', name, '--outdir',
                                       r.choice(['/sim/work/before', outdir])])
            if r.random() < 0.3:
                proc['before_interrupt'] = {'run': 0, 'line': int(10 ** r.uniform(1, 4.2)),
                                            'kind': r.choice(['KeyboardInterrupt', 'MemoryError'])}
            if r.random() < 0.3:
                faults.append({'proc': 0, 'op': r.randint(1, 25), 'kind': 'errno',
                               'errno': r.choice(['EIO', 'ENOSPC', 'EACCES'])})
        return {'target': target, 'schemas': schemas, 'fs': fs, 'outdir': outdir,
                'interpreter': r.choice(INTERPRETERS),
                'step': {'procs': [proc], 'faults': faults, 'dir_seed': r.getrandbits(16)}}

    def run(self, plan, stats):
        target = plan['target']
        base = {'fs': {gp.WORK + '/schema.json': {'schema': 0}}, 'schemas': plan['schemas'][:1],
                'outdir': gp.WORK + '/out',
                'step': {'procs': [{'argv': ['mapry', target, '--schema', 'schema.json', '--outdir', 'out']}]}}
        key = util.digest([base, target])
        if getattr(self, '_cached', (None,))[0] != key:
            self._cached = (key, remote.ask(INTERPRETERS[0], base))
        ref = self._cached[1]
        if ref['exit'] != 0:
            stats.add('skipped:reference-fails')
            return []
        got = remote.ask(plan['interpreter'], plan)
        stats.add('runs')
        stats.add('operations', got['steps'])
        stats.faults(got['fired'])
        stats.sim_ns += got['ns']
        stats.add('interpreter:' + ' '.join('{}={}'.format(*kv) for kv in sorted(plan['interpreter'].items())))
        proc = plan['step']['procs'][0]
        for dim in proc:
            stats.add('varied:' + dim)
        stats.state(util.digest(gp.schema_bytes(plan['schemas'][0])), plan['interpreter'], proc, got['digest'])
        stats.sample({'interpreter': plan['interpreter'], 'process': proc, 'faults': plan['step']['faults'],
                      'exit': got['exit']})
        self.log(got['digest'], got['exit'])
        if got['exit'] != 0:
            if got['harmful']:
                stats.add('skipped:operation-failed')
                return []
            return [{'kind': 'environment-breaks-generation', 'detail': got['brief']}]
        diff = gp.compare_files(ref['files'], got['files'])
        if diff is not None:
            return [{'kind': 'output-depends-on-environment', 'detail': diff}]
        return self._answer(plan, ref, got, stats)

    @staticmethod
    def _answer(plan, ref, got, stats):
        """Give the run what it asked for in vain: the same machine with the variables set and the files present."""
        if not got['asked'] and not got['missing']:
            return []
        for i, (value, text) in enumerate(ANSWERS):
            new = copy.deepcopy(plan)
            proc = new['step']['procs'][0]
            proc['env'] = dict(proc.get('env', {}), **{name: value for name in got['asked']})
            for path in got['missing']:
                new['fs'][path] = {'text': text}
            again = remote.ask(plan['interpreter'], new)
            stats.add('answered')
            if again['exit'] != 0:
                continue
            diff = gp.compare_files(ref['files'], again['files'])
            if diff is not None:
                return [{'kind': 'output-depends-on-environment', 'detail': 'with {} set to {!r} and {} present: {}'
                         .format(got['asked'], value, got['missing'], diff)}]
        return []

    def reductions(self, plan):
        if plan['interpreter'] != INTERPRETERS[0]:
            yield dict(plan, interpreter=INTERPRETERS[0])
        proc = plan['step']['procs'][0]
        for i in range(len(proc.get('before', ()))):
            new = copy.deepcopy(plan)
            del new['step']['procs'][0]['before'][i]
            yield new
        for name in proc.get('env', ()):
            new = copy.deepcopy(plan)
            del new['step']['procs'][0]['env'][name]
            yield new
        for smaller in gp.plan_reductions(plan):
            yield smaller
