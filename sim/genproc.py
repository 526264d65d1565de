"""Simulated runs of the mapry command line: plans, references, fault choice, reductions."""
import base64
import copy
import json

from sim import kernel as kernel_mod
from sim import schema_gen, util
from sim.base import NoCode
from sim.kernel import Kernel
from sim.proc import mapry_body
from sim.vfs import VFS

WORK = '/sim/work'
FILES = {
    'cpp': ['types.h', 'parse.h', 'parse.cpp', 'jsoncpp.h', 'jsoncpp.cpp'],
    'go': ['types.go', 'parse.go', 'from_jsonable.go', 'from_jsonable_test.go', 'to_jsonable.go',
           'to_jsonable_test.go'],
    'py': ['__init__.py', 'parse.py', 'fromjsonable.py', 'tojsonable.py'],
}
TARGETS = ['cpp', 'go', 'py']

# errors that the operation can really end with
ERRORS = {
    'stat': ['EIO', 'EACCES', 'ENOMEM', 'ESTALE'],
    'open-read': ['EIO', 'EACCES', 'EMFILE', 'ENFILE', 'ENOMEM', 'ESTALE'],
    'open-write': ['EIO', 'EACCES', 'EMFILE', 'ENFILE', 'ENOMEM', 'ENOSPC', 'EROFS', 'EDQUOT', 'ETXTBSY', 'EPERM'],
    'read': ['EIO', 'ESTALE'],
    'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'ESTALE'],
    'close': ['EIO', 'ENOSPC', 'EDQUOT'],
    'fsync': ['EIO', 'ENOSPC', 'EDQUOT'],
    'mkdir': ['EACCES', 'ENOSPC', 'EROFS', 'EIO', 'EDQUOT', 'EPERM'],
    'rename': ['EIO', 'EACCES', 'ENOSPC', 'EROFS', 'EPERM'],
    'unlink': ['EIO', 'EACCES', 'EBUSY', 'EROFS'],
    'ftruncate': ['EIO', 'ENOSPC', 'EFBIG'],
    'truncate': ['EIO', 'ENOSPC', 'EFBIG'],
    'listdir': ['EIO', 'EACCES', 'ENOMEM'],
    'chmod': ['EIO', 'EPERM', 'EROFS'],
    'std': ['EPIPE', 'EIO', 'ENOSPC'],
}


def op_class(entry):
    """Fault class of a trace entry (proc, nr, op, args...)"""
    op, args = entry[2], entry[3]
    if op == 'open':
        import os
        return 'open-write' if args[1] & (os.O_WRONLY | os.O_RDWR) else 'open-read'
    if op in ('write', 'close', 'fsync') and args and args[0] in (1, 2):
        return 'std'
    return op


def ops_of(trace, proc=0):
    return [e for e in trace if e[0] == proc and len(e) >= 4 and isinstance(e[1], int) and e[2] != 'exit']


# -- file systems of plans -------------------------------------------------------------------------


def enc(data):
    if isinstance(data, str):
        return {'text': data}
    try:
        text = data.decode('utf-8')
        if '\r' not in text and '\0' not in text:
            return {'text': text}
    except UnicodeDecodeError:
        pass
    return {'b64': base64.b64encode(data).decode()}


def content(entry, plan):
    if 'schema' in entry:
        return schema_bytes(plan['schemas'][entry['schema']])
    if 'text' in entry:
        return entry['text'].encode('utf-8')
    if 'b64' in entry:
        return base64.b64decode(entry['b64'])
    return None


def schema_bytes(spec):
    """Bytes of the schema file for a schema entry of a plan."""
    if 'raw' in spec:
        data = content(spec['raw'], None)
    else:
        indent = {0: 2, 1: None, 2: 4, 3: '\t'}[spec.get('style', 0)]
        text = json.dumps(spec['mapping'], indent=indent, ensure_ascii=spec.get('style', 0) == 2)
        text += {0: '\n', 1: '', 2: '\n', 3: '\n\n'}[spec.get('style', 0)]
        data = text.encode('utf-8')
    for mutation in spec.get('damage', ()):
        data = damage_bytes(data, mutation)
    return data


def damage_bytes(data, m):
    """Apply one storage damage; positions are fractions so that they survive minimisation of the content."""
    blob = bytearray(data)
    n = len(blob)
    at = min(n, int(m.get('at', 0) * n)) if isinstance(m.get('at', 0), float) else min(n, m.get('at', 0))
    kind = m['kind']
    if kind == 'cut':
        del blob[at:]
    elif kind == 'cut-end':
        del blob[max(0, n - m['n']):]
    elif kind == 'flip' and n:
        blob[min(at, n - 1)] ^= 1 << m['bit']
    elif kind == 'zero':
        end = min(n, at + m['n'])
        blob[at:end] = b'\0' * (end - at)
    elif kind == 'drop':
        del blob[at:at + m['n']]
    elif kind == 'dup':
        blob[at:at] = blob[at:at + m['n']]
    elif kind == 'insert':
        blob[at:at] = content(m, None)
    elif kind == 'append':
        blob.extend(content(m, None))
    elif kind == 'newlines':
        blob = blob.replace(b'\n', m['as'].encode())
    elif kind == 'indent':
        blob = blob.replace(b'    ', b'\t')
    return bytes(blob)


def random_damage(r):
    kind = r.choice(['cut', 'cut', 'cut', 'cut-end', 'flip', 'flip', 'zero', 'drop', 'dup', 'append', 'insert',
                     'newlines', 'indent'])
    m = {'kind': kind, 'at': round(r.random(), 4)}
    if kind == 'cut-end':
        m = {'kind': kind, 'n': r.choice([1, 2, 3, 5, 20])}
    elif kind == 'flip':
        m['bit'] = r.randrange(8)
    elif kind in ('zero', 'drop', 'dup'):
        m['n'] = r.choice([1, 2, 7, 64, 512])
    elif kind == 'newlines':
        m['as'] = r.choice(['\r\n', '\r\n', '\r', ' \n', ''])
    elif kind == 'append':
        m = dict(kind=kind, **enc(r.choice(['\n}', 'x', '{}', '\n', ' ', '\0\0\0', '\n\n  ,\n'])))
    elif kind == 'insert':
        m.update(enc(r.choice(['\n', '\0', '"', '}', '\u20ac', b'\xff\xfe'])))
    return m


def build_fs(plan, entries, capacity=None, fs=None):
    if fs is None:
        fs = VFS()
        for path in ('/sim/work', '/sim/home', '/sim/tmp'):
            fs.put(path)
    for path in sorted(entries):
        entry = entries[path]
        if 'link' in entry:
            fs.put(path, target=entry['link'])
        else:
            node = fs.put(path, content(entry, plan), mode=None)
            if 'mtime' in entry:
                node.mtime = entry['mtime']
    for path in sorted(entries, reverse=True):
        if 'mode' in entries[path]:
            fs.walk(path).mode = entries[path]['mode']
    if capacity is not None:
        fs.capacity = fs.used() + capacity
    fs.make_durable()
    return fs


# -- runs --------------------------------------------------------------------------------------------


class Outcome:
    def __init__(self, kernel, before, after):
        self.kernel = kernel
        self.procs = kernel.procs
        self.before = before
        self.after = after

    @property
    def proc(self):
        return self.procs[0]

    def brief(self, i=0):
        p = self.procs[i]
        text = 'exit={} {}'.format(p.exit, util.clip(p.detail or '', 200))
        err = bytes(p.out[2]).decode('utf-8', 'replace').strip()
        if err and not p.detail:
            text += ' stderr=' + util.clip(err, 200)
        return text


class HarnessProblem(Exception):
    pass


def execute(plan, step, fs, stats=None, body=mapry_body):
    """Run the processes of one step on ``fs``."""
    k = Kernel(fs, faults=step.get('faults', ()), switches=step.get('switches', ()),
               events=step.get('events', ()), dir_seed=step.get('dir_seed'))

    def on_event(event):
        if event['do'] == 'replace':
            # an editor writes a temporary file and renames it over the old one
            node = fs.put(event['path'] + '.new', content(event['content'], plan))
            node.mtime = fs.now_ns
            if 'mode' in event:
                node.mode = event['mode']
            fs.rename(event['path'] + '.new', event['path'])
        elif event['do'] == 'remove':
            try:
                fs.unlink(event['path'])
            except OSError:
                pass
        elif event['do'] == 'put':
            fs.put(event['path'], content(event['content'], plan))

    k.on_event = on_event
    before = fs.snapshot()
    for proc in step['procs']:
        k.spawn(proc, body(proc))
    k.run()
    for p in k.procs:
        if p.exit == 'harness':
            if 'sim.pygen.Unusable: ' in p.detail:
                raise NoCode(plan['schemas'][0], 'py', 'does-not-import', p.detail.partition('sim.pygen.Unusable: ')[2])
            raise HarnessProblem('simulated process needs an unmodelled feature: {}'.format(p.detail))
    out = Outcome(k, before, fs.snapshot())
    if stats is not None:
        stats.add('processes', len(k.procs))
        stats.add('operations', k.step)
        stats.faults(k.fired)
        stats.sim_ns += k.now_ns
    return out


_REF_CACHE = {}


def reference(data, target, stats=None, count_lines=False):
    """Undisturbed run on schema bytes in a fresh machine -> Outcome (files in /sim/work/out)"""
    key = (bytes(data), target, count_lines)
    hit = _REF_CACHE.get(key)
    if hit is None:
        if len(_REF_CACHE) > 400:
            _REF_CACHE.clear()
        fs = build_fs({}, {WORK + '/schema.json': enc(data)})
        step = {'procs': [{'argv': ['mapry', target, '--schema', 'schema.json', '--outdir', 'out'],
                           'count_lines': count_lines}]}
        hit = execute({}, step, fs, stats)
        _REF_CACHE[key] = hit
    return hit


def ref_files(ref, target):
    """File name -> bytes, or None if the reference did not succeed with all files."""
    if ref.proc.exit != 0:
        return None
    out = {}
    for name in FILES[target]:
        entry = ref.after.get(WORK + '/out/' + name)
        if entry is None or entry[0] != 'f':
            return None
        out[name] = entry[2]
    return out


def tree_files(snapshot, fs, outdir, target):
    """Content of the target's files as a reader of the directory sees them."""
    out = {}
    for name in FILES[target]:
        try:
            node = fs.walk(outdir + '/' + name)
        except OSError:
            continue
        if node.kind == 'f':
            out[name] = bytes(node.data)
    return out


def compare_files(want, got):
    """-> description of the first difference, or None"""
    for name in want:
        if name not in got:
            return '{} is missing'.format(name)
        if got[name] != want[name]:
            a, b = want[name], got[name]
            n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return '{} differs at byte {} ({} bytes instead of {}): {!r} instead of {!r}'.format(
                name, n, len(b), len(a), bytes(b[max(0, n - 20):n + 30]), bytes(a[max(0, n - 20):n + 30]))
    return None


# -- fault choice ---------------------------------------------------------------------------------------


def pick_faults(r, ops, kinds, n, proc=0, limit=None, bias=None):
    """Choose ``n`` faults on operations of an undisturbed trace."""
    faults = []
    pool = [e for e in ops if limit is None or e[1] <= limit]
    if not pool:
        return faults
    if bias is not None:
        heavy = [e for e in pool if bias(e)]
    else:
        heavy = []
    for _ in range(n):
        entry = r.choice(heavy) if heavy and r.random() < 0.6 else r.choice(pool)
        cls = op_class(entry)
        kind = r.choice(kinds)
        fault = {'proc': proc, 'op': entry[1], 'kind': kind}
        if kind == 'errno':
            fault['errno'] = r.choice(ERRORS.get(cls, ['EIO']))
            if cls == 'close':
                fault['lose'] = r.choice([0.0, 0.3, 0.9, 1.0])
        elif kind == 'eintr':
            if cls in ('close', 'stat', 'mkdir', 'rename', 'unlink', 'listdir', 'chmod'):
                continue
            fault['kind'] = 'errno'
            fault['errno'] = 'EINTR'
        elif kind == 'short':
            if cls not in ('read', 'write', 'std'):
                continue
            fault['part'] = r.choice([0.0, 0.1, 0.5, 0.9])
        elif kind == 'slow':
            fault['ns'] = r.choice([10**6, 10**9, 60 * 10**9, 86400 * 10**9])
        elif kind == 'persist':
            fault['class'] = r.choice(['space', 'fds', 'readonly', 'media'])
            fault['errno'] = {'space': r.choice(['ENOSPC', 'EDQUOT']), 'fds': 'EMFILE', 'readonly': 'EROFS',
                              'media': 'EIO'}[fault['class']]
        elif kind in ('kill', 'power'):
            if kind == 'power':
                fault['seed'] = r.getrandbits(32)
            if cls == 'write':
                fault['part'] = r.choice([None, 0.0, 0.2, 0.7, 1.0])
            else:
                fault['after'] = r.random() < 0.5
        faults.append(fault)
    return faults


def mutation_ops(entry):
    return op_class(entry) in ('open-write', 'write', 'close', 'mkdir', 'rename', 'fsync', 'unlink')


BENIGN = ('short-', 'EINTR@', 'slow', 'env:')


def harmful(kernel, proc=None):
    """Did any operation fail (other than in ways the runtime makes good)?"""
    return any(not kind.startswith(BENIGN) and not kind.startswith('power:') for kind in kernel.fired)


# -- initial states of an output directory ----------------------------------------------------------------


def stale_state(r, target, files, other_files, outdir):
    """Entries that earlier activity may have left in the output directory."""
    entries = {}
    style = r.choice(['absent', 'absent', 'empty', 'stale', 'stale', 'mixed', 'nested'])
    if style == 'absent':
        return style, entries
    entries[outdir] = {'dir': True}
    if style == 'empty':
        return style, entries
    for name in FILES[target]:
        if r.random() < 0.25:
            continue
        good = files[name]
        kind = r.choice(['same', 'other', 'prefix', 'longer', 'same-length', 'empty', 'garbage', 'reformatted'])
        if kind == 'same':
            data = good
        elif kind == 'other':
            data = other_files.get(name, b'old\n')
        elif kind == 'prefix':
            data = good[:int(len(good) * r.random())]
        elif kind == 'longer':
            data = good + b'// trailing line\n' * r.choice([1, 50])
        elif kind == 'same-length':
            data = good[:-2] + b'#\n'
        elif kind == 'empty':
            data = b''
        elif kind == 'reformatted':
            # what an editor or a version control system may have made of it
            data = r.choice([lambda: good.replace(b'\n', b'\r\n'), lambda: good.replace(b'\n', b'\r'),
                             lambda: good.rstrip(b'\n'), lambda: good + b'\n', lambda: b'\xef\xbb\xbf' + good,
                             lambda: good.replace(b'    ', b'\t'), lambda: good.upper()])()
        else:
            data = bytes(r.getrandbits(8) for _ in range(r.choice([1, 100])))
        entry = enc(data)
        if r.random() < 0.5:
            entry['mtime'] = 4 * 10**18
        entries[outdir + '/' + name] = entry
    return style, entries


# -- reductions ------------------------------------------------------------------------------------------


def consistent(mapping):
    """Do all types of the schema resolve? (Reductions only remove things, so the other rules stay kept.)"""
    known = set(schema_gen.PRIMS) | {'array', 'map'}
    for key in ('classes', 'embeds'):
        known.update(c['name'] for c in mapping.get(key, ()))

    def ok(a_type):
        return a_type.get('type') in known and ('values' not in a_type or ok(a_type['values']))

    holders = [mapping] + list(mapping.get('classes', ())) + list(mapping.get('embeds', ()))
    return all(ok(prop) for h in holders for prop in h.get('properties', {}).values())


def schema_reductions(mapping):
    """Smaller valid schemas."""
    return (m for m in _schema_reductions(mapping) if consistent(m))


def _schema_reductions(mapping):
    for key in ('classes', 'embeds'):
        if key in mapping:
            for i in range(len(mapping[key])):
                new = copy.deepcopy(mapping)
                del new[key][i]
                if not new[key]:
                    del new[key]
                yield new
    for key in ('cpp', 'go', 'py'):
        if key in mapping:
            new = copy.deepcopy(mapping)
            del new[key]
            yield new
    holders = [('graph', None)] + [(k, i) for k in ('classes', 'embeds') for i in range(len(mapping.get(k, ())))]
    for kind, i in holders:
        holder = mapping if kind == 'graph' else mapping[kind][i]
        for name in list(holder.get('properties', {})):
            new = copy.deepcopy(mapping)
            target = new if kind == 'graph' else new[kind][i]
            del target['properties'][name]
            if not target['properties']:
                del target['properties']
            yield new
        if kind == 'classes':
            for extra in ('plural', 'id_pattern'):
                if extra in holder:
                    new = copy.deepcopy(mapping)
                    del new[kind][i][extra]
                    yield new
        for name, prop in list(holder.get('properties', {}).items()):
            for extra in [k for k in prop if k not in ('type', 'description', 'values')]:
                new = copy.deepcopy(mapping)
                target = new if kind == 'graph' else new[kind][i]
                del target['properties'][name][extra]
                yield new
            if prop['type'] in ('array', 'map') and 'values' in prop:
                new = copy.deepcopy(mapping)
                target = (new if kind == 'graph' else new[kind][i])['properties']
                inner = dict(prop['values'])
                target[name] = dict(type=inner.pop('type'), description=prop['description'], **inner)
                yield new


def plan_targets(plan):
    """Targets that the processes of the plan generate."""
    steps = plan.get('steps') or [plan['step']]
    found = set()
    for step in steps:
        for proc in step.get('procs', ()):
            found.update(a for a in proc['argv'] if a in TARGETS)
            for argv in proc.get('before', ()):
                found.update(a for a in argv if a in TARGETS)
    return found


def plan_reductions(plan, step_key='step'):
    """Generic reductions of a plan with 'schemas', 'fs' and one or several steps."""
    steps = plan.get('steps')
    if steps:
        for i in range(len(steps) - 1):
            new = copy.deepcopy(plan)
            del new['steps'][i]
            yield new
    for where in range(len(steps) if steps else 1):
        def get(p):
            return p['steps'][where] if steps else p['step']
        step = get(plan)
        for key in ('faults', 'switches', 'events'):
            items = step.get(key) or []
            if len(items) > 1:
                new = copy.deepcopy(plan)
                get(new)[key] = []
                yield new
            for i in range(len(items)):
                new = copy.deepcopy(plan)
                del get(new)[key][i]
                yield new
        for i, proc in enumerate(step.get('procs', ())):
            for key in [k for k in proc if k not in ('argv', 'cwd')]:
                new = copy.deepcopy(plan)
                del get(new)['procs'][i][key]
                yield new
    for path in list(plan.get('fs', {})):
        if 'schema' in plan['fs'][path]:
            continue
        new = copy.deepcopy(plan)
        del new['fs'][path]
        yield new
        for key in ('mtime', 'mode'):
            if key in plan['fs'][path]:
                new = copy.deepcopy(plan)
                del new['fs'][path][key]
                yield new
    for i, spec in enumerate(plan.get('schemas', ())):
        for j in range(len(spec.get('damage', ()))):
            new = copy.deepcopy(plan)
            del new['schemas'][i]['damage'][j]
            yield new
        if 'mapping' in spec:
            for smaller in schema_reductions(spec['mapping']):
                if any(t in spec['mapping'] and t not in smaller for t in plan_targets(plan)):
                    continue
                new = copy.deepcopy(plan)
                new['schemas'][i]['mapping'] = smaller
                yield new
            if spec.get('style'):
                new = copy.deepcopy(plan)
                new['schemas'][i]['style'] = 0
                yield new
    for path, entry in list(plan.get('fs', {}).items()):
        if len(entry.get('text', '')) > 8 or len(entry.get('b64', '')) > 8:
            new = copy.deepcopy(plan)
            keep = {k: v for k, v in entry.items() if k not in ('text', 'b64')}
            new['fs'][path] = dict(keep, text='old\n')
            yield new


def new_schema(r, profile='wide', **kwargs):
    return {'mapping': schema_gen.schema(r, profile, **kwargs), 'style': r.randrange(4)}


def trace_digest(outcome):
    return util.digest([list(map(repr, e)) for e in outcome.kernel.trace])


# -- near copies of a schema -------------------------------------------------------------------------------


def _walk_types(mapping):
    """Yields every type mapping (properties and nested values) of a schema."""
    holders = [mapping] + list(mapping.get('classes', ())) + list(mapping.get('embeds', ()))
    for holder in holders:
        for prop in holder.get('properties', {}).values():
            while True:
                yield prop
                if 'values' not in prop:
                    break
                prop = prop['values']


def _rename(obj, old, new):
    """``obj`` with the composite ``old`` called ``new``."""
    if isinstance(obj, dict):
        return type(obj)((k, new if k in ('type', 'name') and v == old else _rename(v, old, new))
                         for k, v in obj.items())
    if isinstance(obj, list):
        return [_rename(v, old, new) for v in obj]
    return obj


def _edit_format(r, types, mapping):
    """Formats that differ in white space, case or punctuation only."""
    found = [t for t in types if t.get('format')]
    if found:
        t = r.choice(found)
        fmt = t['format']
        kind = r.choice(['space', 'space', 'double', 'tail', 'case', 'punct', 'order'])
        if kind == 'double':
            fmt = fmt.replace(' ', '  ') if ' ' in fmt else fmt.replace('%', ' %', 1)
        elif kind == 'space':
            at = r.choice([i for i in range(len(fmt)) if i == 0 or fmt[i - 1] != '%'])
            fmt = fmt[:at] + r.choice([' ', '  ']) + fmt[at:]
        elif kind == 'tail':
            fmt += r.choice([' ', '.', 'Z', ' x'])
        elif kind == 'case':
            for a, b in (('%Y', '%y'), ('%b', '%B'), ('T', 't'), ('Z', 'z')):
                if a in fmt and a not in ('T', 'Z'):
                    fmt = fmt.replace(a, b)
                    break
        elif kind == 'punct':
            fmt = fmt.replace(*r.choice([('-', '/'), (':', '.'), ('.', '-'), ('-', '')]))
        else:
            fmt = fmt.replace('%m', '%\0').replace('%d', '%m').replace('%\0', '%d')
        t['format'] = fmt


def _edit_bound(r, types, mapping):
    found = [t for t in types if any(k in t for k in ('minimum', 'maximum', 'minimum_size', 'maximum_size'))]
    if found:
        t = r.choice(found)
        key = r.choice([k for k in ('minimum', 'maximum', 'minimum_size', 'maximum_size') if k in t])
        kind = r.choice(['widen', 'drop', 'exclusive'])
        if kind == 'widen':
            t[key] = max(0, t[key] - 1) if key == 'minimum_size' else t[key] + (1 if 'max' in key else -1)
        elif kind == 'drop':
            del t[key]
            t.pop('exclusive_' + key, None)
        elif key in ('minimum', 'maximum') and not ('minimum' in t and 'maximum' in t):
            t['exclusive_' + key] = not t.get('exclusive_' + key, False)


def _edit_pattern(r, types, mapping):
    found = [t for t in types if 'pattern' in t]
    if found:
        t = r.choice(found)
        others = [p for p in sorted(schema_gen.PATTERNS) if p != t['pattern']]
        t['pattern'] = r.choice(others)


def _edit_class(r, types, mapping):
    if mapping.get('classes'):
        cls = r.choice(mapping['classes'])
        kind = r.choice(['id_pattern', 'plural', 'description'])
        if kind == 'id_pattern':
            pattern = r.choice(sorted(schema_gen.ID_PATTERNS, key=str))
            cls.pop('id_pattern', None)
            if pattern:
                cls['id_pattern'] = pattern
        elif kind == 'plural':
            cls['plural'] = cls['name'] + '_hoard' + str(r.randint(0, 9))
        else:
            cls['description'] = cls['description'][:-1] + ' again.'


def _edit_property(r, types, mapping):
    holders = [h for h in [mapping] + list(mapping.get('classes', ())) + list(mapping.get('embeds', ()))
               if h.get('properties')]
    if not holders:
        return
    holder = r.choice(holders)
    props = holder['properties']
    name = r.choice(sorted(props))
    prop = props[name]
    kind = r.choice(['optional', 'json', 'description', 'rename', 'order', 'type', 'type', 'drop', 'add'])
    if kind == 'optional':
        prop['optional'] = not prop.get('optional', False)
    elif kind == 'json':
        prop['json'] = name + r.choice(['-x', ' ', '_2'])
    elif kind == 'description':
        prop['description'] = prop['description'][:-1] + r.choice([' too.', '\n\nIt is new.'])
    elif kind == 'rename':
        holder['properties'] = type(props)((k + '_b' if k == name else k, v) for k, v in props.items())
    elif kind == 'order':
        items = list(props.items())
        r.shuffle(items)
        holder['properties'] = type(props)(items)
    elif kind == 'type':
        known = schema_gen.PRIMS + [c['name'] for c in mapping.get('classes', ())]
        new = {'type': r.choice(known), 'description': prop['description']}
        if 'optional' in prop:
            new['optional'] = prop['optional']
        props[name] = new
    elif kind == 'drop' and len(props) > 1:
        del props[name]
    elif kind == 'add':
        props['zz_%d' % r.randint(0, 9)] = dict(copy.deepcopy(prop), json='zz%d' % r.randint(0, 9))


def _edit_settings(r, types, mapping):
    fresh = new_schema(r, size=0)['mapping']
    for target in TARGETS:
        if target in mapping and r.random() < 0.6:
            mapping[target] = fresh[target]


def _edit_rename(r, types, mapping):
    names = [c['name'] for key in ('classes', 'embeds') for c in mapping.get(key, ())] + [mapping['name']]
    old = r.choice(names)
    renamed = _rename(mapping, old, old + r.choice(['_next', '_x2']))
    mapping.clear()
    mapping.update(renamed)


def _edit_order(r, types, mapping):
    key = r.choice(['classes', 'embeds'])
    if mapping.get(key):
        r.shuffle(mapping[key])


EDITS = [_edit_format, _edit_format, _edit_bound, _edit_pattern, _edit_class, _edit_property, _edit_property,
         _edit_settings, _edit_rename, _edit_order]


_OPTIONS = {'path_as': {'cpp': ['std::filesystem::path', 'boost::filesystem::path'], 'py': ['str', 'pathlib.Path']},
            'optional_as': {'cpp': ['boost::optional', 'std::optional', 'std::experimental::optional']},
            'datetime_library': {'cpp': ['ctime', 'date.h']}, 'timezone_as': {'py': ['str', 'pytz.timezone']}}


def contrast(r, mapping):
    """Two schemas that differ in every setting and have something of each type the settings affect."""
    first = copy.deepcopy(mapping)
    props = first.setdefault('properties', {})
    for kind, extra in (('path', {}), ('time_zone', {}), ('duration', {}), ('date', {'format': '%d.%m.%Y'}),
                        ('datetime', {'optional': True}), ('time', {'optional': True}),
                        ('array', {'values': {'type': 'path'}}), ('map', {'values': {'type': 'time_zone'}})):
        if r.random() < 0.7:
            name = 'zz_' + kind
            props.setdefault(name, dict({'type': kind, 'description': 'gives a thing.'}, **extra))
    second = copy.deepcopy(first)
    for target in TARGETS:
        settings = second.get(target)
        if settings is None:
            continue
        for key, options in _OPTIONS.items():
            if target in options:
                settings[key] = r.choice([v for v in options[target] if v != settings.get(key)])
        for key in ('namespace', 'package', 'module_name'):
            if key in settings:
                settings[key] += 'x'
        if target != 'go':
            settings['indention'] = '  ' if settings.get('indention') != '  ' else '      '
    return first, second


def sibling(r, mapping, edits=None):
    """A near copy of a schema; usually, not always, valid as well."""
    new = copy.deepcopy(mapping)
    for _ in range(edits or r.choice([1, 1, 2, 4])):
        r.choice(EDITS)(r, list(_walk_types(new)), new)
    return new
