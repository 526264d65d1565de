"""Random documents of a schema, and damages of documents."""
import copy
import datetime
import json

from sim.schema_gen import ALL_PATTERNS, ID_PATTERNS

ZONES = ['UTC', 'Europe/Zurich', 'America/New_York', 'Asia/Kolkata', 'Etc/GMT+5']
TEXTS = ['', 'a', 'hello', 'some text', 'Größe', '長さ', 'quote " and \\', "it's", 'line\nbreak', 'tab\t', '/', 'null',
         '<b>&amp;', '\u2028', '𝄞', 'x' * 300]
DURATIONS = ['P1D', 'PT1H', 'PT1H1M1S', 'P1Y', 'P2M', 'P3W', 'P1DT2H3M4.000005S', '-P1D', '+PT5S', 'PT0.000001S',
             'P1.5D', 'P1Y2M3W4DT5H6M7.5S', 'PT', 'P', 'P0D', 'PT90M', '-PT0.5S', 'P365D', 'PT1.5H']


def write_when(when, form):
    """As documented for the directives of mapry; not every one is portable."""
    hour = str(when.hour % 12 or 12)
    for directive, text in (('%l', hour), ('%e', '%2d' % when.day), ('%P', when.strftime('%p').lower())):
        form = form.replace(directive, text)
    return when.strftime(form)


CONSTRAINTS = {'pattern', 'minimum', 'maximum', 'minimum_size', 'maximum_size', 'format'}


class Docs:
    def __init__(self, r, model, max_instances=3):
        self.r = r
        self.m = model
        self.max = max_instances
        self.nulls = True
        self.p_absent = 0.45

    def doc(self):
        r = self.r
        self.ids = {}
        for name, cls in self.m.classes.items():
            make = ID_PATTERNS.get(cls.get('id_pattern'), ID_PATTERNS[None])
            n = r.choice([0, 1, 1, 2, self.max])
            self.ids[name] = list(dict.fromkeys(make(r, i) for i in range(n)))
        # a required reference or array of references needs an instance
        for name in self._needed():
            if not self.ids[name]:
                make = ID_PATTERNS.get(self.m.classes[name].get('id_pattern'), ID_PATTERNS[None])
                self.ids[name] = [make(r, 0)]
        out = {}
        parts = [('registry', name) for name in self.m.classes] + [('graph', None)]
        if r.random() < 0.3:
            r.shuffle(parts)
        for kind, name in parts:
            if kind == 'graph':
                out.update(self.holder(self.m.mapping))
            else:
                cls = self.m.classes[name]
                if self.ids[name] or r.random() < 0.5:
                    out[cls['registry']] = {i: self.holder(cls) for i in self.ids[name]}
        return out

    def _needed(self):
        found = set()

        def scan(a_type):
            kind = a_type['type']
            if kind in ('array', 'map'):
                scan(a_type['values'])
            elif kind in self.m.classes:
                found.add(kind)

        for definition in [self.m.mapping] + list(self.m.classes.values()) + list(self.m.embeds.values()):
            for prop in definition.get('properties', {}).values():
                scan(prop)
        return sorted(found)

    def holder(self, definition):
        r = self.r
        items = []
        for name, prop in definition.get('properties', {}).items():
            if prop.get('optional') and r.random() < self.p_absent:
                if self.nulls and r.random() < 0.1:
                    items.append((prop.get('json', name), None))
                continue
            items.append((prop.get('json', name), self.value(prop)))
        if r.random() < 0.2:
            r.shuffle(items)
        return dict(items)

    def value(self, t, depth=0):
        r = self.r
        kind = t['type']
        if kind == 'boolean':
            return r.random() < 0.5
        if kind in ('integer', 'float'):
            return self.number(t)
        if kind in ('string', 'path'):
            if 'pattern' in t:
                return ALL_PATTERNS[t['pattern']](r)
            if kind == 'path':
                return r.choice(['/usr/bin', 'a/b.txt', '.', 'rel', '/', 'a//b', 'x/../y', 'with space', 'ü'])
            return r.choice(TEXTS)
        if kind in ('date', 'time', 'datetime'):
            from sim.model import FORMATS
            when = datetime.datetime(r.choice([1970, 1999, 2000, 2019, 2024, 2037]), r.randint(1, 12), r.randint(1, 28),
                                     r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
            if r.random() < 0.1:
                when = when.replace(month=2, day=29, year=2024)
            form = t.get('format', FORMATS[kind])
            if '%z' in form:
                form = form.replace('%z', r.choice(['+0000', '+0100', '-0530', '+1245']))
            if '%Z' in form:
                form = form.replace('%Z', r.choice(['UTC', 'CET', 'EST', 'AEDT']))
            return write_when(when, form)
        if kind == 'time_zone':
            return r.choice(ZONES)
        if kind == 'duration':
            return r.choice(DURATIONS)
        if kind == 'array':
            lo = t.get('minimum_size', 0)
            hi = t.get('maximum_size', lo + 3)
            n = r.choice([lo, hi, r.randint(lo, hi)])
            if depth > 1:
                n = max(lo, min(n, 2))
            return [self.value(t['values'], depth + 1) for _ in range(n)]
        if kind == 'map':
            keys = r.sample(['k', 'key two', 'K3', 'ü', "q'", 'x/y', ''], r.choice([0, 1, 2, 3]))
            return {k: self.value(t['values'], depth + 1) for k in keys}
        if kind in self.m.embeds:
            return self.holder(self.m.embeds[kind])
        return r.choice(self.ids[kind])

    def number(self, t):
        r = self.r
        lo, hi = t.get('minimum'), t.get('maximum')
        step = 1 if t['type'] == 'integer' else r.choice([1, 0.5, 0.001])
        if lo is None and hi is None:
            if t['type'] == 'integer':
                return r.choice([0, 1, -1, 7, 1000, -2**31, 2**31, 2**53 - 1, -2**62, r.randint(-99, 99)])
            return r.choice([0.0, -0.0, 1, 1.5, -2.25, 1e10, 1e-7, 3.141592653589793, 1e300, 5e-324, -7])
        picks = []
        if lo is not None:
            picks += [lo + step] + ([] if t.get('exclusive_minimum') else [lo])
        if hi is not None:
            picks += [hi - step] + ([] if t.get('exclusive_maximum') else [hi])
        if lo is not None and hi is not None:
            picks.append(lo + (hi - lo) // 2 if t['type'] == 'integer' else lo + (hi - lo) / 2)
        return r.choice(picks)


    # -- damages that know the schema ------------------------------------------------------------

    def places(self, doc):
        """(path, type) of the values in a valid document; the type of an object is its definition."""
        out = []

        def visit(value, t, path):
            kind = t.get('type')
            out.append((path, t))
            if kind == 'array' and isinstance(value, list):
                for i, item in enumerate(value):
                    visit(item, t['values'], path + (i,))
            elif kind == 'map' and isinstance(value, dict):
                for key, item in value.items():
                    visit(item, t['values'], path + (key,))
            elif kind in self.m.embeds:
                holder(value, self.m.embeds[kind], path)

        def holder(value, definition, path):
            if not isinstance(value, dict):
                return
            out.append((path, definition))
            for name, prop in definition.get('properties', {}).items():
                key = prop.get('json', name)
                if value.get(key) is not None:
                    visit(value[key], prop, path + (key,))

        if isinstance(doc, dict):
            holder(doc, self.m.mapping, ())
            for cls in self.m.classes.values():
                registry = doc.get(cls['registry'])
                if isinstance(registry, dict):
                    out.append(((cls['registry'],), {'instances of': cls}))
                    for key, value in registry.items():
                        holder(value, cls, (cls['registry'], key))
        return out

    def damage(self, doc):
        """A damage at, or just beside, what the schema demands of one value; or of any kind."""
        r = self.r
        places = self.places(doc)
        if not places or r.random() < 0.5:
            return random_mutation(r, doc)
        constrained = [place for place in places if CONSTRAINTS & set(place[1])]
        path, t = r.choice(constrained if constrained and r.random() < 0.4 else places)
        kind = t.get('type')
        where = list(path)
        if 'instances of' in t:
            ids = list(get(doc, path))
            others = [i for ids in self.ids.values() for i in ids] + ['', 'x', 'A', '0']
            if ids and r.random() < 0.7:
                return ['rename', where + [r.choice(ids)], r.choice(others + [ids[0] + '/', ' ' + ids[0]])]
            return ['set', where, r.choice([{r.choice(others): self.holder(t['instances of'])}, {}])]
        if kind is None:
            keys = [p.get('json', name) for name, p in t.get('properties', {}).items()]
            value = get(doc, path)
            keys = [k for k in keys if k in value]
            if not keys:
                return random_mutation(r, doc)
            key = r.choice(keys)
            return r.choice([['delete', where + [key]], ['set', where + [key], None],
                             ['rename', where + [key], r.choice([key + 'x', key.upper(), key.lower(), key.title()])]])
        if not path:
            return random_mutation(r, doc)
        value = get(doc, path)
        if kind in self.m.classes or kind in ('date', 'time', 'datetime'):
            if not isinstance(value, str):
                return random_mutation(r, doc)
        if kind == 'array' and isinstance(value, list):
            lo, hi = t.get('minimum_size', 0), t.get('maximum_size')
            sizes = [lo, lo - 1, lo - 1, lo + 1, 0] + ([hi, hi + 1, hi + 1, hi + 1, hi + 2] if hi is not None else [])
            n = max(0, r.choice(sizes))
            return ['set', where, value[:n] + [self.value(t['values'], 1) for _ in range(n - len(value))]]
        if kind == 'map' and isinstance(value, dict):
            new = dict(value)
            new[r.choice(['', 'k', 'id', 'new'])] = self.value(t['values'], 1)
            return ['set', where, new]
        if kind in ('integer', 'float'):
            edges = [t[k] for k in ('minimum', 'maximum') if k in t] or [0]
            step = r.choice([0, 1, -1] if kind == 'integer' else [0, 1, -1, 0.5, -0.5, 1e-9, -1e-9])
            return ['set', where, r.choice(edges) + step]
        if kind in ('string', 'path') and 'pattern' in t:
            return ['set', where, ALL_PATTERNS[r.choice(sorted(ALL_PATTERNS))](r)]
        if kind in self.m.classes:
            every = [i for ids in self.ids.values() for i in ids]
            return ['set', where, r.choice(every + ['', value + 'x', value[:-1]])]
        if self.m.target == 'cpp' and kind in ('date', 'time', 'datetime', 'duration') and isinstance(value, str) and \
                r.random() < 0.4:
            # what libraries written in C stumble over
            if kind != 'duration':
                return ['set', where, value + '\0' + r.choice(['', 'x', value])]
            digits = [k for k, c in enumerate(value) if c.isdigit()] or [0]
            k = r.choice(digits)
            return ['set', where, value[:k] + r.choice(['0' * 30, '9' * 18, '9' * 400, '0' * 400]) + value[k:]]
        if kind in ('date', 'time', 'datetime'):
            other = r.choice(['date', 'time', 'datetime'])
            return ['set', where, self.value({'type': other})]
        return ['set', where, tweak(r, value)]


def paths(doc, base=()):
    """Every path below the root."""
    out = []
    items = doc.items() if isinstance(doc, dict) else enumerate(doc) if isinstance(doc, list) else ()
    for key, value in items:
        out.append(base + (key,))
        out.extend(paths(value, base + (key,)))
    return out


def get(doc, path):
    for key in path:
        doc = doc[key]
    return doc


def put(doc, path, value):
    get(doc, path[:-1])[path[-1]] = value


RETYPES = [None, True, False, 0, -1, 1.5, 10**30, 1e308, '', 'x', [], {}, [None], {'a': None}, 'true', '1', [[]],
           {'id': 'x'}]


def random_mutation(r, doc):
    """One damage of a stored value, as a list that survives in a plan."""
    every = paths(doc)
    if not every:
        return ['root', r.choice(RETYPES)]
    path = r.choice(every)
    value = get(doc, path)
    kinds = ['delete', 'null', 'retype', 'retype', 'swap', 'copy', 'tweak', 'tweak', 'tweak', 'tweak', 'rename', 'add',
             'tweak', 'tweak']
    kind = r.choice(kinds)
    where = list(path)
    if kind == 'delete':
        return ['delete', where]
    if kind == 'null':
        return ['set', where, None]
    if kind == 'retype':
        return ['set', where, copy.deepcopy(r.choice(RETYPES))]
    if kind in ('swap', 'copy'):
        return [kind, where, list(r.choice(every))]
    if kind == 'rename':
        if isinstance(path[-1], str):
            other = r.choice([p[-1] for p in every if isinstance(p[-1], str)] + [path[-1] + 'x', path[-1].upper(), '',
                                                                                  path[-1] + '\n', path[-1][:-1]])
            return ['rename', where, other]
        return ['set', where, None]
    if kind == 'add':
        return ['add', where, r.choice(['extra', 'id', 'name']), copy.deepcopy(r.choice(RETYPES))]
    return ['set', where, tweak(r, value)]


def tweak(r, value):
    if isinstance(value, bool):
        return r.choice([not value, int(value), str(value).lower()])
    if isinstance(value, int):
        return r.choice([value + 1, value - 1, -value, value * 10, float(value), float(value) + 0.5, value + 2, 2**63,
                         -2**63 - 1, 10**20, value - 10, str(value)])
    if isinstance(value, float):
        return r.choice([value + 1, value - 1, value + 0.001, value - 0.001, -value, float('inf'), float('nan'),
                         value * 2, int(value) if abs(value) < 1e15 else 3, str(value)])
    if isinstance(value, str):
        if not value:
            return r.choice(['x', ' ', '\n', '\0'])
        i = r.randrange(len(value))
        digit = [k for k, c in enumerate(value) if c.isdigit()]
        picks = [value + '\n', '/etc' + value, value[:i] + value[i + 1:], value[:i] + value[i] + value[i:], value.upper(), value.lower(),
                 value + 'x', 'x' + value, ' ' + value, value[:i] + r.choice('0aZ.:-/ \0é') + value[i + 1:], value[:i],
                 value[::-1]]
        if digit:
            k = r.choice(digit)
            picks += [value[:k] + r.choice('0123456789') + value[k + 1:]] * 4
            picks += [value[:k] + '0' + value[k:], value[:k] + '9' * 20 + value[k:]]
            if len(digit) > 5:
                picks += [value[:digit[-1] + 1] + '.5' + value[digit[-1] + 1:]]
        return r.choice(picks)
    if isinstance(value, list):
        if value:
            k = r.randrange(len(value))
            return r.choice([value + [copy.deepcopy(value[k])], value[:k] + value[k + 1:], value[::-1], value * 3, [],
                             value + [None], {str(i): v for i, v in enumerate(value)}])
        return r.choice([[None], [0], [''], [{}], [True]])
    if isinstance(value, dict):
        if value:
            k = r.choice(sorted(value))
            return r.choice([{x: v for x, v in value.items() if x != k}, dict(value, **{k + 'x': value[k]}), {},
                             list(value.values()), dict(value, **{k: None})])
        return {'k': None}
    return r.choice([0, '', False, []])


def mutate(doc, m):
    """Apply one damage; a damage whose place is gone does nothing."""
    try:
        kind = m[0]
        if kind == 'root':
            return copy.deepcopy(m[1])
        doc = json.loads(json.dumps(doc))  # (no shared parts)
        path = tuple(m[1])
        if kind == 'delete':
            parent = get(doc, path[:-1])
            del parent[path[-1]]
        elif kind == 'set':
            get(doc, path)
            put(doc, path, copy.deepcopy(m[2]))
        elif kind == 'swap':
            other = tuple(m[2])
            if path[:len(other)] != other and other[:len(path)] != path:
                a, b = get(doc, path), get(doc, other)
                put(doc, path, b)
                put(doc, other, a)
        elif kind == 'copy':
            other = tuple(m[2])
            put(doc, path, copy.deepcopy(get(doc, other)))
        elif kind == 'rename':
            parent = get(doc, path[:-1])
            items = [(m[2] if k == path[-1] else k, v) for k, v in parent.items()]
            if path[:-1]:
                put(doc, path[:-1], dict(items))
            else:
                doc = dict(items)
        elif kind == 'add':
            parent = get(doc, path[:-1])
            if isinstance(parent, dict):
                parent.setdefault(m[2], copy.deepcopy(m[3]))
            elif isinstance(parent, list):
                parent.append(copy.deepcopy(m[3]))
    except (KeyError, IndexError, TypeError, AttributeError):
        pass
    return doc
