"""
Random mapry schemas.

``wide``: everything the generators accept. ``run``: the subset whose meaning at run time is the same in all
languages, for checks that execute the generated code. ``go``: also the formats that only Go can read.
"""
import collections
import json

OD = collections.OrderedDict

NOUNS = ['person', 'team', 'wheel', 'engine', 'pilot', 'dock', 'lamp', 'river', 'stone', 'cable', 'frame', 'badge',
         'crate', 'garden', 'ladder', 'mirror', 'needle', 'orchard', 'parcel', 'quiver', 'ribbon', 'saddle', 'tunnel',
         'umbrella', 'valley', 'window', 'yard', 'zephyr', 'anchor', 'basket', 'candle', 'depot', 'ember', 'ferry']
ADJ = ['big', 'old', 'red', 'fast', 'main', 'next', 'left', 'warm', 'tall', 'late', 'bold', 'calm', 'dry', 'even']
IRREGULAR = ['criterion', 'matrix', 'life', 'focus', 'daisy', 'key', 'box', 'glass']

PATTERNS = {
    # pattern -> strings that match it
    r'^[a-z]+$': lambda r: ''.join(r.choice('abcxyz') for _ in range(r.randint(1, 6))),
    r'^[A-Z][a-z]*$': lambda r: r.choice('ABC') + ''.join(r.choice('abc') for _ in range(r.randint(0, 4))),
    r'^[a-z]{2,4}-[0-9]+$': lambda r: ''.join(r.choice('abc') for _ in range(r.randint(2, 4))) + '-' + str(r.randint(0, 999)),
    r'^(yes|no|maybe)$': lambda r: r.choice(['yes', 'no', 'maybe']),
    r'^[0-9a-f]{8}$': lambda r: '%08x' % r.getrandbits(32),
    r'^[^/]+\.txt$': lambda r: 'f%d.txt' % r.randint(0, 99),
    r'^/([a-z]+/)*[a-z]+$': lambda r: '/' + '/'.join(r.choice(['usr', 'var', 'x']) for _ in range(r.randint(1, 3))),
}
UNANCHORED = {
    r'[0-9]+%': lambda r: '%d%%' % r.randint(0, 100),
    r'[a-z]+': lambda r: ''.join(r.choice('abc') for _ in range(r.randint(1, 4))) + r.choice(['', '1', '!']),
    r'/tmp/[a-z]+': lambda r: '/tmp/' + r.choice(['a', 'abc', 'x/y']),
    r'(ab|cd)[0-9]*$': lambda r: r.choice(['ab', 'cd']) + r.choice(['', '7', '42']),
    r'\w+@\w+': lambda r: r.choice(['a@b', 'me@home', 'x_1@y.z']),
    r'a|^b': lambda r: r.choice(['a', 'b', 'ab']),
}
ALL_PATTERNS = dict(PATTERNS, **UNANCHORED)
ID_PATTERNS = {
    None: lambda r, i: r.choice(['id%d_%s' % (i, r.choice('abc'))] * 4 + ['', str(i), 'A b%d' % i]),
    r'^[a-z]+[0-9]+$': lambda r, i: r.choice(['p', 'qq', 'xyz']) + str(i),
    r'^[A-Z]{2}_[0-9]+$': lambda r, i: r.choice(['AB', 'ZZ']) + '_' + str(i),
    r'^[a-zA-Z_\-][a-zA-Z_0-9\-]*$': lambda r, i: r.choice(['a-', '_b', 'C']) + str(i),
    r'^[a-z]*$': lambda r, i: ['', 'a', 'ab', 'ba', 'zz'][i % 5] + r.choice(['', 'x'] if i else ['', '', 'x']),
}
DATE_FORMATS = [None, '%Y-%m-%d', '%d.%m.%Y', '%m/%d/%y', '%Y%m%d', '%d %b %Y', '%B %d, %Y']
TIME_FORMATS = [None, '%H:%M:%S', '%H:%M', '%H-%M-%S', '%I:%M:%S %p']
DATETIME_FORMATS = [None, '%Y-%m-%dT%H:%M:%SZ', '%Y-%m-%d %H:%M:%S', '%d.%m.%Y %H:%M:%S', '%d %b %Y %H:%M:%S',
                    '%Y-%m-%d %I:%M:%S %p']
WIDE_DATE = DATE_FORMATS + ['%A, %d %B %Y', '%a %e %b %y', '100%% %Y-%m-%d', '%Y-%m-%d %z', '%d.%m.%Y %Z']
WIDE_TIME = TIME_FORMATS + ['%l:%M %P', '%H:%M:%S %z', '%I %p %Z', '%%%H']
WIDE_DATETIME = DATETIME_FORMATS + ['%a %d.%m.%y %H:%M:%S %z', '%Y-%m-%dT%H:%M:%S%z', '%A %e %B %Y %l:%M:%S %P']
# text that has a meaning somewhere on the way into the generated code
ODD_DATE = ['{%Y}-%m-%d', '%Y %m %d {}', '"%Y" %m-%d', '%Y\\%m\\%d', '%d{{x}}%m %Y', '%Y ü %m %d', '%Y/*%m*/%d',
            '%Y `%m` %d', '%Y%m%d.[0-9]+$', '%Y %m %d %%s']
ODD_TIME = ['{%H}:%M', '"%H" %M', '%H\\%M\\%S', '%H{{x}}%M', '%H//%M', '%H%%d%M']
ODD_DATETIME = ['{%Y}-%m-%d "%H:%M:%S"', '%Y\\%m\\%d {%H} %M:%S', '%Y-%m-%d {} %H:%M:%S %%s']
PY_DATE = DATE_FORMATS + ['%A, %d %B %Y', '%a %d %b %y', '100%% %Y-%m-%d'] + ODD_DATE
PY_TIME = TIME_FORMATS + ['%%%H', '%I o\'clock %p'] + ODD_TIME
PY_DATETIME = DATETIME_FORMATS + ['%a %d.%m.%Y %H:%M:%S', '%b %d %H:%M:%S %Y', '%Y-%m-%dT%H:%M:%S%z'] + ODD_DATETIME
# what the directives mean in Go, and texts that Go's layouts could take for directives
GO_DATE = DATE_FORMATS + ['%A, %d %B %Y', '%a %e %b %y', '%Y%% %m-%d', '100%% %Y-%m-%d', 'Mon %d.%m.%Y',
                          '%Y-%m-%d %z', '%d.%m.%Y %Z'] + ODD_DATE
GO_TIME = TIME_FORMATS + ['%l:%M %P', '%%%H', '%I o\'clock %p', 'at %H:%M', '3 %H:%M:%S', '%H:%M:%S %z',
                          '%I %p %Z'] + ODD_TIME
GO_DATETIME = DATETIME_FORMATS + ['%a %d.%m.%Y %H:%M:%S', '%A %e %B %Y %l:%M:%S %P', '%b %d %H:%M:%S %Y',
                                  '%d.%m.%Y PM %H:%M:%S', '%a %d.%m.%y %H:%M:%S %z', '%Y-%m-%dT%H:%M:%S%z',
                                  '%Z %d %B %Y %H:%M:%S'] + ODD_DATETIME
# what both strptime of the C library and date.h take
CPP_DATE = DATE_FORMATS + ['%A, %d %B %Y', '%a %e %b %y', '100%% %Y-%m-%d', '%B %Y', '%d%%%m%%%Y', '%B',
                            '%A'] + ODD_DATE
CPP_TIME = TIME_FORMATS + ['%%%H', '%I o\'clock %p', 'at %H:%M', '%M'] + ODD_TIME
CPP_DATETIME = DATETIME_FORMATS + ['%a %d.%m.%Y %H:%M:%S', '%b %d %H:%M:%S %Y', '%d.%m.%Y PM %H:%M:%S'] + ODD_DATETIME

UNICODE_TEXT = ['Größe', 'naïve', 'длина', '長さ', 'ŵ', 'café', '€', '𝄞']
PRIMS = ['boolean', 'integer', 'float', 'string', 'path', 'date', 'time', 'datetime', 'time_zone', 'duration']


class Gen:
    def __init__(self, rng, profile='wide', targets=('cpp', 'go', 'py'), size=None, anchored=False):
        self.r = rng
        self.wide = profile == 'wide'
        self.formats = {'wide': (WIDE_DATE, WIDE_TIME, WIDE_DATETIME), 'go': (GO_DATE, GO_TIME, GO_DATETIME),
                        'cpp': (CPP_DATE, CPP_TIME, CPP_DATETIME), 'py': (PY_DATE, PY_TIME, PY_DATETIME)}.get(
            profile, (DATE_FORMATS, TIME_FORMATS, DATETIME_FORMATS))
        self.targets = targets
        # swarm: every schema uses a subset of the features
        self.size = size if size is not None else rng.choice([0, 1, 1, 2, 2, 3])
        kinds = [k for k in PRIMS if rng.random() < 0.7]
        self.prims = kinds or [rng.choice(PRIMS)]
        self.p_container = rng.choice([0.0, 0.2, 0.35, 0.5])
        self.p_ref = rng.choice([0.0, 0.2, 0.4])
        self.p_optional = rng.choice([0.0, 0.3, 0.6])
        self.p_constraint = rng.choice([0.0, 0.5, 0.9])
        self.patterns = sorted(PATTERNS if anchored else ALL_PATTERNS)
        self.least = 0
        if rng.random() < (0.3 if profile == 'wide' else 0.45):
            # a small schema about one or two kinds of values, mostly in containers
            self.size = min(self.size, 1)
            if not self.wide:
                self.least = rng.choice([0, 2, 4])
            self.prims = rng.sample(PRIMS, 1 if self.wide or rng.random() < 0.7 else 2)
            self.p_container = rng.choice([0.5, 0.8])
            self.p_ref = rng.choice([0.0, 0.0, 0.5])
            self.p_constraint = 0.9
        self.unicode = self.wide and rng.random() < 0.35
        self.upper = rng.random() < 0.3
        self.used = set()

    # -- names -----------------------------------------------------------------------------------

    def word(self, pool=NOUNS):
        r = self.r
        for _ in range(1000):
            parts = []
            if r.random() < 0.4:
                parts.append(r.choice(ADJ))
            parts.append(r.choice(pool))
            name = '_'.join(parts)
            if r.random() < 0.2:
                name += '_%d' % r.randint(1, 9) if r.random() < 0.5 else '_x%d' % r.randint(1, 9)
            if name.lower() not in self.used:
                self.used.add(name.lower())
                return name
        raise AssertionError('out of names')

    def prop_name(self):
        name = self.word()
        if self.upper and self.r.random() < 0.4:
            parts = name.split('_')
            i = self.r.randrange(len(parts))
            parts[i] = parts[i].upper() if self.r.random() < 0.5 else parts[i].capitalize()
            name = '_'.join(parts)
        return name

    def composite_name(self):
        pool = NOUNS + (IRREGULAR if self.wide else [])
        name = self.word(pool)
        parts = name.split('_')
        parts[0] = parts[0].capitalize()
        if self.upper and len(parts) > 1 and self.r.random() < 0.4:
            parts[-1] = parts[-1].upper()
        return '_'.join(parts)

    def text(self, start='describes'):
        words = [start, self.r.choice(['the', 'a', 'some']), self.r.choice(NOUNS)]
        if self.unicode and self.r.random() < 0.6:
            words.append(self.r.choice(UNICODE_TEXT))
        if self.r.random() < 0.3:
            words.append('of the ' + self.r.choice(ADJ) + ' ' + self.r.choice(NOUNS))
        if self.wide and self.r.random() < 0.08:
            words.append(' '.join(self.r.choice(NOUNS) for _ in range(self.r.choice([12, 20, 60]))))
        if self.wide and self.r.random() < 0.1:
            words.append(self.r.choice(['"quoted"', "it's", '<tag>', '(x & y)']))
        return ' '.join(words) + '.'

    # -- types -----------------------------------------------------------------------------------

    def prim(self, kind=None):
        r = self.r
        kind = kind or r.choice(self.prims)
        out = OD(type=kind)
        if kind in ('integer', 'float') and r.random() < self.p_constraint:
            lo = r.choice([-1000, -10, -1, 0, 0, 1, 5])
            hi = lo + r.choice([2, 3, 10, 1000])
            which = r.choice(['min', 'max', 'both', 'both'])
            if which != 'max':
                out['minimum'] = lo
                if r.random() < 0.5:
                    out['exclusive_minimum'] = r.random() < 0.8
            if which != 'min':
                out['maximum'] = hi
                if r.random() < 0.5:
                    out['exclusive_maximum'] = r.random() < 0.8
        if kind in ('string', 'path') and r.random() < self.p_constraint:
            out['pattern'] = r.choice(self.patterns)
        if kind in ('date', 'time', 'datetime'):
            fmt = r.choice(self.formats[('date', 'time', 'datetime').index(kind)])
            if fmt is not None:
                out['format'] = fmt
        return out

    def a_type(self, depth=0, embeds=()):
        r = self.r
        if depth < 3 and r.random() < self.p_container:
            if r.random() < 0.5:
                out = OD(type='array', values=self.a_type(depth + 1, embeds))
                if r.random() < self.p_constraint:
                    lo = r.choice([0, 1, 1, 2, 3])
                    if r.random() < 0.75:
                        out['minimum_size'] = lo
                    if r.random() < 0.75:
                        out['maximum_size'] = lo + r.choice([0, 0, 1, 2, 4])
                return out
            return OD(type='map', values=self.a_type(depth + 1, embeds))
        if r.random() < self.p_ref:
            pool = list(self.class_names) + list(embeds)
            if pool:
                return OD(type=r.choice(pool))
        return self.prim()

    def prop(self, embeds=()):
        a_type = self.a_type(0, embeds)
        out = OD(type=a_type.pop('type'), description=self.text('gives'))
        items = list(a_type.items())
        if self.wide:
            self.r.shuffle(items)
        for key, value in items:
            out[key] = value
        if self.r.random() < self.p_optional:
            out['optional'] = True
        elif self.wide and self.r.random() < 0.1:
            out['optional'] = False
        if self.r.random() < 0.15:
            out['json'] = self.r.choice(['x-', 'json_', 'the ']) + self.word()
        return out

    def props(self, embeds=(), lo=0, hi=5):
        out = OD()
        for _ in range(self.r.randint(lo, hi)):
            out[self.prop_name()] = self.prop(embeds)
        return out

    # -- whole schema ----------------------------------------------------------------------------

    def schema(self):
        r = self.r
        nclasses = [0, 1, 2, 4][self.size] if r.random() < 0.5 else r.randint(0, [1, 2, 3, 5][self.size])
        nembeds = r.randint(0, [1, 1, 2, 4][self.size])
        self.class_names = [self.composite_name() for _ in range(nclasses)]
        self.embed_names = [self.composite_name() for _ in range(nembeds)]
        if self.class_names and self.wide and r.random() < 0.2:
            pass
        graph = OD(name=self.composite_name(), description=self.text('defines'))
        settings = []
        if 'cpp' in self.targets:
            cpp = OD(namespace='::'.join(r.choice(NOUNS) for _ in range(r.randint(1, 2))),
                     path_as=r.choice(['std::filesystem::path', 'boost::filesystem::path']),
                     optional_as=r.choice(['boost::optional', 'std::optional', 'std::experimental::optional']),
                     datetime_library=r.choice(['ctime', 'date.h']))
            if r.random() < 0.3:
                cpp['indention'] = r.choice(['  ', '    ', '\t'])
            settings.append(('cpp', cpp))
        if 'go' in self.targets:
            settings.append(('go', OD(package=r.choice(NOUNS))))
        if 'py' in self.targets:
            py = OD(module_name='.'.join(['mapry_gen'] + [r.choice(NOUNS) for _ in range(r.randint(0, 1))]),
                    path_as=r.choice(['str', 'pathlib.Path']), timezone_as=r.choice(['str', 'pytz.timezone']))
            if r.random() < 0.3:
                py['indention'] = r.choice(['  ', '    ', '\t'])
            settings.append(('py', py))
        if self.wide:
            r.shuffle(settings)
        for key, value in settings:
            graph[key] = value
        classes = []
        for name in self.class_names:
            cls = OD(name=name, description=self.text('defines'))
            if r.random() < 0.2:
                cls['plural'] = self.composite_name() + '_set'
            pattern = r.choice(sorted(ID_PATTERNS, key=str))
            if pattern is not None:
                cls['id_pattern'] = pattern
            props = self.props(self.embed_names, 0, [1, 2, 3, 6][self.size])
            if props or r.random() < 0.5:
                cls['properties'] = props
            classes.append(cls)
        embeds = []
        for i, name in enumerate(self.embed_names):
            embed = OD(name=name, description=self.text('defines'))
            props = self.props(self.embed_names[i + 1:], 0, [1, 2, 3, 5][self.size])
            if props or r.random() < 0.5:
                embed['properties'] = props
            embeds.append(embed)
        if classes or r.random() < 0.2:
            graph['classes'] = classes
        if embeds or r.random() < 0.2:
            graph['embeds'] = embeds
        props = self.props(self.embed_names, max(self.least, 1 if not classes else 0),
                           max([2, 3, 5, 8][self.size], self.least + 2 if self.least else 0))
        if props or r.random() < 0.5:
            graph['properties'] = props
        if not classes and not self.least and sum(map(ord, graph['name'])) % 13 == 0:
            # a graph of nothing
            graph.pop('properties', None)
        if self.wide:
            tail = [k for k in graph if k not in ('name', 'description')]
            r.shuffle(tail)
            graph = OD([(k, graph[k]) for k in ['name', 'description'] + tail])
        return graph


def schema(rng, profile='wide', **kwargs):
    return Gen(rng, profile, **kwargs).schema()


def dumps(mapping, rng=None):
    """JSON text of a schema in one of the usual layouts."""
    style = 0 if rng is None else rng.randrange(4)
    if style == 0:
        return json.dumps(mapping, indent=2, ensure_ascii=False) + '\n'
    if style == 1:
        return json.dumps(mapping, ensure_ascii=False)
    if style == 2:
        return json.dumps(mapping, indent=4, ensure_ascii=True) + '\n'
    return json.dumps(mapping, indent='\t', ensure_ascii=False) + '\n\n'
