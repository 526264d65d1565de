"""
Reference model of the documents of a schema: what is valid, and what a valid document says.

Written from the documentation (docs/source/schema.rst), not from the generators. The one thing taken from mapry is
the default plural of a class name.
"""
import datetime
import math
import pathlib
import re
from fractions import Fraction

FORMATS = {'date': '%Y-%m-%d', 'time': '%H:%M:%S', 'datetime': '%Y-%m-%dT%H:%M:%SZ'}
UNITS = [('Y', Fraction(3652425, 10000)), ('M', Fraction(30436875, 1000000)), ('W', Fraction(7)), ('D', Fraction(1))]
_DURATION = re.compile(
    r'([+-])?P(?:([0-9.]+)Y)?(?:([0-9.]+)M)?(?:([0-9.]+)W)?(?:([0-9.]+)D)?'
    r'(T(?:([0-9.]+)H)?(?:([0-9.]+)M)?(?:([0-9]+)(?:\.([0-9]+))?S)?)?')
_NUMBER = re.compile(r'(0|[1-9][0-9]*)(\.[0-9]+)?')


class Absent:
    """Marks an absent optional value in canonical documents."""


class Violation:
    __slots__ = ('path', 'what', 'finding')

    def __init__(self, path, what, finding=None):
        self.path, self.what, self.finding = path, what, finding

    def __repr__(self):
        return '{}: {}'.format('/'.join(map(str, self.path)) or '.', self.what)


def duration(text):
    """-> exact Fraction of seconds, or None"""
    if text.endswith('\n'):
        return None
    m = _DURATION.fullmatch(text)
    if not m:
        return None
    total = Fraction(0)
    for (_, days), part in zip(UNITS, m.groups()[1:5]):
        if part is not None:
            if not _NUMBER.fullmatch(part):
                return None
            total += Fraction(part) * days * 86400
    for size, part in zip((3600, 60), m.groups()[6:8]):
        if part is not None:
            if not _NUMBER.fullmatch(part):
                return None
            total += Fraction(part) * size
    seconds, fraction = m.group(9), m.group(10)
    if seconds is not None:
        if len(seconds) > 1 and seconds[0] == '0':
            return None
        total += Fraction(seconds + ('.' + fraction if fraction else ''))
    return -total if m.group(1) == '-' else total


class Model:
    def __init__(self, mapping, target='py'):
        import mapry.naming
        self.mapping = mapping
        self.target = target
        self.settings = mapping.get(target, {})
        self.classes = {}
        for cls in mapping.get('classes', ()):
            plural = cls.get('plural') or mapry.naming.plural(cls['name'])
            self.classes[cls['name']] = dict(cls, registry=plural.lower())
        self.embeds = {e['name']: e for e in mapping.get('embeds', ())}

    # -- validation ------------------------------------------------------------------------------

    def read(self, doc):
        """-> (violations, canonical content or None)"""
        self.bad = []
        self.used = set()
        self.early = set()  # places with a year below 1000
        if not isinstance(doc, dict):
            self.fail((), 'not an object')
            return self.bad, None
        self.registries = {}
        out = {'registries': {}}
        for name, cls in self.classes.items():
            key = cls['registry']
            if key not in doc:
                self.registries[name] = {}
                continue
            registry = doc[key]
            if registry is None:
                self.used.add('null-registry')
            if not isinstance(registry, dict):
                self.fail((key,), 'registry is not an object')
                self.registries[name] = {}
                continue
            self.registries[name] = registry
            pattern = cls.get('id_pattern')
            for instance_id in registry:
                if pattern is not None and not self.matches(pattern, instance_id):
                    self.fail((key,), 'id {!r} does not match'.format(instance_id))
        for name, cls in self.classes.items():
            key = cls['registry']
            out['registries'][key] = {
                i: self.holder(value, cls, (key, i)) for i, value in self.registries[name].items()}
        out['graph'] = self.holder(doc, self.mapping, ())
        return self.bad, None if self.bad else out

    def fail(self, path, what, finding=None):
        self.bad.append(Violation(path, what, finding))

    def matches(self, pattern, text):
        return re.match(pattern, text) is not None

    def holder(self, value, definition, path):
        if not isinstance(value, dict):
            self.fail(path, 'not an object')
            return None
        out = {}
        for name, prop in definition.get('properties', {}).items():
            key = prop.get('json', name)
            item = value.get(key)
            if item is None:
                if not prop.get('optional', False):
                    self.fail(path, 'missing ' + key)
                out[key] = None
                continue
            out[key] = self.value(item, prop, path + (key,))
        return out

    def value(self, value, a_type, path):
        kind = a_type['type']
        handler = getattr(self, 'check_' + kind, None)
        if handler is not None:
            return handler(value, a_type, path)
        if kind in self.embeds:
            return self.holder(value, self.embeds[kind], path)
        if not isinstance(value, str):
            self.fail(path, 'reference is not a string')
            return None
        if value not in self.registries[kind]:
            self.fail(path, 'dangling reference {!r}'.format(value))
        return value

    def check_boolean(self, value, a_type, path):
        if not isinstance(value, bool):
            self.fail(path, 'not a boolean')
        return ('bool', value)

    def _bounds(self, value, a_type, path):
        low, high = a_type.get('minimum'), a_type.get('maximum')
        if low is not None and not (value > low if a_type.get('exclusive_minimum') else value >= low):
            self.fail(path, 'too small')
        if high is not None and not (value < high if a_type.get('exclusive_maximum') else value <= high):
            self.fail(path, 'too big')

    def check_integer(self, value, a_type, path):
        if not isinstance(value, int) or isinstance(value, bool):
            self.fail(path, 'not an integer', 'py-bool-as-number' if isinstance(value, bool) else None)
            return None
        self._bounds(value, a_type, path)
        return value

    def check_float(self, value, a_type, path):
        if not isinstance(value, (int, float)) or isinstance(value, bool):
            self.fail(path, 'not a number', 'py-bool-as-number' if isinstance(value, bool) else None)
            return None
        try:
            value = float(value)
        except OverflowError:
            self.used.add('huge-number')
            self.fail(path, 'not representable')
            return None
        self._bounds(value, a_type, path)
        return value

    def check_string(self, value, a_type, path):
        if not isinstance(value, str):
            self.fail(path, 'not a string')
        elif 'pattern' in a_type and not self.matches(a_type['pattern'], value):
            self.fail(path, 'does not match')
        return value

    def check_path(self, value, a_type, path):
        self.check_string(value, a_type, path)
        if isinstance(value, str) and self.settings.get('path_as') == 'pathlib.Path':
            return str(pathlib.PurePosixPath(value))
        return value

    def _when(self, value, a_type, path):
        if not isinstance(value, str):
            self.fail(path, 'not a string')
            return None
        try:
            when = datetime.datetime.strptime(value, a_type.get('format', FORMATS[a_type['type']]))
        except ValueError:
            self.fail(path, 'not in the format')
            return None
        if '%Y' in a_type.get('format', FORMATS[a_type['type']]) and when.year < 1000:
            self.used.add('year-below-1000')
            self.early.add(path)
        return when

    def check_date(self, value, a_type, path):
        when = self._when(value, a_type, path)
        return when and when.date().isoformat()

    def check_time(self, value, a_type, path):
        when = self._when(value, a_type, path)
        return when and when.time().isoformat()

    def check_datetime(self, value, a_type, path):
        when = self._when(value, a_type, path)
        return when and when.isoformat()

    def check_time_zone(self, value, a_type, path):
        if not isinstance(value, str):
            self.fail(path, 'not a string')
            return None
        if self.settings.get('timezone_as') == 'pytz.timezone':
            import pytz
            try:
                return pytz.timezone(value).zone
            except pytz.UnknownTimeZoneError:
                self.fail(path, 'not a time zone')
                return None
        return value

    def check_duration(self, value, a_type, path):
        if not isinstance(value, str):
            self.fail(path, 'not a string')
            return None
        length = duration(value)
        if length is None:
            newline = value.endswith('\n') and duration(value[:-1]) is not None
            self.fail(path, 'not a duration', 'py-duration-newline' if newline else None)
            return None
        digits = re.search(r'\.([0-9]+)S', value)
        if digits and len(digits.group(1)) > 6:
            self.fail(path, 'too precise')
            return None
        limit = Fraction(999999999) * 86400
        if abs(length) > limit:
            if abs(length) <= limit + 2 * 86400:
                self.used.add('boundary')
            self.fail(path, 'out of range')
            return None
        return ('duration', length)

    def check_array(self, value, a_type, path):
        if not isinstance(value, list):
            self.fail(path, 'not an array')
            return None
        if len(value) < a_type.get('minimum_size', 0):
            self.fail(path, 'too short')
        if 'maximum_size' in a_type and len(value) > a_type['maximum_size']:
            self.fail(path, 'too long')
        return [self.value(item, a_type['values'], path + (i,)) for i, item in enumerate(value)]

    def check_map(self, value, a_type, path):
        if not isinstance(value, dict):
            self.fail(path, 'not an object')
            return None
        return {key: self.value(item, a_type['values'], path + (key,)) for key, item in value.items()}


def same(a, b):
    """Do two canonical contents agree?"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a and a[0] == 'duration' and b and b[0] == 'duration':
            # years, months and fractions go through floating point
            tolerance = max([Fraction(2, 10**6)] if len(a) < 3 else [a[2], b[2]])
            return abs(a[1] - b[1]) <= max(tolerance, abs(a[1]) / 2**48)
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b
    return a == b


def difference(a, b, path='', skip=()):
    """First difference of two canonical contents, apart from the places (paths of the document) in ``skip``."""
    return _difference(a, b, path, skip, ())


def _difference(a, b, path, skip, place):
    if place and place[0] in ('registries', 'graph') and place[1:] in skip or same(a, b):
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for key in list(a) + [k for k in b if k not in a]:
            if key not in a or key not in b:
                return '{}/{}: {!r} instead of {!r}'.format(path, key, b.get(key, 'nothing'), a.get(key, 'nothing'))
            found = _difference(a[key], b[key], '{}/{}'.format(path, key), skip, place + (key,))
            if found:
                return found
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            found = _difference(x, y, '{}/{}'.format(path, i), skip, place + (i,))
            if found:
                return found
        return None
    return '{}: {!r} instead of {!r}'.format(path, b, a)


def refs_of(doc, base=''):
    """Every reference an error may be located at."""
    out = {base}
    if isinstance(doc, dict):
        for key, value in doc.items():
            for name in (key, repr(key)):
                out |= refs_of(value, base + '/' + name)
    elif isinstance(doc, list):
        for i, value in enumerate(doc):
            out |= refs_of(value, base + '/' + str(i))
    return out
