"""Reference model of documents as read by generated C++ code: the documented rules on top of the C++ libraries."""
from fractions import Fraction

from sim.cppgen import kit
from sim.docs import ZONES
from sim.model import FORMATS, Model, duration

KNOWN_ZONES = set(ZONES) | {'GMT', 'Europe/Berlin'}
LIMIT = Fraction(2**63, 10**9)


class CppModel(Model):
    """
    Where the generated C++ code is known to do something else, the places are noted:

    ``embedded_nul``: dates with a NUL, of which the C library sees only the start
    ``trailing``: dates followed by something else, of which date.h reads only the start
    ``durations``: durations
    ``too_long``: durations with a number that the standard library does not convert
    ``streamed``: what is read or written with string streams, which swallow failing allocations
    ``wide``: dates that are written wider than four times their format
    ``lossy``: dates that the libraries write differently from how they read them (date.h takes every %p for AM)
    ``empty``: objects with nothing but absent optional properties
    """

    def __init__(self, mapping):
        super().__init__(mapping, 'cpp')
        self.ctime = self.settings.get('datetime_library', 'ctime') == 'ctime'

    def read(self, doc):
        self.embedded_nul, self.trailing, self.durations, self.too_long = set(), set(), set(), set()
        self.wide, self.empty, self.streamed, self.lossy = set(), set(), set(), set()
        return super().read(doc)

    def matches(self, pattern, text):
        answer = kit().ask(op='regex', pattern=pattern, text=text)
        return answer['ok']

    def holder(self, value, definition, path):
        if not isinstance(value, dict):
            self.fail(path, 'not an object')
            return None
        out = {}
        for name, prop in definition.get('properties', {}).items():
            key = prop.get('json', name)
            if key not in value:
                if not prop.get('optional', False):
                    self.fail(path, 'missing ' + key)
                out[key] = None
                continue
            out[key] = self.value(value[key], prop, path + (key,))
        if not any(item is not None for item in out.values()) and (
                path or not any(self.registries.values())) and (out or not path and self.classes):
            self.empty.add(path)
        return out

    def check_integer(self, value, a_type, path):
        if isinstance(value, bool) or not isinstance(value, (int, float)) or value != value or value in (
                float('inf'), -float('inf')):
            self.fail(path, 'not a number')
            return None
        if value != int(value):
            self.fail(path, 'not whole')
            return None
        if not -2**63 <= value < 2**63:
            self.fail(path, 'does not fit')
            return None
        self._bounds(int(value), a_type, path)
        return int(value)

    def check_float(self, value, a_type, path):
        if isinstance(value, bool) or not isinstance(value, (int, float)):
            self.fail(path, 'not a number')
            return None
        self._bounds(float(value), a_type, path)
        return float(value)

    def check_path(self, value, a_type, path):
        return self.check_string(value, a_type, path)

    def _when(self, value, a_type, path):
        if not isinstance(value, str):
            self.fail(path, 'not a string')
            return None
        if not self.ctime:
            self.streamed.add(path)
        form = a_type.get('format', FORMATS[a_type['type']])
        answer = kit().ask(op='ctime' if self.ctime else a_type['type'], format=form, text=value)
        if not answer['ok']:
            self.fail(path, 'not in the format')
            return None
        if self.ctime and '\0' in value:
            self.embedded_nul.add(path)
            self.fail(path, 'not in the format')
            return None
        if not self.ctime and answer['rest']:
            self.trailing.add(path)
            self.fail(path, 'not in the format')
            return None
        if self.ctime and len(answer['text']) >= 4 * len(form):
            self.wide.add(path)
        if answer['text'] != value:
            self.lossy.add(path)
        # what is not said by the format is not kept
        return ('when', answer['text'])

    check_date = check_time = check_datetime = _when

    def check_time_zone(self, value, a_type, path):
        if not isinstance(value, str):
            self.fail(path, 'not a string')
            return None
        if not self.ctime and value not in KNOWN_ZONES:
            self.fail(path, 'not a time zone')
            return None
        return value

    def check_duration(self, value, a_type, path):
        if not isinstance(value, str):
            self.fail(path, 'not a string')
            return None
        self.streamed.add(path)
        length = duration(value)
        if length is None:
            self.fail(path, 'not a duration')
            return None
        self.durations.add(path)
        if any(len(part) > 15 for part in _numbers(value)):
            self.too_long.add(path)
        tail = value.rpartition('.')[2]
        if tail.endswith('S') and '.' in value and len(tail) > 10 and tail[:-1].isdigit():
            self.fail(path, 'too precise')
            return None
        if abs(abs(length) - LIMIT) < LIMIT / 2**40:
            self.used.add('boundary')
        if abs(length) >= LIMIT:
            self.fail(path, 'out of range')
            return None
        exact = not any(c in value.partition('T')[0] for c in 'YMWD') and not any(
            c in value.partition('T')[2] for c in 'HM')
        return ('duration', length, Fraction(0) if exact else Fraction(10, 10**9))


def _numbers(text):
    out, part = [], ''
    for c in text:
        if c in '0123456789.':
            part += c
        else:
            out.append(part)
            part = ''
    return out
