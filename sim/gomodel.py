"""Reference model of documents as read by generated Go code: the documented rules on top of Go's own library."""
import datetime
import functools
import json
import re
from fractions import Fraction

from sim.gogen import kit, layout
from sim.model import FORMATS, Model, duration

_FRACTION = Fraction(1, 10**9)


def loads(text):
    """Numbers are float64 in Go."""
    return json.loads(text, parse_int=float)


@functools.lru_cache(maxsize=None)
def plain_format(form):
    """Does Go take every text in the layout for what it is?"""
    pieces = re.findall(r'%.|[^%]+', form)
    for when in ('1999-04-23T17:38:49Z', '2031-10-06T05:06:07Z'):
        def write(a_format):
            return kit().ask(Op='format', Layout=layout(a_format), Value=when)['value']
        if write(form) != ''.join(write(p) if p[0] == '%' and p != '%%' else p.replace('%%', '%') for p in pieces):
            return False
    return True


class GoModel(Model):
    def __init__(self, mapping):
        super().__init__(mapping, 'go')

    def read(self, doc):
        self.conflicts = set()  # places whose format Go takes for something else
        return super().read(doc)

    def matches(self, pattern, text):
        return kit().ask(Op='pattern', Pattern=pattern, Value=text)['ok']

    def holder(self, value, definition, path):
        if not isinstance(value, dict):
            self.fail(path, 'not an object')
            return None
        out = {}
        for name, prop in definition.get('properties', {}).items():
            key = prop.get('json', name)
            if key not in value:
                if not prop.get('optional', False):
                    self.fail(path, 'missing ' + key)
                out[key] = None
                continue
            out[key] = self.value(value[key], prop, path + (key,))
        return out

    def check_integer(self, value, a_type, path):
        if not isinstance(value, float) or value != value or value in (float('inf'), -float('inf')):
            self.fail(path, 'not a number')
            return None
        if value != int(value):
            self.fail(path, 'not whole')
            return None
        if not -2**63 <= value < 2**63:
            self.fail(path, 'does not fit')
            return None
        self._bounds(int(value), a_type, path)
        return int(value)

    def check_float(self, value, a_type, path):
        if not isinstance(value, float):
            self.fail(path, 'not a number')
            return None
        self._bounds(value, a_type, path)
        return value

    def check_path(self, value, a_type, path):
        return self.check_string(value, a_type, path)

    def _when(self, value, a_type, path):
        if not isinstance(value, str):
            self.fail(path, 'not a string')
            return None
        form = a_type.get('format', FORMATS[a_type['type']])
        if not plain_format(form):
            # what the schema says, not what Go makes of it
            self.conflicts.add(path)
            try:
                return datetime.datetime.strptime(value, form).isoformat()
            except ValueError:
                self.fail(path, 'not in the format')
                return None
        answer = kit().ask(Op='when', Layout=layout(form), Value=value)
        if not answer['ok']:
            self.fail(path, 'not in the format')
            return None
        if '.' in answer['value']:
            # a fraction of a second that the format does not have
            self.used.add('fraction')
            self.early.add(path)
        return answer['value']

    check_date = check_time = check_datetime = _when

    def check_time_zone(self, value, a_type, path):
        if not isinstance(value, str):
            self.fail(path, 'not a string')
            return None
        answer = kit().ask(Op='zone', Value=value)
        if not answer['ok']:
            self.fail(path, 'not a time zone')
            return None
        return answer['value']

    def check_duration(self, value, a_type, path):
        if not isinstance(value, str):
            self.fail(path, 'not a string')
            return None
        length = duration(value)
        if length is None:
            self.fail(path, 'not a duration')
            return None
        tail = value.rpartition('.')[2]
        if tail.endswith('S') and '.' in value and len(tail) > 10 and tail[:-1].isdigit():
            self.fail(path, 'too precise')
            return None
        limit = Fraction(2**63, 10**9)
        if abs(abs(length) - limit) < limit / 2**40:
            self.used.add('boundary')
        if abs(length) >= limit:
            self.fail(path, 'out of range')
            return None
        exact = not any(c in value.partition('T')[0] for c in 'YMWD') and not any(
            c in value.partition('T')[2] for c in 'HM')
        return ('duration', length, Fraction(0) if exact else 10 * _FRACTION)
