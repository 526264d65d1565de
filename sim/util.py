"""Seeds, digests and small helpers."""
import hashlib
import json
import random


def derive(*parts):
    """Seed derived from the parts; independent of the hash seed of the interpreter."""
    text = '\x1f'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big')


def rng(*parts):
    return random.Random(derive(*parts))


def digest(obj):
    if isinstance(obj, bytes):
        return hashlib.sha256(obj).hexdigest()[:16]
    if not isinstance(obj, str):
        obj = json.dumps(obj, sort_keys=True, default=repr)
    return hashlib.sha256(obj.encode('utf-8', 'surrogatepass')).hexdigest()[:16]


def clip(text, n=300):
    text = str(text)
    return text if len(text) <= n else text[:n] + '...'


class Stats:
    """Counters of one task, merged by the engine."""

    def __init__(self):
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.sim_ns = 0

    def add(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def faults(self, fired):
        for kind, n in fired.items():
            self.add('fault:' + kind, n)

    def state(self, *parts):
        self.distinct.add(digest(list(parts)))

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    def dump(self):
        return {'counts': self.counts, 'distinct': sorted(self.distinct), 'samples': self.samples,
                'sim_ns': self.sim_ns}
