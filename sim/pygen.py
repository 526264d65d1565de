"""Loading and driving generated Python modules inside a simulated process."""
import copy
import inspect
import sys
import types

GEN = '/sim/gen/'
ORDER = ['__init__', 'parse', 'fromjsonable', 'tojsonable']


class Unusable(Exception):
    """The generated modules can not be imported, or have no entry points."""


class Generated:
    """The modules generated for one schema, with their entry points."""

    def __init__(self, files, module_name, graph_name):
        try:
            self._load(files, module_name, graph_name)
        except Exception as exc:
            raise Unusable('{}: {}'.format(type(exc).__name__, exc)) from exc

    def _load(self, files, module_name, graph_name):
        for part in range(1, module_name.count('.') + 1):
            parent = '.'.join(module_name.split('.')[:part])
            if parent not in sys.modules:
                module = types.ModuleType(parent)
                module.__path__ = []
                sys.modules[parent] = module
        self.modules = {}
        for stem in ORDER:
            name = module_name if stem == '__init__' else module_name + '.' + stem
            module = types.ModuleType(name)
            if stem == '__init__':
                module.__path__ = []
            module.__file__ = GEN + stem + '.py'
            sys.modules[name] = module
            if '.' in name:
                parent, _, last = name.rpartition('.')
                setattr(sys.modules[parent], last, module)
            text = files[stem + '.py']
            if isinstance(text, bytes):
                text = text.decode('utf-8')
            exec(compile(text, module.__file__, 'exec'), module.__dict__)  # pylint: disable=exec-used
            self.modules[stem] = module
        plain = graph_name.replace('_', '').lower()
        self.parse_graph = self._find('fromjsonable', lambda n: n.endswith('from') and n[:-4] == plain)
        self.serialize_graph = self._find('tojsonable', lambda n: n.startswith('serialize') and n[9:] == plain)
        self.errors = self.modules['parse'].Errors

    def _find(self, stem, accept):
        for name, fun in vars(self.modules[stem]).items():
            if inspect.isfunction(fun) and not name.startswith('_') and accept(name.replace('_', '').lower()):
                return fun
        raise LookupError('no entry point in {}: {}'.format(stem, sorted(vars(self.modules[stem]))))

    def parse(self, doc, ref='#', cap=100):
        """-> (graph, [(ref, message), ...])"""
        errors = self.errors(cap)
        graph = self.parse_graph(doc, ref, errors)
        return graph, [(e.ref, e.message) for e in errors.values()]

    def serialize(self, graph, ordered=False):
        return self.serialize_graph(graph, ordered)


def freeze(value, seen=None):
    """Structure of a value for comparison: containers with their types and order, objects by attribute."""
    seen = seen if seen is not None else {}
    if isinstance(value, (type(None), bool, int, float, str, bytes)):
        return (type(value).__name__, repr(value))
    if id(value) in seen:
        return ('again', seen[id(value)])
    seen[id(value)] = len(seen)
    if isinstance(value, dict):
        return (type(value).__name__, [(freeze(k, seen), freeze(v, seen)) for k, v in list(value.items())])
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, [freeze(v, seen) for v in value])
    if isinstance(value, (set, frozenset)):
        return (type(value).__name__, sorted(map(repr, (freeze(v, seen) for v in value))))
    if type(value).__module__ in ('datetime', 'pathlib', 'decimal', 'fractions', 're') or \
            type(value).__module__.startswith('pytz'):
        return (type(value).__name__, repr(value))
    if isinstance(value, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType)):
        return ('ref', getattr(value, '__qualname__', repr(value)))
    attrs = getattr(value, '__dict__', None)
    if attrs is None and hasattr(type(value), '__slots__'):
        attrs = {k: getattr(value, k) for k in type(value).__slots__ if hasattr(value, k)}
    return (type(value).__name__, [(k, freeze(v, seen)) for k, v in sorted((attrs or {}).items())])


def module_state(generated):
    """Everything that the generated modules keep between calls."""
    out = {}
    for stem, module in generated.modules.items():
        for name, value in sorted(vars(module).items()):
            if name.startswith('__') and name.endswith('__') or isinstance(value, types.ModuleType):
                continue
            if inspect.isfunction(value):
                out[stem, name] = repr([freeze(value.__defaults__), freeze(value.__kwdefaults__),
                                        freeze(dict(value.__dict__)),
                                        freeze([c.cell_contents for c in value.__closure__ or ()])])
            elif inspect.isclass(value) and value.__module__ == module.__name__:
                attrs = {}
                for k, v in sorted(vars(value).items()):
                    if inspect.isfunction(v):
                        attrs[k] = [freeze(v.__defaults__), freeze(dict(v.__dict__))]
                    elif not (k.startswith('__') and k.endswith('__')):
                        attrs[k] = freeze(v)
                out[stem, name] = repr(attrs)
            else:
                out[stem, name] = repr(freeze(value))
    return out


def clone(doc):
    return copy.deepcopy(doc)
