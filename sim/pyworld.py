"""Simulated processes that use generated Python code on stored documents."""
import collections
import json
import os
import sys
import traceback


def writer_body(cfg):
    """Stores documents, one file each: in place or by renaming, with or without fsync."""

    def body(chan):
        from sim.guest import Guest, HarnessError
        try:
            guest = Guest(chan, cfg)
            guest.install()
            failed = []
            for item in cfg['store']:
                path, data = item['path'], item['text'].encode('utf-8', 'surrogatepass')
                try:
                    temp = path + '.part' if item['how'] == 'rename' else path
                    with open(temp, 'wb') as fid:
                        step = item.get('step') or len(data) or 1
                        for at in range(0, len(data), step):
                            fid.write(data[at:at + step])
                            if item.get('step'):
                                fid.flush()
                        if item.get('fsync'):
                            fid.flush()
                            os.fsync(fid.fileno())
                    if item['how'] == 'rename':
                        os.replace(temp, path)
                except HarnessError:
                    raise
                except OSError as exc:
                    failed.append('{}: {}'.format(path, exc))
            chan.call('exit', 0, '; '.join(failed), '')
        except BaseException:  # pylint: disable=broad-except
            chan.call('exit', 'harness', traceback.format_exc())
        os._exit(0)

    return body


def reader_body(cfg):
    """Reads each document with the generated code and writes back what it understood."""

    def body(chan):
        from sim import pygen
        from sim.guest import Guest
        try:
            generated = pygen.Generated(cfg['files'], cfg['module'], cfg['graph'])
            guest = Guest(chan, cfg)
            guest.install()
            results = []
            for item in cfg['items']:
                try:
                    with open(item['path'], 'rb') as fid:
                        data = fid.read()
                except OSError as exc:
                    results.append({'state': 'unreadable', 'error': str(exc)})
                    continue
                try:
                    doc = json.loads(data.decode('utf-8'),
                                     object_pairs_hook=collections.OrderedDict if item.get('ordered_input') else None)
                except (ValueError, RecursionError):
                    results.append({'state': 'no-json'})
                    continue
                results.append(_use(generated, doc, item, cfg['registries']))
            chan.call('exit', 0, '', json.dumps(results))
        except BaseException:  # pylint: disable=broad-except
            chan.call('exit', 'harness', traceback.format_exc())
        os._exit(0)

    return body


def _use(generated, doc, item, registries):
    result = {'state': 'read'}
    try:
        graph, errors = generated.parse(doc, item['ref'], item['cap'])
    except Exception as exc:  # pylint: disable=broad-except
        result['raised'] = '{}: {}'.format(type(exc).__name__, exc)
        return result
    result['errors'] = errors
    result['accepted'] = graph is not None
    if graph is None:
        return result
    result['strays'] = strays(graph, registries)
    result['again'] = []
    for ordered in (False, True):
        try:
            value = generated.serialize(graph, ordered)
        except Exception as exc:  # pylint: disable=broad-except
            result['again'].append({'raised': '{}: {}'.format(type(exc).__name__, exc)})
            continue
        try:
            result['again'].append({'text': json.dumps(value)})
        except (TypeError, ValueError) as exc:
            result['again'].append({'raised': 'not JSON: {}'.format(exc)})
    return result


def strays(graph, registries):
    """Instances of classes that the graph refers to, but does not register under their id."""
    members, classes = set(), set()
    out = []
    for name, value in sorted(vars(graph).items()):
        if isinstance(value, dict) and name.lower() in registries:
            for key, instance in value.items():
                if instance.id != key:
                    out.append('{} registered as {!r} has id {!r}'.format(name, key, instance.id))
                if id(instance) in members:
                    out.append('{} {!r} is registered twice'.format(name, key))
                members.add(id(instance))
                classes.add(type(instance))
    seen = set()
    todo = [graph]
    while todo:
        value = todo.pop()
        if isinstance(value, dict):
            todo.extend(value.values())
        elif isinstance(value, (list, tuple)):
            todo.extend(value)
        elif hasattr(value, '__dict__') and not isinstance(value, type) and id(value) not in seen:
            seen.add(id(value))
            if type(value) in classes and id(value) not in members:
                out.append('{} {!r} is not the registered one'.format(type(value).__name__, value.id))
            todo.extend(vars(value).values())
    return sorted(out)


def sim_path(*parts):
    return '/'.join(('/sim/work',) + parts)


def setup_generated_imports():
    """Modules the generated code may import; loaded once so that forked processes start warm."""
    import datetime  # pylint: disable=unused-import
    import pathlib  # pylint: disable=unused-import
    import re  # pylint: disable=unused-import
    import typing  # pylint: disable=unused-import
    import _strptime  # pylint: disable=unused-import
    try:
        import pytz
        import pytz.exceptions  # pylint: disable=unused-import
        for zone in ('UTC', 'Europe/Zurich', 'America/New_York', 'Asia/Kolkata', 'Etc/GMT+5'):
            pytz.timezone(zone)
    except ImportError:
        pass
    assert sys.modules['re']


# -- calls into generated code, observed ---------------------------------------------------------------


class Caller:
    """Performs calls on the generated code; documents and graphs may be shared between calls."""

    def __init__(self, generated, docs, graphs):
        self.generated = generated
        self.docs = [json.loads(text, object_pairs_hook=collections.OrderedDict if ordered else None)
                     for text, ordered in docs]
        self.texts = docs
        self.graphs = {}
        for i in graphs:
            try:
                self.graphs[i] = generated.parse(self.docs[i], '#', 1000)[0]
            except Exception:  # pylint: disable=broad-except
                self.graphs[i] = None

    def input_of(self, job):
        text, ordered = self.texts[job['doc']]
        if job['op'] == 'parse':
            if job.get('shared'):
                return self.docs[job['doc']]
            return json.loads(text, object_pairs_hook=collections.OrderedDict if ordered else None)
        if job.get('shared'):
            return self.graphs[job['doc']]
        return None

    def call(self, job, value):
        if job['op'] == 'parse':
            return self.generated.parse(value, job['ref'], job['cap'])
        return self.generated.serialize(value, job['ordered'])

    def prepare(self, job):
        value = self.input_of(job)
        if value is None:
            text, ordered = self.texts[job['doc']]
            doc = json.loads(text, object_pairs_hook=collections.OrderedDict if ordered else None)
            value = self.generated.parse(doc, '#', 1000)[0]
        return value


def show(result):
    """Comparable text of a result."""
    from sim.pygen import freeze
    return json.dumps(freeze(result), default=repr)


def containers(value, module):
    """Lists, dictionaries and instances of generated classes that the value consists of, by identity."""
    found = {}
    todo = [value]
    while todo:
        value = todo.pop()
        if id(value) in found:
            continue
        if isinstance(value, dict):
            todo.extend(value.values())
        elif isinstance(value, (list, tuple)):
            todo.extend(value)
            if isinstance(value, tuple):
                continue
        elif type(value).__module__.startswith(module) and not isinstance(value, type):
            attrs = getattr(value, '__dict__', {})
            todo.extend(attrs.values())
        else:
            continue
        found[id(value)] = value
    return found


class Sharing:
    """Notices results that share mutable parts with their inputs or with other results."""

    def __init__(self, module):
        self.module = module
        self.owners = {}
        self.alive = []

    def check(self, name, given, result):
        parts = containers(result, self.module)
        self.alive.append(parts)
        mine = containers(given, self.module)
        for key, value in parts.items():
            if key in mine:
                return 'the result and the input share a {}: {!r:.200}'.format(type(value).__name__, value)
            if key in self.owners:
                return 'the result and that of {} share a {}: {!r:.200}'.format(
                    self.owners[key], type(value).__name__, value)
        self.owners.update(dict.fromkeys(parts, name))
        return None


def describe(exc):
    return '{}: {}'.format(type(exc).__name__, exc)


def calls_body(cfg):
    """One thread, several calls; some of them interrupted."""

    def body(chan):
        from sim import pygen, threads
        from sim.guest import Guest
        try:
            generated = pygen.Generated(cfg['files'], cfg['module'], cfg['graph'])
            guest = Guest(chan, cfg)
            guest.install()
            caller = Caller(generated, cfg['docs'], cfg['graphs'])
            results = []
            fired = {}
            kept = []
            sharing = Sharing(cfg['module'])
            for job in cfg['jobs']:
                value = caller.prepare(job)
                before, state = show(value), pygen.module_state(generated)
                out = {}
                interrupt = job.get('interrupt')
                planned = None
                count = [0]
                if interrupt is not None and interrupt['kind'] != 'stack':
                    planned = MAKE[interrupt['kind']]()
                limit = sys.getrecursionlimit()

                def local(frame, event, arg, planned=planned, interrupt=interrupt, count=count):
                    if event == 'line':
                        count[0] += 1
                        if interrupt is not None and count[0] == interrupt.get('line'):
                            fired[interrupt['kind']] = fired.get(interrupt['kind'], 0) + 1
                            raise planned
                    return local

                def glob(frame, event, arg, local=local):
                    return local if frame.f_code.co_filename.startswith(pygen.GEN) else None

                try:
                    if interrupt is not None and interrupt['kind'] == 'stack':
                        depth, frame = 0, sys._getframe()  # pylint: disable=protected-access
                        while frame is not None:
                            depth, frame = depth + 1, frame.f_back
                        sys.setrecursionlimit(depth + interrupt['line'])
                    else:
                        sys.settrace(glob)
                    try:
                        result = caller.call(job, value)
                    finally:
                        sys.settrace(None)
                        sys.setrecursionlimit(limit)
                    out['value'] = show(result)
                    kept.append((len(results), result))
                    shared = sharing.check('call {}'.format(len(results)), value, result)
                    if shared:
                        out['shared'] = shared
                except BaseException as exc:  # pylint: disable=broad-except
                    out['raised'] = describe(exc)
                    if interrupt is not None and interrupt['kind'] == 'stack' and isinstance(exc, RecursionError):
                        fired['stack'] = fired.get('stack', 0) + 1
                        out['interrupted'] = True
                    if planned is not None and exc is planned:
                        out['interrupted'] = True
                        if exc.__cause__ is not None:
                            out['cause'] = describe(exc.__cause__)
                out['lines'] = count[0]
                out['reached'] = bool(interrupt) and (interrupt['kind'] == 'stack' or count[0] >= interrupt['line'])
                after = show(value)
                if after != before:
                    out['input'] = [before, after]
                now = pygen.module_state(generated)
                if now != state:
                    out['state'] = sorted('/'.join(k) for k in set(now) | set(state) if now.get(k) != state.get(k))
                results.append(out)
            for i, result in kept:
                late = show(result)
                if late != results[i]['value']:
                    results[i]['late'] = late
            chan.call('exit', 0, '', json.dumps({'results': results, 'fired': fired}))
        except BaseException:  # pylint: disable=broad-except
            chan.call('exit', 'harness', traceback.format_exc())
        os._exit(0)

    return body


class Timeout(Exception):
    """Raised by a watchdog in the middle of a call."""


class Cancelled(BaseException):
    """Raised by a framework that gives up on a call."""


MAKE = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'Timeout': lambda: Timeout('late'),
        'Cancelled': Cancelled, 'SystemExit': lambda: SystemExit(3), 'GeneratorExit': GeneratorExit,
        'InterruptedError': lambda: InterruptedError(4, 'interrupted')}


def calls_in_threads_body(cfg):
    """Several threads call into one generated module."""

    def body(chan):
        from sim import pygen, threads
        from sim.guest import Guest, HarnessError
        try:
            generated = pygen.Generated(cfg['files'], cfg['module'], cfg['graph'])
            guest = Guest(chan, cfg)
            guest.install()
            caller = Caller(generated, cfg['docs'], cfg['graphs'])
            inputs = [[caller.prepare(job) for job in jobs] for jobs in cfg['threads']]
            before = [[show(value) for value in values] for values in inputs]
            results = [[] for _ in cfg['threads']]
            kept = []

            def worker(t, jobs):
                def carry(thread):
                    for job, value in zip(jobs, inputs[t]):
                        baton.trace_on()
                        try:
                            result = caller.call(job, value)
                        except (HarnessError, threads.Deadlock, threads.StepLimit):
                            raise
                        except BaseException as exc:  # pylint: disable=broad-except
                            sys.settrace(None)
                            results[t].append({'raised': describe(exc)})
                            continue
                        sys.settrace(None)
                        kept.append((t, len(results[t]), result))
                        results[t].append({'value': show(result)})
                return carry

            baton = threads.Baton([worker(t, jobs) for t, jobs in enumerate(cfg['threads'])], cfg['schedule'],
                                  lambda name: name.startswith(pygen.GEN), opcodes=cfg.get('opcodes', False))
            problem = ''
            try:
                baton.run()
            except (threads.Deadlock, threads.StepLimit) as exc:
                problem = describe(exc)
            sharing = Sharing(cfg['module'])
            for t, i, result in kept:
                shared = sharing.check('thread {} call {}'.format(t, i), inputs[t][i], result)
                if shared:
                    results[t][i]['shared'] = shared
                late = show(result)
                if late != results[t][i]['value']:
                    results[t][i]['late'] = late
            changed = []
            for t, values in enumerate(inputs):
                for i, value in enumerate(values):
                    if show(value) != before[t][i]:
                        changed.append([t, i, before[t][i], show(value)])
            chan.call('exit', 0, problem, json.dumps({
                'results': results, 'changed': changed, 'events': baton.count, 'switches': baton.switches,
                'performed': baton.schedule.performed, 'places': baton.where[:4000]}))
        except BaseException:  # pylint: disable=broad-except
            chan.call('exit', 'harness', traceback.format_exc())
        os._exit(0)

    return body
