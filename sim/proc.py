"""Bodies of simulated processes that run mapry."""
import gc
import os
import runpy
import sys

from sim import REPO
from sim.guest import Guest, HarnessError

_PKG = REPO + '/mapry/'
_GENERATING = ('/parse.py', '/validation.py', '/naming.py', '/strftime.py', '/indention.py', '/schemas.py',
               '/expr.py', '/timeformat.py')


def in_scope(filename):
    return filename.startswith(_PKG) or filename == '<template>'


def generating(filename):
    """Lines that read, check or render (as opposed to lines of the driver that write files)."""
    if filename == '<template>':
        return True
    if not filename.startswith(_PKG):
        return False
    rest = filename[len(_PKG) - 1:]
    if '/generate/' in rest:
        return not rest.endswith('/__init__.py')
    return rest.endswith(_GENERATING)


class SimTimeout(BaseException):
    """Stands for an asynchronous exception raised by a signal handler."""


EXCEPTIONS = {
    'KeyboardInterrupt': lambda: KeyboardInterrupt(),
    'MemoryError': lambda: MemoryError(),
    'RecursionError': lambda: RecursionError('maximum recursion depth exceeded'),
    'SimTimeout': lambda: SimTimeout('timeout'),
    'SystemExit143': lambda: SystemExit(143),
}


def call_main(entry, argv):
    """Run one mapry command line; -> exit status as a shell would see it, and the text on an uncaught exception."""
    sys.argv = list(argv)
    try:
        if entry == 'module':
            runpy.run_module('mapry', run_name='__main__', alter_sys=True)
            code = 0
        else:
            import mapry.main
            code = mapry.main.entry_point()
            sys.exit(code)
    except SystemExit as exc:
        code = exc.code
        if code is None:
            code = 0
        elif not isinstance(code, int):
            sys.stderr.write(str(code) + '\n')
            code = 1
        return code & 0xff, ''
    except KeyboardInterrupt:
        return 130, 'KeyboardInterrupt'
    except SimTimeout:
        return 1, 'SimTimeout'
    except HarnessError:
        raise
    except BaseException as exc:
        text = '{}: {}'.format(type(exc).__name__, exc)
        try:
            sys.stderr.write('Traceback (most recent call last):\n' + text + '\n')
        except Exception:
            pass
        return 1, text
    return code, ''


def flush_std(code):
    """What the interpreter does with the standard streams at exit."""
    failed = False
    try:
        sys.stdout.flush()
    except BaseException:
        failed = True
    try:
        sys.stderr.flush()
    except BaseException:
        pass
    if failed and code == 0:
        return 120
    return code


def mapry_body(cfg):
    """-> body for Kernel.spawn"""

    def body(chan):
        try:
            guest = Guest(chan, cfg)
            guest.install()
            sys.path[:] = [REPO] + [p for p in sys.path if p != REPO]
            early = cfg.get('before_interrupt')
            for n, argv in enumerate(cfg.get('before', ())):
                if early is not None and n == early.get('run', 0):
                    def stop():
                        chan.call('interrupt', early['kind'], 0)
                        raise EXCEPTIONS[early['kind']]()

                    guest.trace_lines(in_scope, generating, early['line'], stop)
                call_main('script', argv)
                sys.settrace(None)
                if cfg.get('idreuse') is not None:
                    gc.collect()
            chan.lines = chan.gen_lines = 0
            interrupt = cfg.get('interrupt')
            if interrupt is not None:
                kind = interrupt['kind']

                def action():
                    chan.call('interrupt', kind, interrupt.get('seed', 0))
                    raise EXCEPTIONS[kind]()

                guest.trace_lines(in_scope, generating, interrupt['line'], action)
            elif cfg.get('count_lines'):
                guest.trace_lines(in_scope, generating)
            code, text = call_main(cfg.get('entry', 'module'), cfg['argv'])
            sys.settrace(None)
            code = flush_std(code)
            chan.call('exit', code, text, sorted(guest.asked))
        except HarnessError as exc:
            chan.call('exit', 'harness', str(exc))
        except BaseException as exc:  # pylint: disable=broad-except
            import traceback
            chan.call('exit', 'harness', traceback.format_exc())
        os._exit(0)

    return body
