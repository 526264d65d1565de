"""Worker process: executes tasks of one check, one per line on standard input."""
import importlib
import json
import os
import sys
import traceback


def main():
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    name = sys.argv[1]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from sim import REPO, util
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    from sim.base import NoCode
    check = importlib.import_module('checks.' + name).Check()
    check.worker_setup()
    for line in sys.stdin:
        task = json.loads(line)
        stats = util.Stats()
        result = {'id': task['id'], 'violations': [], 'error': None}
        try:
            if task['mode'] == 'explore':
                try:
                    result['violations'] = check.explore(task['seed'], task['index'], task['tier'], stats)
                except NoCode as exc:
                    stats.add('skipped:' + exc.kind)
                    result['violations'] = [exc.violation()] if check.needs_code else []
                result['log'] = check.take_log()
            elif task['mode'] == 'run':
                result['violations'] = [dict(v, plan=task['plan']) for v in check.run_any(task['plan'], stats)]
                result['log'] = check.take_log()
            elif task['mode'] == 'shrink':
                result['violations'] = [check.shrink(task['plan'], task['kind'], task['finding'],
                                                     task['budget'], stats)]
            result['stats'] = stats.dump()
        except BaseException as exc:  # pylint: disable=broad-except
            result['error'] = traceback.format_exc()
            result['stats'] = stats.dump()
            if isinstance(exc, (KeyboardInterrupt, SystemExit)):
                out.write(json.dumps(result) + '\n')
                raise
        out.write(json.dumps(result) + '\n')


if __name__ == '__main__':
    main()
