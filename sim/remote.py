"""Simulated machines in interpreters with other start-up settings (hash seed, flags, real locale)."""
import base64
import json
import subprocess
import sys

from sim import VERIF, engine

_POOL = {}


class Remote:
    def __init__(self, env):
        scratch = env['TMPDIR']
        self.proc = subprocess.Popen([engine.PYTHON, '-m', 'sim.remote'], cwd=VERIF, env=env, stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        self.scratch = scratch

    def ask(self, plan):
        self.proc.stdin.write(json.dumps(plan) + '\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            self.proc.wait()
            raise RuntimeError('remote interpreter died: ' + self.proc.stderr.read()[-2000:])
        out = json.loads(line)
        if 'error' in out:
            raise RuntimeError('remote interpreter: ' + out['error'])
        out['files'] = {k: base64.b64decode(v) for k, v in out['files'].items()}
        return out


def ask(settings, plan):
    """Run ``plan`` in an interpreter started with ``settings``; the interpreters of a worker are kept."""
    import os
    key = json.dumps(settings, sort_keys=True)
    if key not in _POOL:
        env = engine.worker_env(settings, {}, os.environ['TMPDIR'])
        _POOL[key] = Remote(env)
    return _POOL[key].ask(plan)


def missing(trace, outdir):
    """Files which a run asked for and which do not exist, its own directory and files left aside."""
    out = set()
    for entry in trace:
        if len(entry) >= 5 and entry[2] in ('stat', 'open', 'access', 'readlink') and entry[4] == 'ENOENT':
            path = entry[3][0]
            if isinstance(path, str) and not (outdir + '/').startswith(path + '/') \
                    and not path.startswith(outdir + '/'):
                out.add(path)
    return sorted(out)


def serve():
    import os
    import traceback
    out = os.fdopen(os.dup(1), 'w', buffering=1, encoding='utf-8')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    from sim import REPO
    sys.path.insert(0, REPO)
    from sim import genproc as gp
    from sim.base import BaseCheck
    BaseCheck().worker_setup()
    for line in os.fdopen(0, encoding='utf-8'):
        plan = json.loads(line)
        try:
            fs = gp.build_fs(plan, plan['fs'])
            got = gp.execute(plan, plan['step'], fs)
            argv = plan['step']['procs'][0]['argv']
            files = gp.tree_files(got.after, fs, plan['outdir'], argv[1])
            answer = {'exit': got.proc.exit, 'brief': got.brief(), 'harmful': gp.harmful(got.kernel),
                      'fired': got.kernel.fired, 'digest': gp.trace_digest(got), 'steps': got.kernel.step,
                      'ns': got.kernel.now_ns, 'asked': got.proc.result or [],
                      'missing': missing(got.kernel.trace, plan['outdir']),
                      'files': {k: base64.b64encode(v).decode() for k, v in files.items()}}
        except BaseException:  # pylint: disable=broad-except
            answer = {'error': traceback.format_exc()}
        out.write(json.dumps(answer) + '\n')


if __name__ == '__main__':
    serve()
