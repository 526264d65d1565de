"""Building and driving generated Go packages whose map order and goroutine switches the simulator decides."""
import base64
import json
import os
import shutil
import subprocess
import tempfile

from sim import VERIF, util

STD = ['bytes', 'encoding/json', 'errors', 'fmt', 'iter', 'maps', 'math', 'os', 'path/filepath', 'reflect', 'regexp',
       'slices', 'sort', 'strconv', 'strings', 'sync', 'sync/atomic', 'time', 'unicode', 'unicode/utf8', 'context',
       'math/big', 'hash/fnv', 'unsafe', 'bufio', 'encoding/base64', 'runtime/debug', 'unique', 'cmp', 'container/list']
OWN = ['simrt', 'simsync', 'drive']
GO_FORMAT = {'%a': 'Mon', '%A': 'Monday', '%b': 'Jan', '%B': 'January', '%d': '02', '%e': '_2', '%m': '01', '%y': '06',
             '%Y': '2006', '%H': '15', '%I': '03', '%l': '3', '%M': '04', '%P': 'pm', '%p': 'PM', '%S': '05',
             '%z': '-0700', '%Z': 'MST', '%%': '%'}


class GoFailure(Exception):
    """The Go tool chain does not do what the harness needs."""


def go_env(kit, gopath):
    return {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': kit, 'GOCACHE': kit + '/cache',
            'GOPATH': gopath, 'GO111MODULE': 'off', 'GOFLAGS': '', 'GOPROXY': 'off', 'GOSUMDB': 'off',
            'GOTOOLCHAIN': 'local', 'GOTELEMETRY': 'off', 'CGO_ENABLED': '0', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
            'TMPDIR': kit, 'GOTMPDIR': kit}


def _go(args, kit, cwd, gopath=None):
    done = subprocess.run(args, cwd=cwd, env=go_env(kit, gopath or kit + '/path'), stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True, timeout=600, check=False)
    if done.returncode:
        raise GoFailure('{}: {}'.format(' '.join(args), (done.stderr + done.stdout)[-3000:]))
    return done.stdout


def prepare(scratch):
    """Compile the tools once per check; -> environment of the workers."""
    kit = os.path.join(scratch, 'gokit')
    os.makedirs(kit + '/path')
    shutil.copytree(os.path.join(VERIF, 'gosim', 'src'), kit + '/path/src')
    _go(['go', 'build', '-o', kit + '/instr', 'instr'], kit, kit + '/path/src')
    listing = _go(['go', 'list', '-export', '-deps', '-f', '{{if .Export}}{{.ImportPath}} {{.Export}}{{end}}'] + STD +
                  OWN, kit, kit + '/path/src')
    with open(kit + '/exports', 'w') as fid:
        fid.write(listing)
    with open(kit + '/importcfg', 'w') as fid:
        for line in listing.splitlines():
            name, _, path = line.partition(' ')
            fid.write('packagefile {}={}\n'.format(name, path))
    tools = _go(['go', 'env', 'GOTOOLDIR'], kit, kit).strip()
    with open(kit + '/tools', 'w') as fid:
        fid.write(tools)
    return {'MAPRY_GO_KIT': kit}


class Server:
    """A child process answering one JSON line per JSON line."""

    def __init__(self, args, env, cwd):
        self.proc = subprocess.Popen(args, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.PIPE, text=True, encoding='utf-8')

    def ask(self, request):
        try:
            self.proc.stdin.write(json.dumps(request) + '\n')
            self.proc.stdin.flush()
        except BrokenPipeError:
            pass
        line = self.proc.stdout.readline()
        if not line:
            self.proc.wait()
            text = self.proc.stderr.read()
            return {'died': text[:200] + ' ... ' + text[-1500:]}
        out = json.loads(line)
        if isinstance(out, dict) and 'error' in out:
            raise GoFailure(out['error'])
        return out

    def close(self):
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        self.proc.kill()
        self.proc.wait()
        self.proc.stdout.close()
        self.proc.stderr.close()


class Kit:
    """The tools of one worker."""

    def __init__(self):
        self.dir = os.environ['MAPRY_GO_KIT']
        with open(self.dir + '/tools') as fid:
            self.tools = fid.read()
        self.env = go_env(self.dir, self.dir + '/path')
        self.server = Server([self.dir + '/instr', self.dir + '/exports'], dict(self.env), self.dir)
        self._memo = {}

    def ask(self, **request):
        """Questions about Go's library, remembered."""
        key = json.dumps(request, sort_keys=True)
        if key not in self._memo:
            if len(self._memo) > 20000:
                self._memo.clear()
            self._memo[key] = self.server.ask(request)
        return self._memo[key]

    def tool(self, args, cwd):
        done = subprocess.run([os.path.join(self.tools, args[0])] + args[1:], cwd=cwd, env=self.env,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, check=False)
        return done.returncode, done.stdout


_KIT = None


def kit():
    global _KIT
    if _KIT is None:
        _KIT = Kit()
    return _KIT


class Program:
    """A program with one instrumented package per schema."""

    def __init__(self, packages):
        """``packages``: list of (files, graph name); ``failed`` maps the index of a package to the compiler's words."""
        self.kit = kit()
        self.dir = tempfile.mkdtemp(prefix='gobatch-', dir=self.kit.dir)
        self.failed = {}
        self.broken = {}
        self.info = {}
        self.server = None
        cfg = open(self.kit.dir + '/importcfg').read()
        names = []
        for i, (files, graph) in enumerate(packages):
            name = 'p%d' % i
            src, out = os.path.join(self.dir, 'src', name), os.path.join(self.dir, 'out', name)
            os.makedirs(src)
            for file_name, data in files.items():
                if file_name.endswith('_test.go'):
                    continue
                with open(os.path.join(src, file_name), 'wb') as fid:
                    fid.write(data)
            try:
                self.info[i] = self.kit.server.ask({'Op': 'instrument', 'Dir': src, 'Out': out, 'Graph': graph,
                                                    'Name': name})
            except GoFailure as exc:
                self.failed[i] = str(exc)
                self.compile_alone(i, src, name)
                continue
            code, text = self.kit.tool(['compile', '-p', 'w/' + name, '-pack', '-complete', '-importcfg', self.kit.dir + '/importcfg',
                                        '-o', os.path.join(self.dir, name + '.a')] +
                                       [os.path.join(out, n) for n in sorted(os.listdir(out))], self.dir)
            if code:
                self.failed[i] = text[-2000:]
                self.compile_alone(i, src, name)
                continue
            names.append(name)
            cfg += 'packagefile w/{}={}\n'.format(name, os.path.join(self.dir, name + '.a'))
        if not names:
            return
        with open(os.path.join(self.dir, 'main.go'), 'w') as fid:
            fid.write('package main\n\nimport (\n\t"drive"\n{})\n\nfunc main() {{\n\tdrive.Main()\n}}\n'.format(
                ''.join('\t_ "w/{}"\n'.format(n) for n in names)))
        with open(os.path.join(self.dir, 'importcfg'), 'w') as fid:
            fid.write(cfg)
        for args in (['compile', '-p', 'main', '-pack', '-complete', '-importcfg', self.dir + '/importcfg', '-o', self.dir + '/main.a',
                      self.dir + '/main.go'],
                     ['link', '-s', '-w', '-importcfg', self.dir + '/importcfg', '-o', self.dir + '/prog', self.dir + '/main.a']):
            code, text = self.kit.tool(args, self.dir)
            if code:
                raise GoFailure('{}: {}'.format(args[0], text[-3000:]))
        self.start()

    def compile_alone(self, i, src, name):
        """Note what the compiler says of the package as it was generated, unless packages are missing here."""
        code, text = self.kit.tool(['compile', '-p', 'alone/' + name, '-pack', '-complete', '-importcfg',
                                    self.kit.dir + '/importcfg', '-o', os.path.join(self.dir, name + '.alone')] +
                                   [os.path.join(src, n) for n in sorted(os.listdir(src))], self.dir)
        if code and 'could not import' not in text:
            self.broken[i] = text.replace(src + '/', '')[-2000:]

    def start(self):
        self.server = Server([self.dir + '/prog'], {'TZ': 'UTC', 'GOMAXPROCS': '2', 'GOGC': '200', 'HOME': '/nonexistent'},
                             self.dir)

    def restart(self):
        self.server.close()
        self.start()

    def ask(self, i, request):
        """-> answer, or {'died': text} when the process ended."""
        out = self.server.ask(dict(request, pkg='p%d' % i))
        if isinstance(out, dict) and 'died' in out:
            self.restart()
        return out

    def close(self):
        if self.server is not None:
            self.server.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def layout(a_format):
    """Go's layout of a strftime format, from the documented table of directives."""
    out, i = [], 0
    while i < len(a_format):
        if a_format[i] == '%':
            out.append(GO_FORMAT[a_format[i:i + 2]])
            i += 2
        else:
            out.append(a_format[i])
            i += 1
    return ''.join(out)


def b64(text):
    if isinstance(text, str):
        text = text.encode('utf-8', 'surrogatepass')
    return base64.b64encode(text).decode('ascii')


def digest_info(program):
    return util.digest([sorted(program.info.items()), sorted(program.failed.items())])
