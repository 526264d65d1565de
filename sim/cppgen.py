"""Building and driving generated C++ packages whose threads, allocations and stack contents the simulator decides."""
import json
import os
import shutil
import subprocess
import tempfile

from sim import REPO, VERIF, util

FLAGS = ['-std=c++17', '-O0', '-g0', '-w', '-fsanitize=address']
INIT = {'zero': ['-ftrivial-auto-var-init=zero'], 'none': []}
COVERAGE = '-fsanitize-coverage=trace-pc'
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C', 'TZ': 'UTC',
       'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=66:symbolize=0:'
                       'print_legend=0:allocator_may_return_null=1:print_full_thread_history=0:print_stats=0'}


class CppFailure(Exception):
    """The C++ tool chain does not do what the harness needs."""


def _includes(kit):
    return ['-I', os.path.join(VERIF, 'cppsim', 'include'), '-I', os.path.join(VERIF, 'cppsim'),
            '-I', os.path.join(REPO, 'test_dependencies/cpp/date-2.4.1/include'),
            '-I', os.path.join(REPO, 'test_dependencies/cpp/optional/include')]


def _compile(args, kit, cwd):
    done = subprocess.run(args, cwd=cwd, env=dict(ENV, TMPDIR=kit), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors='replace', timeout=600, check=False)
    return done.returncode, done.stdout


def prepare(scratch):
    """Compile what every package needs once per check; -> environment of the workers."""
    kit = os.path.join(scratch, 'cppkit')
    os.makedirs(kit + '/include')
    for init in INIT:
        os.makedirs('{}/{}'.format(kit, init))
        shutil.copy(os.path.join(VERIF, 'cppsim/include/pch.h'), '{}/{}/pch.h'.format(kit, init))
    src = os.path.join(VERIF, 'cppsim')
    jobs = [['g++'] + FLAGS + flags + [COVERAGE] + _includes(kit) +
            ['-x', 'c++-header', '{}/{}/pch.h'.format(kit, init), '-o', '{}/{}/pch.h.gch'.format(kit, init)]
            for init, flags in INIT.items()]
    jobs += [['g++'] + FLAGS + flags + [COVERAGE] + _includes(kit) +
             ['-c', src + '/instances.cpp', '-o', '{}/{}/instances.o'.format(kit, init)] for init, flags in INIT.items()]
    jobs += [
            ['g++'] + FLAGS + _includes(kit) + ['-c', src + '/runtime.cpp', '-o', kit + '/runtime.o'],
            ['g++', '-std=c++17', '-O1', '-w'] + _includes(kit) + [src + '/kit.cpp', '-o', kit + '/kit']]
    procs = [subprocess.Popen(job, env=dict(ENV, TMPDIR=kit), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
             for job in jobs]
    for job, proc in zip(jobs, procs):
        text = proc.communicate()[0]
        if proc.returncode:
            raise CppFailure('{}: {}'.format(' '.join(job), text.decode('utf-8', 'replace')[-3000:]))
    return {'MAPRY_CPP_KIT': kit}


class Server:
    """A child process answering one JSON line per JSON line."""

    def __init__(self, args, cwd):
        self.proc = subprocess.Popen(args, cwd=cwd, env=ENV, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL)

    def ask(self, request):
        # surrogates as they are: the reader of the other side takes UTF-8 only
        self.proc.stdin.write(json.dumps(request).encode('ascii') + b'\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise CppFailure('the server ended')
        return json.loads(line.decode('utf-8', 'surrogateescape'))

    def close(self):
        self.proc.stdin.close()
        self.proc.kill()
        self.proc.wait()
        self.proc.stdout.close()


class Kit:
    """The tools of one worker."""

    def __init__(self):
        self.dir = os.environ['MAPRY_CPP_KIT']
        self.server = Server([self.dir + '/kit'], self.dir)
        self._memo = {}

    def ask(self, **request):
        """Questions about the libraries, remembered."""
        key = json.dumps(request, sort_keys=True)
        if key not in self._memo:
            if len(self._memo) > 20000:
                self._memo.clear()
            self._memo[key] = self.server.ask(request)
        return self._memo[key]


_KIT = None


def kit():
    global _KIT
    if _KIT is None:
        _KIT = Kit()
    return _KIT


# -- the driver of a package ---------------------------------------------------------------------------------


def field(name):
    return name.lower()


def composite(name):
    return ''.join(part[0].upper() + part[1:] for part in name.split('_'))


def driver(mapping, registries):
    """
    C++ source using the package as documented.

    ``registries``: names of the class registries of the graph, in order
    """
    out = ['#include "pch.h"', '#include "jsoncpp.cpp"', '#include "parse.cpp"', '#include "driver.h"', '']
    space = '::' + mapping['cpp']['namespace']
    graph = space + '::' + composite(mapping['name'])
    classes = mapping.get('classes', [])
    holders = [(e, False) for e in mapping.get('embeds', [])] + [(c, True) for c in classes]
    out.append('namespace simcpp {')
    for holder, _ in holders:
        out.append('void write(Writer& w, const {}::{}& v);'.format(space, composite(holder['name'])))
    for holder, is_class in holders:
        out.append('void write(Writer& w, const {}::{}& v) {{'.format(space, composite(holder['name'])))
        out += _fields(holder, is_class)
        out.append('}')
    out.append('static void* sim_create() {{ return new {}(); }}'.format(graph))
    out.append('static void sim_destroy(void* g) {{ delete static_cast<{}*>(g); }}'.format(graph))
    out.append('''static void* sim_parse(const Json::Value& value, const std::string& ref, void* g, size_t cap) {{
  std::unique_ptr<{0}::parse::Errors> errors(new {0}::parse::Errors(cap));
  {0}::jsoncpp::{1}_from(value, ref, static_cast<{2}*>(g), errors.get());
  return errors.release();
}}
static void sim_outcome(void* e, Outcome* out) {{
  std::unique_ptr<{0}::parse::Errors> errors(static_cast<{0}::parse::Errors*>(e));
  out->accepted = errors->empty();
  out->full = errors->full();
  for (const auto& error : errors->get()) {{
    out->errors.emplace_back(error.ref, error.message);
  }}
}}
static Json::Value sim_serialize(const void* g) {{
  return {0}::jsoncpp::serialize_{1}(*static_cast<const {2}*>(g));
}}'''.format(space, mapping['name'].lower(), graph))
    out.append('static void sim_dump(const void* g, std::string* out) {')
    out.append('  const {0}& v = *static_cast<const {0}*>(g);'.format(graph))
    out.append('  Writer w; w.out = out;')
    for registry in registries:
        out.append('  label(w, "{0}", v.{0});'.format(registry))
    for registry in registries:
        out.append('  w.text("{0}="); write_registry(w, v.{0});'.format(registry))
    out += _fields(mapping, False)
    out.append('}')
    out.append('const Entry entry{sim_create, sim_destroy, sim_parse, sim_outcome, sim_serialize, sim_dump};')
    out.append('}  // namespace simcpp')
    return '\n'.join(out) + '\n'


def _fields(holder, is_class):
    out = ['  w.text("<");']
    if is_class:
        out.append('  write(w, v.id);')
    for name in holder.get('properties', {}):
        out.append('  w.text(" {0}="); write(w, v.{0});'.format(field(name)))
    out.append('  w.text(">");')
    return out


class Program:
    """The program of one generated package; ``failed``: words of the compiler, if it does not compile."""

    def __init__(self, files, mapping, registries, init='zero'):
        self.kit = kit()
        self.dir = tempfile.mkdtemp(prefix='cpp-', dir=self.kit.dir)
        self.failed = None
        self.counted = False
        self.server = None
        for name, data in files.items():
            with open(os.path.join(self.dir, name), 'wb') as fid:
                fid.write(data)
        with open(self.dir + '/sim_driver.cpp', 'w') as fid:
            fid.write(driver(mapping, registries))
        code, text = _compile(['g++'] + FLAGS + INIT[init] + [COVERAGE, '-include', '{}/{}/pch.h'.format(self.kit.dir, init),
                                                              '-I', self.dir] + _includes(self.kit.dir) + ['-c', 'sim_driver.cpp', '-o', 'sim_driver.o'],
                              self.kit.dir, self.dir)
        if code:
            self.failed = '\n'.join(line for line in text.splitlines() if 'error' in line)[:3000] or text[:2000]
            return
        code, text = _compile(['g++', '-fsanitize=address', 'sim_driver.o', self.kit.dir + '/runtime.o',
                               '{}/{}/instances.o'.format(self.kit.dir, init), '-o', 'prog',
                               '-lboost_filesystem', '-pthread', '-ldl'], self.kit.dir, self.dir)
        if code:
            self.failed = 'link: ' + text[-2000:]
            return
        for name in [n for n in os.listdir(self.dir) if n != 'prog']:
            os.remove(os.path.join(self.dir, name))
        self.server = Server([self.dir + '/prog'], self.dir)

    @property
    def broken(self):
        """Words of the compiler about the generated code, if the stand-in of jsoncpp can not be the reason."""
        first = (self.failed or '').split('\n')[0]
        return self.failed if first and not any(w in first for w in ('Json', 'json/', 'No such file', 'link: ')) else None

    def ask(self, request):
        """-> answer, or {'died': text} when the process serving the request died."""
        return self.server.ask(request)

    def close(self):
        if self.server is not None:
            self.server.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def fingerprint(files):
    return util.digest(sorted((k, util.digest(v)) for k, v in files.items()))
