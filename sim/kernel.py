"""
Kernel of the simulated machine: runs simulated processes one system call at a time.

Each simulated process is a forked child that blocks in every operation until the kernel answers. Exactly one
child runs at any moment; which one goes on, and which operation fails how, is decided by the plan alone.
"""
import errno
import fcntl
import marshal
import os
import resource
import select
import signal
import socket
import stat as stat_mod
import struct
import sys

from sim import vfs as vfs_mod
from sim.vfs import err

READ_OPS = frozenset(['stat', 'listdir', 'readlink', 'access', 'canonical', 'read', 'pread', 'fstat', 'kind'])
# operations a fault may hit, by class
PATH_OPS = frozenset(['stat', 'listdir', 'readlink', 'open', 'mkdir', 'rmdir', 'unlink', 'rename', 'link',
                      'symlink', 'chmod', 'utime', 'truncate'])
MUTATING = frozenset(['mkdir', 'rmdir', 'unlink', 'rename', 'link', 'symlink', 'chmod', 'chown', 'utime', 'truncate',
                      'write', 'pwrite', 'ftruncate', 'fchmod'])
UNCOUNTED = frozenset(['kind', 'canonical', 'escape', 'note', 'sync', 'lines', 'lseek', 'fstat'])
# errors that an operation can really end with; anything else planned for it becomes EIO
LEGAL = {
    'stat': {'EIO', 'EACCES', 'ENOMEM', 'ESTALE', 'ENOENT', 'ELOOP'},
    'open': {'EIO', 'EACCES', 'EMFILE', 'ENFILE', 'ENOMEM', 'ENOSPC', 'EROFS', 'EDQUOT', 'ETXTBSY', 'EPERM', 'ESTALE',
             'EINTR'},
    'read': {'EIO', 'ESTALE', 'EINTR'}, 'pread': {'EIO', 'ESTALE', 'EINTR'},
    'write': {'ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'ESTALE', 'EPIPE', 'EINTR'},
    'pwrite': {'ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'ESTALE', 'EINTR'},
    'close': {'EIO', 'ENOSPC', 'EDQUOT'}, 'fsync': {'EIO', 'ENOSPC', 'EDQUOT', 'EINTR'},
    'mkdir': {'EACCES', 'ENOSPC', 'EROFS', 'EIO', 'EDQUOT', 'EPERM'},
    'rename': {'EIO', 'EACCES', 'ENOSPC', 'EROFS', 'EPERM', 'EDQUOT', 'EBUSY'},
    'unlink': {'EIO', 'EACCES', 'EBUSY', 'EROFS', 'EPERM'}, 'rmdir': {'EIO', 'EACCES', 'EBUSY', 'EROFS', 'EPERM'},
    'ftruncate': {'EIO', 'ENOSPC', 'EFBIG', 'EINTR'}, 'truncate': {'EIO', 'ENOSPC', 'EFBIG'},
    'listdir': {'EIO', 'EACCES', 'ENOMEM'},
}
ERRNO = {name: getattr(errno, name) for name in
         ['EIO', 'ENOSPC', 'EDQUOT', 'EACCES', 'EPERM', 'EMFILE', 'ENFILE', 'ENOMEM', 'EROFS', 'EINTR', 'EBUSY',
          'ESTALE', 'ETXTBSY', 'EFBIG', 'EPIPE', 'ENOENT', 'EAGAIN', 'ENOLCK', 'ENODEV', 'ELOOP', 'ENAMETOOLONG',
          'EEXIST', 'ETIMEDOUT']}

STEP_LIMIT = 20000


class OpenFile:
    __slots__ = ('node', 'pos', 'flags', 'path', 'wrote')

    def __init__(self, node, flags, path):
        self.node, self.pos, self.flags, self.path, self.wrote = node, 0, flags, path, False


class Proc:
    def __init__(self, index, spec):
        self.index = index
        self.spec = spec
        self.pid = None
        self.sock = None
        self.buf = b''
        self.pending = None
        self.state = 'new'  # new, ready, exited, killed
        self.exit = None
        self.detail = None
        self.nops = 0
        self.lines = 0
        self.gen_lines = 0
        self.ops_at_gen = 0
        self.out = {1: bytearray(), 2: bytearray()}
        self.fds = {}
        self.escapes = []
        self.failed_ops = []
        self.persistent = {}
        self.result = None


class HarnessFailure(Exception):
    pass


class Kernel:
    """
    ``faults``: list of {"proc", "op", "kind", ...} (op: 1-based number of the operation of that process).
    ``switches``: list of [step, proc]: from that global step on, prefer that process.
    ``events``: list of {"step": n, "do": ...}: environment actions before global step n.
    """

    def __init__(self, fs, faults=(), switches=(), events=(), dir_seed=None, cost_ns=20_000):
        self.fs = fs
        self.faults = {}
        for fault in faults:
            self.faults.setdefault((fault['proc'], fault['op']), []).append(fault)
        self.switches = {int(s): p for s, p in switches}
        self.events = {}
        for event in events:
            self.events.setdefault(int(event['step']), []).append(event)
        self.step = 0
        self.now_ns = 0
        self.cost_ns = cost_ns
        self.trace = []
        self.fired = {}
        self.procs = []
        self.mutations = []
        self.power_lost = None
        self.dir_seed = dir_seed
        self.on_event = None
        self.interleaving = []
        self.limit = False

    # -- processes -------------------------------------------------------------------------------

    def spawn(self, spec, body):
        """Fork a child that runs ``body(channel)`` and reports (status, detail)."""
        proc = Proc(len(self.procs), spec)
        self.procs.append(proc)
        parent, child = socket.socketpair()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                parent.close()
                for other in self.procs:
                    if other.sock is not None:
                        other.sock.close()
                resource.setrlimit(resource.RLIMIT_CPU, (120, 130))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                from sim.guest import Channel
                body(Channel(child.fileno()))
            finally:
                os._exit(98)
        child.close()
        proc.pid = pid
        proc.sock = parent
        proc.state = 'run'
        self._await(proc)
        return proc

    def _exact(self, proc, n):
        while len(proc.buf) < n:
            part = proc.sock.recv(65536)
            if not part:
                return None
            proc.buf += part
        out, proc.buf = proc.buf[:n], proc.buf[n:]
        return out

    def _await(self, proc):
        """Wait for the next request of the (only) running child."""
        head = self._exact(proc, 4)
        blob = self._exact(proc, struct.unpack('<I', head)[0]) if head is not None else None
        if blob is None:
            _, status = os.waitpid(proc.pid, 0)
            proc.sock.close()
            proc.sock = None
            if os.WIFSIGNALED(status):
                sig = os.WTERMSIG(status)
                if sig in (signal.SIGXCPU, signal.SIGKILL):
                    proc.state, proc.exit, proc.detail = 'exited', 'hang', 'CPU time limit'
                else:
                    proc.state, proc.exit, proc.detail = 'exited', 'signal', str(sig)
            elif os.WEXITSTATUS(status) == 137:
                proc.state, proc.exit = 'killed', 'killed'
            else:
                raise HarnessFailure('simulated process ended with status {} without a report; stderr: {!r}'.format(
                    os.WEXITSTATUS(status), bytes(proc.out[2][-2000:])))
            return
        msg = marshal.loads(blob)
        proc.pending = msg
        proc.state = 'ready'

    def kill(self, proc):
        if proc.state in ('exited', 'killed'):
            return
        os.kill(proc.pid, signal.SIGKILL)
        os.waitpid(proc.pid, 0)
        proc.sock.close()
        proc.sock = None
        proc.state, proc.exit = 'killed', 'killed'
        proc.fds.clear()
        self._unlock(proc)

    def _unlock(self, proc):
        seen = set()
        stack = [self.fs.root]
        while stack:
            node = stack.pop()
            if node.ino in seen:
                continue
            seen.add(node.ino)
            node.locks = [entry for entry in node.locks if entry[0] != proc.index]
            if node.kind == 'd':
                stack.extend(node.entries.values())

    def close_all(self):
        for proc in self.procs:
            if proc.state not in ('exited', 'killed'):
                try:
                    self.kill(proc)
                except (ProcessLookupError, ChildProcessError):
                    pass

    def reply(self, proc, status, value):
        blob = marshal.dumps((status, value, self.now_ns))
        proc.pending = None
        proc.state = 'run'
        proc.sock.sendall(struct.pack('<I', len(blob)) + blob)
        self._await(proc)

    # -- main loop -------------------------------------------------------------------------------

    def run(self):
        """Run until every process has ended."""
        current = 0
        try:
            while True:
                ready = [p for p in self.procs if p.state == 'ready' and not self._blocked(p)]
                if not ready:
                    if any(p.state == 'ready' for p in self.procs):
                        for p in self.procs:
                            if p.state == 'ready':
                                self.kill(p)
                                p.exit = 'deadlock'
                    return
                self.step += 1
                for event in self.events.get(self.step, ()):
                    self.on_event(event)
                    self.note_fault('env:' + event['do'])
                if self.step in self.switches:
                    current = self.switches[self.step]
                proc = next((p for p in ready if p.index == current), None)
                if proc is None:
                    proc = min(ready, key=lambda p: (p.index - current) % len(self.procs))
                    current = proc.index
                self.interleaving.append(proc.index)
                if self.step > STEP_LIMIT:
                    self.limit = True
                    for p in self.procs:
                        if p.state == 'ready':
                            self.kill(p)
                            p.exit = 'step-limit'
                    return
                self.execute(proc)
        finally:
            self.close_all()

    def _blocked(self, proc):
        op, args = proc.pending[0], proc.pending[1]
        if op != 'flock':
            return False
        handle = proc.fds.get(args[0])
        return handle is not None and not args[1] & (fcntl.LOCK_NB | fcntl.LOCK_UN) and \
            self._conflict(proc, handle, args[0], args[1])

    def _conflict(self, proc, handle, kfd, how):
        for owner, fd, kind in handle.node.locks:
            if (owner, fd) == (proc.index, kfd):
                continue
            if kind & fcntl.LOCK_EX or how & fcntl.LOCK_EX:
                return True
        return False

    def note_fault(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def log(self, *entry):
        self.trace.append(entry)

    def execute(self, proc):
        op, args, lines, gen_lines = proc.pending
        if gen_lines > proc.gen_lines:
            # everything up to the previous operation happened while code was still being generated
            proc.ops_at_gen = proc.nops
        proc.lines, proc.gen_lines = lines, gen_lines
        if op == 'exit':
            proc.exit, proc.detail = args[0], args[1]
            proc.result = args[2] if len(args) > 2 else None
            self.log(proc.index, 'exit', args[0])
            proc.fds.clear()
            self._unlock(proc)
            self.reply_exit(proc)
            return
        if op == 'interrupt':
            self.note_fault('interrupt:' + args[0])
            self.log(proc.index, 'interrupt', args[0], lines)
            if args[0] in ('kill', 'power'):
                self.kill(proc)
                if args[0] == 'power':
                    self.power(args[1])
                return
            self.reply(proc, 'ok', None)
            return
        if op in UNCOUNTED:
            self.plain(proc, op, args)
            return
        proc.nops += 1
        self.now_ns += self.cost_ns
        self.fs.now_ns = self.now_ns
        faults = list(self.faults.get((proc.index, proc.nops), ()))
        partial = None
        after = None
        for fault in faults:
            kind = fault['kind']
            if kind == 'slow':
                self.now_ns += fault['ns']
                self.note_fault('slow')
                self.log(proc.index, proc.nops, 'slow', fault['ns'])
            elif kind in ('kill', 'power'):
                self.note_fault(kind + '@' + op)
                if op in ('write', 'pwrite') and fault.get('part') is not None:
                    data = args[1]
                    n = int(len(data) * fault['part'])
                    try:
                        self.apply(proc, op, (args[0], data[:n]) + tuple(args[2:]))
                    except OSError:
                        pass
                elif fault.get('after'):
                    try:
                        self.apply(proc, op, args)
                    except OSError:
                        pass
                self.log(proc.index, proc.nops, op, self._short(args), kind)
                self.kill(proc)
                if kind == 'power':
                    self.power(fault['seed'])
                return
            elif kind == 'short' and op in ('write', 'read', 'pwrite', 'pread'):
                partial = fault['part']
                self.note_fault('short-' + op)
            elif kind == 'persist':
                proc.persistent[fault['class']] = fault['errno']
                self.note_fault('persist:{}:{}'.format(fault['class'], fault['errno']))
            elif kind == 'errno':
                name = fault['errno']
                if name == 'EINTR' and op not in ('read', 'write', 'pread', 'pwrite', 'open', 'fsync', 'ftruncate'):
                    continue  # earlier faults moved it to an operation that Linux does not interrupt
                if op == 'close' and args[0] in proc.fds and fault.get('lose') is not None:
                    self._lose(proc.fds[args[0]], fault['lose'])
                if op == 'close':
                    proc.fds.pop(args[0], None)
                self.fail(proc, op, args, name)
                return
        name = self._persistent(proc, op, args)
        if name is not None:
            if op == 'close':
                proc.fds.pop(args[0], None)
            self.fail(proc, op, args, name)
            return
        if partial is not None:
            if op in ('write', 'pwrite'):
                data = args[1]
                n = max(1, int(len(data) * partial))
                args = (args[0], data[:n]) + tuple(args[2:])
            else:
                args = (args[0], max(1, int(args[1] * partial))) + tuple(args[2:])
        try:
            value = self.apply(proc, op, args)
        except OSError as exc:
            self.log(proc.index, proc.nops, op, self._short(args), errno.errorcode.get(exc.errno, exc.errno))
            self.reply(proc, 'err', exc.errno)
            return
        except NotImplementedError as exc:
            self.reply(proc, 'unsupported', str(exc))
            return
        self.log(proc.index, proc.nops, op, self._short(args))
        self.reply(proc, 'ok', value)

    def reply_exit(self, proc):
        blob = marshal.dumps(('ok', None, self.now_ns))
        proc.sock.sendall(struct.pack('<I', len(blob)) + blob)
        os.waitpid(proc.pid, 0)
        proc.sock.close()
        proc.sock = None
        proc.state = 'exited'

    def fail(self, proc, op, args, name):
        if name not in LEGAL.get(op, {'EIO', 'EPERM', 'EACCES', 'EROFS'}) or \
                name == 'EPIPE' and args[0] not in (1, 2):
            name = 'EIO'
        std = '(std)' if op in ('write', 'close', 'fsync') and args[0] in (1, 2) else ''
        self.note_fault('{}@{}{}'.format(name, op, std))
        proc.failed_ops.append(proc.nops)
        self.log(proc.index, proc.nops, op, self._short(args), '!' + name)
        self.reply(proc, 'err', ERRNO[name])

    def _persistent(self, proc, op, args):
        if not proc.persistent:
            return None
        writes = op in ('write', 'pwrite') and args[0] > 2
        creates = op in ('mkdir', 'rename', 'link', 'symlink') or (op == 'open' and args[1] & os.O_CREAT)
        if 'space' in proc.persistent and writes:
            return proc.persistent['space']
        if 'fds' in proc.persistent and op == 'open':
            return proc.persistent['fds']
        if 'readonly' in proc.persistent and (creates or op in MUTATING and op not in ('write', 'pwrite')):
            return proc.persistent['readonly']
        if 'media' in proc.persistent and (writes or op in ('read', 'pread', 'fsync')):
            return proc.persistent['media']
        return None

    def _lose(self, handle, keep):
        """A deferred write-back failed: part of what was written is gone."""
        if handle.wrote and handle.node.kind == 'f':
            del handle.node.data[int(len(handle.node.data) * keep):]

    def power(self, seed):
        for proc in self.procs:
            self.kill(proc)
        counts = self.fs.power_loss(seed)
        self.power_lost = counts
        for kind, n in counts.items():
            self.fired['power:' + kind] = self.fired.get('power:' + kind, 0) + n

    @staticmethod
    def _short(args):
        return tuple(a if not isinstance(a, (bytes, bytearray)) else '<{} bytes>'.format(len(a)) for a in args)

    # -- operations ------------------------------------------------------------------------------

    def plain(self, proc, op, args):
        if op == 'kind':
            handle = proc.fds.get(args[0])
            self.reply(proc, 'ok', handle.node.kind if handle else 'f')
        elif op == 'canonical':
            self.reply(proc, 'ok', self.fs.canonical(args[0]))
        elif op == 'escape':
            proc.escapes.append(args)
            self.log(proc.index, 'escape', args)
            self.reply(proc, 'ok', None)
        elif op == 'note':
            self.log(proc.index, 'note', args)
            self.reply(proc, 'ok', None)
        elif op == 'sync':
            self.fs.make_durable()
            self.reply(proc, 'ok', None)
        elif op in ('lseek', 'fstat'):
            try:
                value = self.apply(proc, op, args)
            except OSError as exc:
                self.reply(proc, 'err', exc.errno)
                return
            self.reply(proc, 'ok', value)
        else:
            self.reply(proc, 'ok', None)

    def mutate(self, proc, what, path):
        self.mutations.append((proc.index, proc.nops, what, self.fs.canonical(path)))

    def parent_canonical(self, path):
        head, _, tail = path.rstrip('/').rpartition('/')
        return self.fs.canonical(head or '/').rstrip('/') + '/' + tail

    def apply(self, proc, op, args):
        fs = self.fs
        if op == 'stat':
            return fs.stat(args[0], args[1])
        if op == 'open':
            path, flags, mode = args
            existed = True
            if flags & os.O_CREAT:
                try:
                    fs.walk(path, follow=True)
                except OSError:
                    existed = False
            node = fs.open(path, flags, mode)
            if flags & (os.O_WRONLY | os.O_RDWR):
                if not existed or flags & os.O_TRUNC:
                    self.mutate(proc, 'create' if not existed else 'truncate', path)
            handle = OpenFile(node, flags, fs.canonical(path))
            kfd = 3
            while kfd in proc.fds:
                kfd += 1
            proc.fds[kfd] = handle
            return kfd
        if op in ('read', 'write', 'pread', 'pwrite', 'close', 'lseek', 'fstat', 'fsync', 'ftruncate', 'fchmod', 'flock'):
            kfd = args[0]
            if kfd in (0, 1, 2):
                if op == 'write':
                    proc.out[kfd].extend(args[1])
                    return len(args[1])
                if op == 'read':
                    return b''
                if op == 'fstat':
                    return (stat_mod.S_IFIFO | 0o600, 1, 1, 1, 1000, 1000, 0, 0, 0, 0, 0)
                if op in ('close', 'fsync'):
                    return None
                raise err(errno.ESPIPE)
            handle = proc.fds.get(kfd)
            if handle is None:
                raise err(errno.EBADF)
            node = handle.node
            acc = handle.flags & vfs_mod.O_ACC
            if op == 'close':
                del proc.fds[kfd]
                node.locks = [entry for entry in node.locks if entry[:2] != (proc.index, kfd)]
                return None
            if op in ('read', 'pread'):
                if acc == os.O_WRONLY:
                    raise err(errno.EBADF)
                if node.kind == 'd':
                    raise err(errno.EISDIR)
                if op == 'pread':
                    return bytes(node.data[args[2]:args[2] + args[1]])
                data = bytes(node.data[handle.pos:handle.pos + args[1]])
                handle.pos += len(data)
                return data
            if op in ('write', 'pwrite'):
                if acc == os.O_RDONLY:
                    raise err(errno.EBADF)
                pos = args[2] if op == 'pwrite' else handle.pos
                if handle.flags & os.O_APPEND and op == 'write':
                    pos = len(node.data)
                n = fs.write(node, pos, args[1])
                if op == 'write':
                    handle.pos = pos + n
                handle.wrote = True
                self.mutate(proc, 'write', handle.path)
                return n
            if op == 'lseek':
                if args[2] == 0:
                    handle.pos = args[1]
                elif args[2] == 1:
                    handle.pos += args[1]
                else:
                    handle.pos = len(node.data) + args[1]
                return handle.pos
            if op == 'fstat':
                return fs.stat_tuple(node)
            if op == 'fsync':
                fs.fsync(node)
                return None
            if op == 'ftruncate':
                fs.truncate(node, args[1])
                self.mutate(proc, 'truncate', handle.path)
                return None
            if op == 'fchmod':
                node.mode = args[1] & 0o7777
                self.mutate(proc, 'chmod', handle.path)
                return None
            if op == 'flock':
                how = args[1]
                node.locks = [entry for entry in node.locks if entry[:2] != (proc.index, kfd)]
                if how & fcntl.LOCK_UN:
                    return None
                if self._conflict(proc, handle, kfd, how):
                    raise err(errno.EWOULDBLOCK)
                node.locks.append((proc.index, kfd, how & ~fcntl.LOCK_NB))
                return None
        if op == 'mkdir':
            where = self.parent_canonical(args[0])
            fs.mkdir(args[0], args[1])
            self.mutations.append((proc.index, proc.nops, 'mkdir', where))
            return None
        if op in ('rmdir', 'unlink'):
            where = self.parent_canonical(args[0])
            getattr(fs, op)(args[0])
            self.mutations.append((proc.index, proc.nops, op, where))
            return None
        if op == 'rename':
            a, b = self.parent_canonical(args[0]), self.parent_canonical(args[1])
            fs.rename(args[0], args[1])
            self.mutations.append((proc.index, proc.nops, 'rename-from', a))
            self.mutations.append((proc.index, proc.nops, 'rename-to', b))
            return None
        if op == 'link':
            fs.link(args[0], args[1])
            self.mutate(proc, 'link', args[1])
            return None
        if op == 'symlink':
            where = self.parent_canonical(args[1])
            fs.symlink(args[0], args[1])
            self.mutations.append((proc.index, proc.nops, 'symlink', where))
            return None
        if op == 'readlink':
            return fs.readlink(args[0])
        if op == 'listdir':
            entries = fs.listdir(args[0])
            if self.dir_seed is not None:
                import random
                random.Random(self.dir_seed).shuffle(entries)
            return entries
        if op == 'chmod':
            fs.chmod(args[0], args[1], args[2])
            self.mutate(proc, 'chmod', args[0])
            return None
        if op == 'chown':
            fs.walk(args[0])
            self.mutate(proc, 'chown', args[0])
            return None
        if op == 'utime':
            node = fs.walk(args[0])
            node.mtime = args[1] if args[1] is not None else self.now_ns
            self.mutate(proc, 'utime', args[0])
            return None
        if op == 'truncate':
            node = fs.walk(args[0])
            if node.kind != 'f':
                raise err(errno.EISDIR, args[0])
            if not node.mode & 0o200:
                raise err(errno.EACCES, args[0])
            fs.truncate(node, args[1])
            self.mutate(proc, 'truncate', args[0])
            return None
        if op == 'access':
            try:
                node = fs.walk(args[0])
            except OSError:
                return False
            want = args[1]
            return not (want & os.R_OK and not node.mode & 0o400 or want & os.W_OK and not node.mode & 0o200
                        or want & os.X_OK and not node.mode & 0o100)
        if op == 'sleep':
            self.now_ns += args[0]
            return None
        raise NotImplementedError(op)
