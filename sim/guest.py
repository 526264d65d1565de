"""
Seams of a simulated process.

A simulated process is a forked child of a worker. Inside it every source of nondeterminism is replaced: file
and stream operations become messages to the kernel of the simulated machine (see kernel.py), one at a time;
the clock, randomness, process identity, environment, locale encoding, object identities and hashes come from
the plan. The code under test is not changed.
"""
import _io
import bisect
import builtins
import collections.abc
import datetime as datetime_mod
import errno
import fcntl
import gc
import io
import locale
import marshal
import os
import posixpath
import random as random_mod
import shutil
import signal
import socket
import stat as stat_mod
import struct
import sys
import tempfile
import time as time_mod
import types
import weakref

from sim import REPO

_abc_file = collections.abc.__file__
ROOT = '/sim'
FAKE = 1000000

_os = types.SimpleNamespace(**{k: getattr(os, k) for k in dir(os)})
_real_io_open = io.open
_time_real = time_mod.time


class HarnessError(BaseException):
    """The code under test needs something the simulator does not model."""


class Channel:
    """Synchronous calls to the kernel over a socket."""

    def __init__(self, fd):
        self.fd = fd
        self.now_ns = 0
        self.lines = 0
        self.gen_lines = 0

    def send(self, obj):
        blob = marshal.dumps(obj)
        blob = struct.pack('<I', len(blob)) + blob
        view = memoryview(blob)
        while view:
            n = _os.write(self.fd, view)
            view = view[n:]

    def recv(self):
        head = self._exact(4)
        return marshal.loads(self._exact(struct.unpack('<I', head)[0]))

    def _exact(self, n):
        out = b''
        while len(out) < n:
            part = _os.read(self.fd, n - len(out))
            if not part:
                _os._exit(99)
            out += part
        return out

    def call(self, op, *args):
        """Ask the kernel; raise the OSError it answers with."""
        self.send((op, args, self.lines, self.gen_lines))
        status, value, self.now_ns = self.recv()
        if status == 'ok':
            return value
        if status == 'die':
            _os._exit(137)
        if status == 'unsupported':
            raise HarnessError(value)
        name = args[0] if args and isinstance(args[0], str) else None
        if op in ('read', 'write', 'close', 'fsync', 'lseek', 'ftruncate', 'fstat'):
            name = None
        if name is not None:
            raise OSError(value, os.strerror(value), name)
        raise OSError(value, os.strerror(value))

    def retry(self, op, *args):
        """Call with the automatic retry on EINTR that CPython makes below the Python level (PEP 475)."""
        while True:
            try:
                return self.call(op, *args)
            except InterruptedError:
                continue


class SimRaw(io.RawIOBase):
    """Stands for io.FileIO."""

    def __init__(self, chan, kfd, name, mode, closefd=True):
        super().__init__()
        self._chan = chan
        self._kfd = kfd
        self.name = name
        self.mode = mode
        self._closefd = closefd
        self._readable = 'r' in mode or '+' in mode
        self._writable = mode[0] in 'wax' or '+' in mode
        self._seekable = kfd > 2

    def readable(self):
        self._check()
        return self._readable

    def writable(self):
        self._check()
        return self._writable

    def seekable(self):
        self._check()
        return self._seekable

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def fileno(self):
        self._check()
        return FAKE + self._kfd if self._kfd > 2 else self._kfd

    def isatty(self):
        return False

    def readinto(self, buf):
        self._check()
        if not self._readable:
            raise io.UnsupportedOperation('not readable')
        data = self._chan.retry('read', self._kfd, len(buf))
        buf[:len(data)] = data
        return len(data)

    def readall(self):
        parts = []
        while True:
            data = self._chan.retry('read', self._kfd, 65536)
            if not data:
                return b''.join(parts)
            parts.append(data)

    def write(self, data):
        self._check()
        if not self._writable:
            raise io.UnsupportedOperation('not writable')
        return self._chan.retry('write', self._kfd, bytes(data))

    def seek(self, pos, whence=0):
        self._check()
        return self._chan.retry('lseek', self._kfd, pos, whence)

    def tell(self):
        self._check()
        return self._chan.retry('lseek', self._kfd, 0, 1)

    def truncate(self, size=None):
        self._check()
        if size is None:
            size = self.tell()
        self._chan.retry('ftruncate', self._kfd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd and self._kfd > 2:
                self._chan.call('close', self._kfd)

    @property
    def closefd(self):
        return self._closefd


class Guest:
    """Installs the seams in this (forked) process according to ``cfg``."""

    def __init__(self, chan, cfg):
        self.chan = chan
        self.cfg = cfg
        self.cwd = cfg.get('cwd', ROOT + '/work')
        self.encoding = cfg.get('encoding', 'utf-8')
        self.umask_value = cfg.get('umask', 0o022)
        self.threaded = None  # cooperative scheduler, if any

    # -- paths -----------------------------------------------------------------------------------

    def resolve(self, path):
        """-> (is simulated, absolute path)"""
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path:
            raise OSError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        if '\0' in path:
            raise ValueError('embedded null byte')
        full = path if path.startswith('/') else self.cwd.rstrip('/') + '/' + path
        if full == ROOT or full.startswith(ROOT + '/'):
            return True, full
        norm = posixpath.normpath(full)
        if norm == ROOT or norm.startswith(ROOT + '/'):
            return True, norm
        return False, full

    def escape(self, what, path):
        self.chan.call('escape', what, str(path))
        raise OSError(errno.EROFS, os.strerror(errno.EROFS), str(path))

    # -- open ------------------------------------------------------------------------------------

    def sim_open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True,
                 opener=None):
        chan = self.chan
        if not isinstance(mode, str):
            raise TypeError('open() argument mode must be str')
        flags_set = set(mode)
        if flags_set - set('rwxabt+') or len(mode) > len(flags_set):
            raise ValueError('invalid mode: {!r}'.format(mode))
        binary = 'b' in flags_set
        if 't' in flags_set and binary:
            raise ValueError("can't have text and binary mode at once")
        if len(flags_set & set('rwxa')) != 1:
            raise ValueError('must have exactly one of create/read/write/append mode')
        if binary and encoding is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        if binary and errors is not None:
            raise ValueError("binary mode doesn't take an errors argument")
        if binary and newline is not None:
            raise ValueError("binary mode doesn't take a newline argument")
        updating = '+' in flags_set
        if 'r' in flags_set:
            flags = os.O_RDONLY
        elif 'w' in flags_set:
            flags = os.O_WRONLY | os.O_CREAT | os.O_TRUNC
        elif 'x' in flags_set:
            flags = os.O_WRONLY | os.O_CREAT | os.O_EXCL
        else:
            flags = os.O_WRONLY | os.O_CREAT | os.O_APPEND
        if updating:
            flags = (flags & ~(os.O_WRONLY | os.O_RDONLY)) | os.O_RDWR
        flags |= os.O_CLOEXEC
        if isinstance(file, int):
            if not (FAKE <= file or file in (0, 1, 2)):
                return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd)
            kfd = file - FAKE if file >= FAKE else file
            name = file
        else:
            simulated, path = self.resolve(file)
            if not simulated:
                if path == '/dev/null' or flags & (os.O_WRONLY | os.O_RDWR) == 0:
                    return _real_io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
                self.escape('open for writing', path)
            name = file
            if opener is not None:
                fd = opener(file, flags)
                if fd < FAKE:
                    raise HarnessError('opener returned a real descriptor')
                kfd = fd - FAKE
            else:
                kfd = chan.retry('open', path, flags, 0o666 & ~self.umask_value)
            kind = chan.call('kind', kfd)
            if kind == 'd':
                chan.call('close', kfd)
                raise OSError(errno.EISDIR, os.strerror(errno.EISDIR), str(file))
        base = 'r' if 'r' in flags_set else 'w' if 'w' in flags_set else 'x' if 'x' in flags_set else 'a'
        raw = SimRaw(chan, kfd, name, base + 'b' + ('+' if updating else ''), closefd=closefd)
        result = raw
        try:
            line_buffering = False
            if buffering == 1 and not binary:
                buffering = -1
                line_buffering = True
            if buffering < 0:
                buffering = self.cfg.get('blksize', 8192)
            if buffering == 0:
                if binary:
                    return result
                raise ValueError("can't have unbuffered text I/O")
            if updating:
                buf = io.BufferedRandom(raw, buffering)
            elif base == 'r':
                buf = io.BufferedReader(raw, buffering)
            else:
                buf = io.BufferedWriter(raw, buffering)
            result = buf
            if binary:
                return result
            if encoding is None or encoding == 'locale':
                encoding = self.encoding
            text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
            result = text
            text.mode = mode
            return result
        except BaseException:
            result.close()
            raise

    # -- installation ----------------------------------------------------------------------------

    def install(self):
        cfg = self.cfg
        chan = self.chan
        guest = self

        io.open = builtins.open = _io.open = self.sim_open
        if hasattr(io, 'open_code'):
            pass

        def kfd_of(fd):
            if isinstance(fd, int):
                if fd >= FAKE:
                    return fd - FAKE
                if fd in (0, 1, 2):
                    return fd
            return None

        def path_op(name, op, write, real=None, conv=None, retry=True):
            """Patch os.<name>(path, ...)"""
            real = real or getattr(_os, name)

            def fun(path, *args, **kwargs):
                if isinstance(path, int):
                    kfd = kfd_of(path)
                    if kfd is None:
                        if write:
                            guest.escape(name, path)
                        return real(path, *args, **kwargs)
                    if name in ('stat',):
                        return os.fstat(path)
                    if name == 'truncate':
                        return os.ftruncate(path, *args)
                    if name == 'chdir':
                        raise HarnessError('fchdir')
                    raise HarnessError('os.{} on a descriptor'.format(name))
                if kwargs.get('dir_fd') is not None:
                    raise HarnessError('dir_fd')
                simulated, full = guest.resolve(path)
                if not simulated:
                    if write:
                        guest.escape(name, full)
                    return real(path, *args, **kwargs)
                return op(full, path, *args, **kwargs)

            fun.__name__ = name
            setattr(os, name, fun)

        def call(op, full, shown, *args):
            try:
                return chan.retry(op, full, *args)
            except OSError as exc:
                raise OSError(exc.errno, exc.strerror, shown) from None

        def to_stat(t):
            mode, ino, dev, nlink, uid, gid, size, at, mt, ct, ns = t
            return os.stat_result((mode, ino, dev, nlink, uid, gid, size, at, mt, ct),
                                  {'st_atime': ns / 1e9, 'st_mtime': ns / 1e9, 'st_ctime': ns / 1e9,
                                   'st_atime_ns': ns, 'st_mtime_ns': ns, 'st_ctime_ns': ns,
                                   'st_blksize': 4096, 'st_blocks': (size + 511) // 512, 'st_rdev': 0})

        path_op('stat', lambda full, shown, follow_symlinks=True, dir_fd=None:
                to_stat(call('stat', full, shown, bool(follow_symlinks))), False)
        path_op('lstat', lambda full, shown, dir_fd=None: to_stat(call('stat', full, shown, False)), False)
        path_op('mkdir', lambda full, shown, mode=0o777, dir_fd=None:
                call('mkdir', full, shown, mode & ~guest.umask_value & 0o7777), True)
        path_op('rmdir', lambda full, shown, dir_fd=None: call('rmdir', full, shown), True)
        path_op('unlink', lambda full, shown, dir_fd=None: call('unlink', full, shown), True)
        path_op('remove', lambda full, shown, dir_fd=None: call('unlink', full, shown), True)
        path_op('listdir', lambda full, shown='.': [n for n, _, _ in call('listdir', full, shown)], False)
        path_op('readlink', lambda full, shown, dir_fd=None: call('readlink', full, shown), False)
        path_op('chmod', lambda full, shown, mode, dir_fd=None, follow_symlinks=True:
                call('chmod', full, shown, mode, bool(follow_symlinks)), True)
        path_op('chown', lambda full, shown, uid, gid, dir_fd=None, follow_symlinks=True:
                call('chown', full, shown), True)
        path_op('utime', lambda full, shown, times=None, ns=None, dir_fd=None, follow_symlinks=True:
                call('utime', full, shown, int(ns[1] if ns else times[1] * 1e9) if (ns or times) else None), True)
        path_op('truncate', lambda full, shown, length: call('truncate', full, shown, length), True)
        path_op('access', lambda full, shown, mode, dir_fd=None, effective_ids=False, follow_symlinks=True:
                bool(chan.call('access', full, mode)), False)
        path_op('statvfs', lambda full, shown: guest._unsupported('statvfs'), False)
        path_op('mkfifo', lambda full, shown, *a, **k: guest._unsupported('mkfifo'), True)
        path_op('mknod', lambda full, shown, *a, **k: guest._unsupported('mknod'), True)

        def chdir(full, shown):
            st = to_stat(call('stat', full, shown, True))
            if not stat_mod.S_ISDIR(st.st_mode):
                raise OSError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), shown)
            guest.cwd = chan.call('canonical', full)

        path_op('chdir', chdir, False)
        os.getcwd = lambda: guest.cwd
        os.getcwdb = lambda: os.fsencode(guest.cwd)

        listdir_patched = os.listdir

        def listdir(path='.'):
            return listdir_patched(path)

        os.listdir = listdir

        class DirEntry:
            __slots__ = ('name', 'path', '_kind', '_ino')

            def __init__(self, name, path, kind, ino):
                self.name, self.path, self._kind, self._ino = name, path, kind, ino

            def inode(self):
                return self._ino

            def stat(self, *, follow_symlinks=True):
                return os.stat(self.path, follow_symlinks=follow_symlinks)

            def is_symlink(self):
                return self._kind == 'l'

            def _is(self, kind, follow):
                if self._kind == 'l' and follow:
                    try:
                        mode = os.stat(self.path).st_mode
                    except FileNotFoundError:
                        return False
                    return (stat_mod.S_ISDIR if kind == 'd' else stat_mod.S_ISREG)(mode)
                return self._kind == kind

            def is_dir(self, *, follow_symlinks=True):
                return self._is('d', follow_symlinks)

            def is_file(self, *, follow_symlinks=True):
                return self._is('f', follow_symlinks)

            def __fspath__(self):
                return self.path

        class Scan:
            def __init__(self, entries):
                self._it = iter(entries)

            def __iter__(self):
                return self

            def __next__(self):
                return next(self._it)

            def __enter__(self):
                return self

            def __exit__(self, *args):
                return None

            def close(self):
                return None

        def scandir(path='.'):
            if isinstance(path, int):
                raise HarnessError('scandir on a descriptor')
            simulated, full = guest.resolve(path)
            if not simulated:
                return _os.scandir(path)
            shown = os.fspath(path)
            return Scan([DirEntry(n, posixpath.join(shown, n), k, i) for n, k, i in call('listdir', full, shown)])

        os.scandir = scandir

        def two(op):
            def fun(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
                s1, a = guest.resolve(src)
                s2, b = guest.resolve(dst)
                if not s1 and not s2:
                    guest.escape(op, b)
                if s1 != s2:
                    if not s2 and op != 'link':
                        guest.escape(op, b)
                    raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), str(src))
                try:
                    return chan.retry(op, a, b)
                except OSError as exc:
                    raise OSError(exc.errno, exc.strerror, src, None, dst) from None

            return fun

        os.rename = two('rename')
        os.replace = two('rename')
        os.link = two('link')

        def symlink(src, dst, target_is_directory=False, *, dir_fd=None):
            s2, b = guest.resolve(dst)
            if not s2:
                guest.escape('symlink', b)
            return chan.retry('symlink', os.fspath(src), b)

        os.symlink = symlink

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            if dir_fd is not None:
                raise HarnessError('dir_fd')
            simulated, full = guest.resolve(path)
            if not simulated:
                if full == '/dev/null' or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                    return _os.open(path, flags, mode)
                guest.escape('open for writing', full)
            return FAKE + call('open', full, path, flags, mode & ~guest.umask_value & 0o7777)

        os.open = os_open

        def fd_op(name, op, conv=None):
            real = getattr(_os, name, None)

            def fun(fd, *args):
                kfd = kfd_of(fd)
                if kfd is None:
                    return real(fd, *args)
                return op(kfd, *args)

            fun.__name__ = name
            setattr(os, name, fun)

        fd_op('read', lambda k, n: bytes(chan.retry('read', k, n)))
        fd_op('write', lambda k, data: chan.retry('write', k, bytes(data)))
        fd_op('close', lambda k: chan.call('close', k))
        fd_op('lseek', lambda k, pos, how: chan.retry('lseek', k, pos, how))
        fd_op('fstat', lambda k: to_stat(chan.retry('fstat', k)))
        fd_op('fsync', lambda k: chan.retry('fsync', k))
        fd_op('fdatasync', lambda k: chan.retry('fsync', k))
        fd_op('ftruncate', lambda k, n: chan.retry('ftruncate', k, n))
        fd_op('fchmod', lambda k, m: chan.retry('fchmod', k, m))
        fd_op('isatty', lambda k: False)
        fd_op('get_inheritable', lambda k: False)
        fd_op('set_inheritable', lambda k, v: None)
        fd_op('posix_fallocate', lambda k, off, n: guest._fallocate(k, off, n))
        fd_op('pread', lambda k, n, off: bytes(chan.retry('pread', k, n, off)))
        fd_op('pwrite', lambda k, data, off: chan.retry('pwrite', k, bytes(data), off))
        fd_op('writev', lambda k, bufs: chan.retry('write', k, b''.join(bytes(b) for b in bufs)))
        fd_op('dup', lambda k: guest._unsupported('dup'))
        fd_op('sendfile', lambda k, *a: guest._unsupported('sendfile'))
        os.sync = lambda: chan.call('sync')
        os.umask = self._umask
        os.fdopen = lambda fd, mode='r', buffering=-1, encoding=None, *a, **k: \
            io.open(fd, mode, buffering, encoding, *a, **k)
        shutil._USE_CP_SENDFILE = False
        shutil._use_fd_functions = False

        def flock(fd, operation):
            kfd = kfd_of(fd if isinstance(fd, int) else fd.fileno())
            if kfd is None:
                raise HarnessError('flock on a real descriptor')
            return chan.retry('flock', kfd, operation)

        fcntl.flock = flock
        fcntl.lockf = lambda fd, cmd, *a: flock(fd, cmd)

        # -- identity, environment, randomness, time ----------------------------------------------
        seed = cfg.get('seed', 0)
        os.getpid = lambda: cfg.get('pid', 4242)
        os.getppid = lambda: 1
        os.getuid = os.geteuid = lambda: 1000
        os.getlogin = lambda: cfg.get('user', 'sim')
        os.uname = lambda: os.uname_result(('Linux', cfg.get('host', 'simhost'), '6.0', '#1', 'x86_64'))
        os.cpu_count = lambda: cfg.get('cpus', 4)
        socket.gethostname = lambda: cfg.get('host', 'simhost')
        environ = {'HOME': ROOT + '/home', 'TMPDIR': ROOT + '/tmp', 'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8'}
        environ.update(cfg.get('env', {}))
        os.environ.clear()
        os.environ.update(environ)
        self.watch_environ()
        tempfile.tempdir = None
        names = random_mod.Random(seed * 7 + 1)
        tempfile._name_sequence = iter(
            lambda: ''.join(names.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(8)), None)
        urandom_rng = random_mod.Random(seed * 7 + 2)

        def urandom(n):
            return bytes(urandom_rng.getrandbits(8) for _ in range(n))

        os.urandom = urandom
        random_mod._urandom = urandom
        random_mod.seed(seed * 7 + 3)

        class SeededRandom(random_mod.Random):
            def __init__(self, x=None):
                super().__init__(urandom(16) if x is None else x)

        random_mod.Random = SeededRandom

        start = cfg.get('clock_ns', 1_700_000_000 * 10**9)

        def now_ns():
            return start + chan.now_ns

        time_mod.time = lambda: now_ns() / 1e9
        time_mod.time_ns = now_ns
        time_mod.monotonic = lambda: chan.now_ns / 1e9
        time_mod.monotonic_ns = lambda: chan.now_ns
        time_mod.perf_counter = lambda: chan.now_ns / 1e9
        time_mod.perf_counter_ns = lambda: chan.now_ns
        time_mod.process_time = lambda: chan.now_ns / 1e9

        def sleep(seconds):
            chan.call('sleep', int(seconds * 1e9))

        time_mod.sleep = sleep
        real_gmtime, real_localtime = time_mod.gmtime, time_mod.localtime
        real_strftime, real_ctime = time_mod.strftime, time_mod.ctime
        time_mod.gmtime = lambda secs=None: real_gmtime(time_mod.time() if secs is None else secs)
        time_mod.localtime = lambda secs=None: real_localtime(time_mod.time() if secs is None else secs)
        time_mod.strftime = lambda fmt, t=None: real_strftime(fmt, time_mod.localtime() if t is None else t)
        time_mod.ctime = lambda secs=None: real_ctime(time_mod.time() if secs is None else secs)
        time_mod.asctime = (lambda real: lambda t=None: real(time_mod.localtime() if t is None else t))(
            time_mod.asctime)
        if 'tz' in cfg:
            os.environ['TZ'] = cfg['tz']
            time_mod.tzset()

        real_dt, real_date = datetime_mod.datetime, datetime_mod.date

        class MetaDate(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, real_date if cls is SimDate else real_dt)

            def __subclasscheck__(cls, sub):
                return issubclass(sub, real_date if cls is SimDate else real_dt)

        class SimDate(real_date, metaclass=MetaDate):
            @classmethod
            def today(cls):
                t = time_mod.localtime()
                return real_date(t.tm_year, t.tm_mon, t.tm_mday)

        class SimDatetime(real_dt, metaclass=MetaDate):
            @classmethod
            def now(cls, tz=None):
                return real_dt.fromtimestamp(time_mod.time(), tz)

            @classmethod
            def today(cls):
                return real_dt.fromtimestamp(time_mod.time())

            @classmethod
            def utcnow(cls):
                t = time_mod.gmtime()
                return real_dt(*t[:6])

        datetime_mod.datetime, datetime_mod.date = SimDatetime, SimDate

        enc = self.encoding
        locale.getpreferredencoding = lambda do_setlocale=True: enc
        if hasattr(locale, 'getencoding'):
            locale.getencoding = lambda: enc

        self.patch_identity(cfg.get('idseed', 1), cfg.get('idreuse'))

        sys.stdin = io.TextIOWrapper(io.BufferedReader(SimRaw(chan, 0, '<stdin>', 'rb')), encoding=enc)
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(SimRaw(chan, 1, '<stdout>', 'wb')), encoding='utf-8',
                                      errors='backslashreplace',
                                      line_buffering=cfg.get('stdout_line_buffered', False))
        sys.stderr = io.TextIOWrapper(io.BufferedWriter(SimRaw(chan, 2, '<stderr>', 'wb')), encoding='utf-8',
                                      errors='backslashreplace', line_buffering=True)
        sys.__stdout__, sys.__stderr__, sys.__stdin__ = sys.stdout, sys.stderr, sys.stdin

        sys.addaudithook(self.audit)

    def _unsupported(self, what):
        raise HarnessError(what)

    def _fallocate(self, kfd, off, n):
        size = self.chan.retry('fstat', kfd)[6]
        if off + n > size:
            self.chan.retry('ftruncate', kfd, off + n)

    def _umask(self, value):
        old, self.umask_value = self.umask_value, value
        return old

    _MUTATING_EVENTS = frozenset(
        ['os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.link',
         'os.symlink', 'os.utime', 'os.setxattr'])
    _PROCESS_EVENTS = frozenset(
        ['subprocess.Popen', 'os.system', 'os.posix_spawn', 'os.exec', 'os.fork', 'os.spawn', 'socket.connect',
         'socket.bind', 'os.forkpty', 'os.kill'])

    def audit(self, event, args):
        """Catch effects that would reach the real machine beside the seams."""
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, int) or flags is None:
                return
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and path != '/dev/null':
                self.escape('real open for writing', path)
        elif event in self._MUTATING_EVENTS:
            self.escape(event, args[0])
        elif event in self._PROCESS_EVENTS:
            self.escape(event, args[0] if args else '')

    def watch_environ(self):
        """Record the variables which mapry asks for and which are not set."""
        asked = self.asked = set()
        package = os.path.join(REPO, 'mapry') + os.sep
        passing = (os.__file__, _abc_file)

        class Environ(type(os.environ)):
            def __getitem__(self, key):
                try:
                    return super().__getitem__(key)
                except KeyError:
                    frame = sys._getframe(1)
                    while frame is not None and (frame.f_code.co_filename in passing
                                                 or frame.f_code.co_filename.startswith('<frozen')):
                        frame = frame.f_back
                    if frame is not None and isinstance(key, str) \
                            and frame.f_code.co_filename.startswith((package, '<template>')):
                        asked.add(key)
                    raise

        os.environ.__class__ = Environ

    def patch_identity(self, seed, reuse=None):
        """
        Replace address-based hashes and identities by reproducible, seed-dependent ones.

        With ``reuse``, an object of mapry that was freed leaves its number to a later object of the same type, as
        memory allocators do. The collector then runs between the runs of the process only.
        """
        known = {}
        freed = {}
        count = [0]
        mask = (1 << 47) - 1
        rng = random_mod.Random('%r reuse %r' % (reuse, seed))
        if reuse is not None:
            gc.disable()
            gc.freeze()

        real_id = builtins.id

        def number(obj):
            key = real_id(obj)
            entry = known.get(key)
            if entry is not None:
                return entry[0]
            kind = type(obj)
            recyclable = reuse is not None and kind.__module__.split('.')[0] == 'mapry'
            free = freed.get(kind) if recyclable else None
            if free and rng.random() < 0.8:
                value = free.pop(rng.randrange(len(free)))
            else:
                count[0] += 1
                value = ((count[0] * 0x9E3779B97F4A7C15 ^ seed * 0xD1B54A32D192ED03) * 0xBF58476D1CE4E5B9 >> 3) & mask
            if recyclable:
                def forget(_, key=key, kind=kind, value=value):
                    known.pop(key, None)
                    bisect.insort(freed.setdefault(kind, []), value)

                known[key] = (value, weakref.ref(obj, forget))
            else:
                known[key] = (value, obj)
            return value

        def stable_hash(self):
            return number(self) >> 4

        for name, module in list(sys.modules.items()):
            if name == 'mapry' or name.startswith('mapry.'):
                for cls in list(vars(module).values()):
                    if isinstance(cls, type) and cls.__module__.startswith('mapry') \
                            and not issubclass(cls, BaseException) and '__hash__' not in vars(cls) \
                            and cls.__hash__ is object.__hash__:
                        cls.__hash__ = stable_hash
        builtins.id = lambda obj, /: number(obj)

    # -- interrupts ------------------------------------------------------------------------------

    def trace_lines(self, in_scope, generating, at=None, action=None):
        """
        Count line events of frames accepted by ``in_scope`` and act at number ``at``.

        ``gen_lines`` is the count at the last line that belongs to a frame accepted by ``generating``.
        """
        chan = self.chan
        kinds = {}

        def local(frame, event, arg):
            if event == 'line':
                chan.lines += 1
                if kinds[frame.f_code] == 2:
                    chan.gen_lines = chan.lines
                if chan.lines == at:
                    sys.settrace(None)
                    action()
            return local

        def glob(frame, event, arg):
            code = frame.f_code
            kind = kinds.get(code)
            if kind is None:
                kind = (2 if generating(code.co_filename) else 1) if in_scope(code.co_filename) else 0
                kinds[code] = kind
            return local if kind else None

        sys.settrace(glob)
