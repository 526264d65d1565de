"""
In-memory file system of the simulated machine.

It keeps two states per inode: what a process sees (the page cache) and what has been made durable.
All operations raise OSError with the errno a Linux kernel would give.
"""
import errno
import os
import posixpath
import random
import stat as stat_mod

O_ACC = os.O_RDONLY | os.O_WRONLY | os.O_RDWR


def err(code, path=None):
    if path is None:
        return OSError(code, os.strerror(code))
    return OSError(code, os.strerror(code), path)


class Inode:
    __slots__ = ('kind', 'mode', 'data', 'entries', 'target', 'ino', 'durable', 'mtime', 'nlink', 'locks')

    def __init__(self, kind, mode, ino, mtime):
        self.kind = kind
        self.mode = mode
        self.data = bytearray() if kind == 'f' else None
        self.entries = {} if kind == 'd' else None
        self.target = None
        self.ino = ino
        self.durable = None  # bytes for a file, dict for a directory; None: nothing durable
        self.mtime = mtime
        self.nlink = 1
        self.locks = []


class VFS:
    def __init__(self, capacity=None):
        self._next_ino = 2
        self.now_ns = 0
        self.capacity = capacity
        self.root = self._new('d', 0o755)
        self.root.durable = {}

    # -- helpers ---------------------------------------------------------------------------------

    def _new(self, kind, mode):
        ino = self._next_ino
        self._next_ino += 1
        return Inode(kind, mode, ino, self.now_ns)

    def used(self):
        seen = set()
        total = 0
        stack = [self.root]
        while stack:
            node = stack.pop()
            if node.ino in seen:
                continue
            seen.add(node.ino)
            if node.kind == 'f':
                total += len(node.data)
            elif node.kind == 'd':
                stack.extend(node.entries.values())
        return total

    def walk(self, path, follow=True, parent=False, _depth=0):
        """Resolve an absolute path to an inode, or to (directory inode, last name) with ``parent``."""
        if _depth > 40:
            raise err(errno.ELOOP, path)
        if not path:
            raise err(errno.ENOENT, path)
        if '\0' in path:
            raise ValueError('embedded null byte')
        assert path.startswith('/'), path
        parts = [p for p in path.split('/') if p not in ('', '.')]
        stack = [self.root]
        names = []
        i = 0
        while i < len(parts):
            name = parts[i]
            node = stack[-1]
            last = i == len(parts) - 1
            if node.kind != 'd':
                raise err(errno.ENOTDIR, path)
            if len(name.encode('utf-8', 'surrogateescape')) > 255:
                raise err(errno.ENAMETOOLONG, path)
            if not node.mode & 0o100:
                raise err(errno.EACCES, path)
            if name == '..':
                if len(stack) > 1:
                    stack.pop()
                    names.pop()
                i += 1
                continue
            if parent and last:
                return node, name
            child = node.entries.get(name)
            if child is None:
                raise err(errno.ENOENT, path)
            if child.kind == 'l' and (follow or not last):
                target = child.target
                if not target.startswith('/'):
                    target = '/' + '/'.join(names + [target])
                rest = '/'.join(parts[i + 1:])
                whole = posixpath.join(target, rest) if rest else target
                return self.walk(whole, follow=follow, parent=parent, _depth=_depth + 1)
            stack.append(child)
            names.append(name)
            i += 1
        if parent:
            raise err(errno.EEXIST if parts else errno.EBUSY, path)
        if path.endswith('/') and stack[-1].kind != 'd':
            raise err(errno.ENOTDIR, path)
        return stack[-1]

    def canonical(self, path, _depth=0):
        """Absolute path with all symbolic links of the existing part resolved."""
        if _depth > 40:
            return path
        parts = [p for p in path.split('/') if p not in ('', '.')]
        out = []
        node = self.root
        for i, name in enumerate(parts):
            if name == '..':
                if out:
                    out.pop()
                try:
                    node = self.walk('/' + '/'.join(out))
                except OSError:
                    node = None
                continue
            child = node.entries.get(name) if node is not None and node.kind == 'd' else None
            if child is not None and child.kind == 'l':
                target = child.target
                if not target.startswith('/'):
                    target = '/' + '/'.join(out + [target])
                return self.canonical('/'.join([target] + parts[i + 1:]), _depth + 1)
            out.append(name)
            node = child
        return '/' + '/'.join(out)

    # -- operations ------------------------------------------------------------------------------

    def stat_tuple(self, node):
        kinds = {'f': stat_mod.S_IFREG, 'd': stat_mod.S_IFDIR, 'l': stat_mod.S_IFLNK}
        size = len(node.data) if node.kind == 'f' else (4096 if node.kind == 'd' else len(node.target))
        sec = node.mtime // 10**9
        return (kinds[node.kind] | node.mode, node.ino, 77, node.nlink, 1000, 1000, size, sec, sec, sec,
                node.mtime)

    def stat(self, path, follow=True):
        return self.stat_tuple(self.walk(path, follow=follow))

    def create(self, path, mode, excl=False):
        directory, name = self.walk(path, parent=True)
        if name in directory.entries:
            raise err(errno.EEXIST, path)
        if not directory.mode & 0o200:
            raise err(errno.EACCES, path)
        node = self._new('f', mode)
        directory.entries[name] = node
        directory.mtime = self.now_ns
        return node

    def open(self, path, flags, mode):
        acc = flags & O_ACC
        if path.endswith('/') and flags & os.O_CREAT:
            raise err(errno.EISDIR, path)
        try:
            node = self.walk(path, follow=not (flags & os.O_NOFOLLOW or
                                               (flags & os.O_CREAT and flags & os.O_EXCL)))
        except FileNotFoundError:
            if not flags & os.O_CREAT:
                raise
            target = self._dangling(path)
            return self.create(target, mode)
        if flags & os.O_CREAT and flags & os.O_EXCL:
            raise err(errno.EEXIST, path)
        if node.kind == 'l':
            raise err(errno.ELOOP, path)
        if node.kind == 'd':
            if acc != os.O_RDONLY or flags & os.O_CREAT:
                raise err(errno.EISDIR, path)
            if not node.mode & 0o400:
                raise err(errno.EACCES, path)
            return node
        if flags & os.O_DIRECTORY:
            raise err(errno.ENOTDIR, path)
        if acc in (os.O_RDONLY, os.O_RDWR) and not node.mode & 0o400:
            raise err(errno.EACCES, path)
        if acc in (os.O_WRONLY, os.O_RDWR) and not node.mode & 0o200:
            raise err(errno.EACCES, path)
        if flags & os.O_TRUNC and acc != os.O_RDONLY:
            del node.data[:]
            node.mtime = self.now_ns
        return node

    def _dangling(self, path):
        """Target of a dangling symbolic link (for O_CREAT), or the path itself."""
        directory, name = self.walk(path, parent=True)
        node = directory.entries.get(name)
        if node is None:
            return path
        if node.kind == 'l':
            canon = self.canonical(path)
            if canon == path:
                raise err(errno.ELOOP, path)
            return canon
        return path

    def write(self, node, offset, data):
        if self.capacity is not None:
            grow = max(0, offset + len(data) - len(node.data))
            free = self.capacity - self.used()
            if grow > free:
                allowed = len(data) - (grow - max(0, free))
                if allowed <= 0:
                    raise err(errno.ENOSPC)
                data = data[:allowed]
        if offset > len(node.data):
            node.data.extend(b'\0' * (offset - len(node.data)))
        node.data[offset:offset + len(data)] = data
        node.mtime = self.now_ns
        return len(data)

    def truncate(self, node, size):
        if size < len(node.data):
            del node.data[size:]
        else:
            node.data.extend(b'\0' * (size - len(node.data)))
        node.mtime = self.now_ns

    def fsync(self, node):
        if node.kind == 'f':
            node.durable = bytes(node.data)
        else:
            node.durable = dict(node.entries)

    def mkdir(self, path, mode):
        path = path.rstrip('/') or '/'
        if path == '/':
            raise err(errno.EEXIST, path)
        directory, name = self.walk(path, parent=True)
        if name in directory.entries:
            raise err(errno.EEXIST, path)
        if not directory.mode & 0o200:
            raise err(errno.EACCES, path)
        node = self._new('d', mode)
        directory.entries[name] = node
        directory.mtime = self.now_ns

    def _remove_entry(self, path, want_dir):
        directory, name = self.walk(path.rstrip('/') if want_dir else path, parent=True)
        node = directory.entries.get(name)
        if node is None:
            raise err(errno.ENOENT, path)
        if want_dir:
            if node.kind != 'd':
                raise err(errno.ENOTDIR, path)
            if node.entries:
                raise err(errno.ENOTEMPTY, path)
        elif node.kind == 'd':
            raise err(errno.EISDIR, path)
        if not directory.mode & 0o200:
            raise err(errno.EACCES, path)
        del directory.entries[name]
        node.nlink -= 1
        directory.mtime = self.now_ns

    def unlink(self, path):
        self._remove_entry(path, want_dir=False)

    def rmdir(self, path):
        self._remove_entry(path, want_dir=True)

    def rename(self, src, dst):
        sdir, sname = self.walk(src.rstrip('/'), parent=True)
        node = sdir.entries.get(sname)
        if node is None:
            raise err(errno.ENOENT, src)
        ddir, dname = self.walk(dst.rstrip('/'), parent=True)
        for directory in (sdir, ddir):
            if not directory.mode & 0o200:
                raise err(errno.EACCES, src)
        old = ddir.entries.get(dname)
        if old is node:
            return
        if old is not None:
            if old.kind == 'd':
                if node.kind != 'd':
                    raise err(errno.EISDIR, dst)
                if old.entries:
                    raise err(errno.ENOTEMPTY, dst)
            elif node.kind == 'd':
                raise err(errno.ENOTDIR, dst)
        del sdir.entries[sname]
        ddir.entries[dname] = node
        sdir.mtime = ddir.mtime = self.now_ns

    def link(self, src, dst):
        node = self.walk(src, follow=False)
        directory, name = self.walk(dst, parent=True)
        if name in directory.entries:
            raise err(errno.EEXIST, dst)
        if not directory.mode & 0o200:
            raise err(errno.EACCES, dst)
        directory.entries[name] = node
        node.nlink += 1

    def symlink(self, target, path):
        directory, name = self.walk(path, parent=True)
        if name in directory.entries:
            raise err(errno.EEXIST, path)
        if not directory.mode & 0o200:
            raise err(errno.EACCES, path)
        node = self._new('l', 0o777)
        node.target = target
        directory.entries[name] = node

    def readlink(self, path):
        node = self.walk(path, follow=False)
        if node.kind != 'l':
            raise err(errno.EINVAL, path)
        return node.target

    def listdir(self, path):
        node = self.walk(path)
        if node.kind != 'd':
            raise err(errno.ENOTDIR, path)
        if not node.mode & 0o400:
            raise err(errno.EACCES, path)
        return [(name, child.kind, child.ino) for name, child in node.entries.items()]

    def chmod(self, path, mode, follow=True):
        self.walk(path, follow=follow).mode = mode & 0o7777

    # -- whole trees -----------------------------------------------------------------------------

    def put(self, path, data=None, mode=None, target=None):
        """Place an entry (and its parents) as durable initial content."""
        parts = [p for p in path.split('/') if p]
        node = self.root
        for name in parts[:-1]:
            child = node.entries.get(name)
            if child is None:
                child = self._new('d', 0o755)
                node.entries[name] = child
            node = child
        name = parts[-1]
        if target is not None:
            new = self._new('l', 0o777)
            new.target = target
        elif data is None:
            new = node.entries.get(name)
            if new is None or new.kind != 'd':
                new = self._new('d', 0o755)
        else:
            new = node.entries.get(name)
            if new is None or new.kind != 'f':
                new = self._new('f', 0o644)
            new.data = bytearray(data)
        if mode is not None:
            new.mode = mode
        node.entries[name] = new
        return new

    def make_durable(self):
        seen = set()
        stack = [self.root]
        while stack:
            node = stack.pop()
            if node.ino in seen:
                continue
            seen.add(node.ino)
            if node.kind != 'l':
                self.fsync(node)
            if node.kind == 'd':
                stack.extend(node.entries.values())

    def snapshot(self):
        """Every entry: path -> (kind, mode, content)."""
        out = {}
        stack = [('', self.root)]
        while stack:
            path, node = stack.pop()
            if node.kind == 'd':
                out[path or '/'] = ('d', node.mode, None)
                for name, child in node.entries.items():
                    stack.append((path + '/' + name, child))
            elif node.kind == 'f':
                out[path] = ('f', node.mode, bytes(node.data))
            else:
                out[path] = ('l', node.mode, node.target)
        return out

    def power_loss(self, seed):
        """Drop what is not durable; what a disk may keep of it is drawn from ``seed``."""
        rng = random.Random(seed)
        counts = {}

        def count(kind):
            counts[kind] = counts.get(kind, 0) + 1

        seen = set()

        def visit(node):
            if node.ino in seen:
                return
            seen.add(node.ino)
            if node.kind == 'd':
                durable = node.durable or {}
                entries = {}
                for name in sorted(set(durable) | set(node.entries)):
                    now, old = node.entries.get(name), durable.get(name)
                    if now is old:
                        keep = now
                    else:
                        keep = now if rng.random() < 0.6 else old
                        if keep is not now:
                            count('lost-entry')
                    if keep is not None:
                        entries[name] = keep
                node.entries = entries
                for name in sorted(entries):
                    visit(entries[name])
            elif node.kind == 'f':
                old = node.durable if node.durable is not None else b''
                if bytes(node.data) != old:
                    now = bytes(node.data)
                    pick = rng.choice(['now', 'old', 'empty', 'prefix', 'zeros', 'mix', 'bitrot'])
                    count('data-' + pick)
                    if pick == 'old':
                        now = old
                    elif pick == 'empty':
                        now = b''
                    elif pick == 'prefix':
                        now = now[:rng.randrange(len(now) + 1)]
                    elif pick == 'zeros':
                        cut = rng.randrange(len(now) + 1)
                        now = now[:cut] + b'\0' * (len(now) - cut)
                    elif pick == 'mix':
                        cut = rng.randrange(len(now) + 1)
                        now = now[:cut] + old[cut:]
                    elif pick == 'bitrot' and now:
                        blob = bytearray(now)
                        for _ in range(rng.randint(1, 4)):
                            blob[rng.randrange(len(blob))] ^= 1 << rng.randrange(8)
                        now = bytes(blob)
                    node.data = bytearray(now)

        visit(self.root)
        self.make_durable()
        return counts
