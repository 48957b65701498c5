"""In-memory POSIX-like file system of the simulator.

Process crash semantics: what reached write(2) survives, what sits in a Python buffer of
the killed process does not.  Time stamps come from the simulated clock, rounded to the
run's time-stamp granularity.
"""
import errno
import os
import stat as _stat
import zlib

from core import SimKilled, HarnessError, NS

LOCK_SH, LOCK_EX, LOCK_NB, LOCK_UN = 1, 2, 4, 8


def hash32(s):
    return zlib.crc32(s.encode('utf-8', 'surrogateescape'))


def oserr(code, path=None, path2=None):
    if path2 is not None:
        return OSError(code, os.strerror(code), path, None, path2)
    return OSError(code, os.strerror(code), path)


class Inode(object):
    __slots__ = ('ino', 'kind', 'data', 'ents', 'mtime', 'ctime', 'mode', 'nlink', 'ro', 'locks',
                 'target', 'tag', 'uid')

    def __init__(self, ino, kind, mode, now):
        self.ino, self.kind, self.mode = ino, kind, mode
        self.data = bytearray() if kind == 'f' else None
        self.ents = {} if kind == 'd' else None
        self.mtime = self.ctime = now
        self.nlink = 1
        self.ro = False
        self.locks = {}       # owner -> LOCK_SH/LOCK_EX
        self.target = None
        self.tag = None


class OFD(object):
    """Open file description."""
    __slots__ = ('inode', 'pos', 'readable', 'writable', 'append', 'path', 'refs', 'wrote')

    def __init__(self, inode, readable, writable, append, path):
        self.inode, self.readable, self.writable = inode, readable, writable
        self.append, self.path = append, path
        self.pos = 0
        self.refs = 1
        self.wrote = False


class SimFS(object):
    def __init__(self, sim, granularity=1):
        self.sim = sim
        self.gran = granularity
        self.next_ino = 100
        self.root = self._new('d', 0o755)
        self.fs_hooks = []       # callable(sim, op, path, inode)
        self.ro_prefixes, self.rw_prefixes = [], []
        self.ro_errno = errno.EROFS
        self.listing = None
        self.capacity = None
        self.nolock_prefixes = ()

    # ------------------------------------------------------------- helpers
    def stamp(self):
        n = self.sim.now
        return n - n % self.gran

    def _new(self, kind, mode):
        self.next_ino += 1
        return Inode(self.next_ino, kind, mode, self.stamp())

    @staticmethod
    def split(path):
        return [c for c in path.split('/') if c and c != '.']

    def walk_to(self, path, follow=True, depth=0):
        """Return (parent inode, name, inode or None) for an absolute path."""
        if depth > 20:
            raise oserr(errno.ELOOP, path)
        if not path:
            raise oserr(errno.ENOENT, path)
        comps = self.split(path)
        node, stack = self.root, []
        parent, name = None, ''
        i = 0
        while i < len(comps):
            c = comps[i]
            if node.kind != 'd':
                raise oserr(errno.ENOTDIR, path)
            if c == '..':
                node = stack.pop() if stack else self.root
                parent, name = (stack[-1] if stack else None), '..'
                i += 1
                continue
            child = node.ents.get(c)
            last = i == len(comps) - 1
            if len(c.encode('utf-8', 'surrogateescape')) > 255:
                raise oserr(errno.ENAMETOOLONG, path)
            if child is None:
                if last:
                    return node, c, None
                raise oserr(errno.ENOENT, path)
            if child.kind == 'l' and (follow or not last):
                t = child.target
                base = '/' + '/'.join(comps[:i])
                full = t if t.startswith('/') else base + '/' + t
                full = full + '/' + '/'.join(comps[i + 1:])
                return self.walk_to(full, follow, depth + 1)
            parent, name = node, c
            stack.append(node)
            node = child
            i += 1
        return parent, name, node

    def lookup(self, path, follow=True):
        n = self.walk_to(path, follow)[2]
        if n is None:
            raise oserr(errno.ENOENT, path)
        if path.endswith('/') and n.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        return n

    # -------------------------------------------------- set-up / inspection (no simulator step)
    def put(self, path, data, mtime=None, mode=0o644, ro=False):
        comps = self.split(path)
        node = self.root
        for c in comps[:-1]:
            if c not in node.ents:
                node.ents[c] = self._new('d', 0o755)
                node.ents[c].ro = ro
            node = node.ents[c]
        f = node.ents.get(comps[-1])
        if f is None:
            f = node.ents[comps[-1]] = self._new('f', mode)
        f.data = bytearray(data if isinstance(data, (bytes, bytearray)) else data.encode())
        f.mtime = self.stamp() if mtime is None else mtime
        f.ro = ro
        f.mode = mode
        return f

    def mkdirs(self, path):
        node = self.root
        for c in self.split(path):
            if c not in node.ents:
                node.ents[c] = self._new('d', 0o755)
            node = node.ents[c]
        return node

    def link(self, path, target):
        d, _, n = path.rpartition('/')
        self.mkdirs(d)
        l = self.lookup(d).ents[n] = self._new('l', 0o777)
        l.target = target

    def islink(self, path):
        try:
            return self.lookup(path, follow=False).kind == 'l'
        except OSError:
            return False

    def get(self, path):
        try:
            n = self.lookup(path)
        except OSError:
            return None
        return bytes(n.data) if n.kind == 'f' else None

    def exists(self, path):
        try:
            self.lookup(path)
            return True
        except OSError:
            return False

    def tree(self, path='/', skip_ro=True):
        """Sorted list of (path, kind, bytes) below *path*."""
        out = []

        def rec(p, n):
            if n.ro and skip_ro:
                return
            if n.kind == 'd':
                if p != path:
                    out.append((p, 'd', b''))
                for k in sorted(n.ents):
                    rec(p.rstrip('/') + '/' + k, n.ents[k])
            elif n.kind == 'f':
                out.append((p, 'f', bytes(n.data)))
        try:
            n = self.lookup(path)
        except OSError:
            return out
        rec(path, n)
        return out


class Sys(object):
    """System call interface of one simulated process."""

    def __init__(self, sim, fs, proc, cwd, environ, argv=()):
        self.sim, self.fs, self.p = sim, fs, proc
        self.cwd = cwd
        self.environ = environ
        self.argv = list(argv)
        self.ppid = 1
        proc.reap.append(self._reap)
        proc.close_own_fds = self.close_own_fds

    # --------------------------------------------------------------- paths
    def abs(self, path):
        if isinstance(path, int):
            raise HarnessError('fd where a path is expected')
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if '\0' in path:
            raise ValueError('embedded null byte')
        if path == '':
            raise oserr(errno.ENOENT, path)
        if not path.startswith('/'):
            path = self.cwd.rstrip('/') + '/' + path
        return path

    def is_ro(self, path):
        return any(path.startswith(x) for x in self.fs.ro_prefixes) and \
            not any(path.startswith(x) for x in self.fs.rw_prefixes)

    def enter(self, op, path, info=''):
        """One simulator step; read-only system areas do not yield (nobody can change them)."""
        return self.sim.syscall(self.p, op, path, info, yields=not self.is_ro(path))

    def note(self, op, path, inode=None, info=None):
        for h in self.fs.fs_hooks:
            h(self.p, op, path, inode, info)

    def _check_writable(self, inode, path):
        if inode is not None and inode.ro or self.is_ro(path):
            self.note('denied', path, inode)
            raise oserr(self.fs.ro_errno, path)

    # --------------------------------------------------------------- files
    def open(self, path, flags, mode=0o777):
        a = self.abs(path)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        writable = acc in (os.O_WRONLY, os.O_RDWR)
        readable = acc in (os.O_RDONLY, os.O_RDWR)
        self.enter('creat' if flags & os.O_CREAT else 'open', a, oct(flags))
        parent, name, n = self.fs.walk_to(a)
        if n is None:
            if not flags & os.O_CREAT:
                raise oserr(errno.ENOENT, path)
            if a.endswith('/'):
                raise oserr(errno.EISDIR, path)
            self._check_writable(parent, a)
            n = self.fs._new('f', mode & 0o777 & ~0o022)
            parent.ents[name] = n
            parent.mtime = self.fs.stamp()
            self.note('create', a, n)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise oserr(errno.EEXIST, path)
            if n.kind == 'd':
                if writable or flags & os.O_CREAT:
                    raise oserr(errno.EISDIR, path)
            elif writable:
                self._check_writable(n, a)
        if flags & getattr(os, 'O_DIRECTORY', 0) and n.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        ofd = OFD(n, readable, writable, bool(flags & os.O_APPEND), a)
        if flags & os.O_TRUNC and writable and n.kind == 'f':
            had = len(n.data)
            n.data = bytearray()
            n.mtime = self.fs.stamp()
            ofd.wrote = True
            self.note('truncate', a, n, had)
        self.note('open', a, n, (readable, writable))
        fd = self.p.next_fd
        self.p.next_fd += 1
        self.p.fds[fd] = ofd
        return fd

    def ofd(self, fd):
        if hasattr(fd, 'fileno'):
            fd = fd.fileno()
        try:
            return self.p.fds[fd]
        except (KeyError, TypeError):
            raise oserr(errno.EBADF)

    def read(self, fd, n):
        o = self.ofd(fd)
        if o.inode.kind == 'd':
            raise oserr(errno.EISDIR)
        if not o.readable:
            raise oserr(errno.EBADF)
        self.enter('read', o.path)
        d = bytes(o.inode.data[o.pos:o.pos + n])
        o.pos += len(d)
        self.note('read', o.path, o.inode, len(d))
        return d

    def write(self, fd, data):
        o = self.ofd(fd)
        if not o.writable:
            raise oserr(errno.EBADF)
        data = bytes(data)
        f = self.enter('write', o.path, len(data))
        die = False
        if f is not None:
            if f.kind == 'short' and len(data) > 1:
                data = data[:max(1, int(len(data) * 0.5))]
            elif f.kind == 'kill':
                data = data[:int(len(data) * f.arg)]
                die = True
        if o.append:
            o.pos = len(o.inode.data)
        if data:
            d = o.inode.data
            if o.pos > len(d):
                d.extend(b'\0' * (o.pos - len(d)))
            d[o.pos:o.pos + len(data)] = data
            o.pos += len(data)
            o.inode.mtime = self.fs.stamp()
            o.wrote = True
            self.note('write', o.path, o.inode, len(data))
        if die:
            self.sim.kill(self.p)
        return len(data)

    def lseek(self, fd, pos, how):
        o = self.ofd(fd)
        if how == 0:
            new = pos
        elif how == 1:
            new = o.pos + pos
        else:
            new = len(o.inode.data) + pos
        if new < 0:
            raise oserr(errno.EINVAL)
        o.pos = new
        return new

    def ftruncate(self, fd, size):
        o = self.ofd(fd)
        if not o.writable:
            raise oserr(errno.EINVAL)
        self.enter('write', o.path, 'trunc %d' % size)
        d = o.inode.data
        had = len(d)
        if size < len(d):
            del d[size:]
        else:
            d.extend(b'\0' * (size - len(d)))
        o.inode.mtime = self.fs.stamp()
        o.wrote = True
        self.note('truncate', o.path, o.inode, had)

    def close(self, fd):
        o = self.p.fds.pop(fd, None)
        if o is None:
            raise oserr(errno.EBADF)
        self._close_ofd(o)
        if not (self.p.killed or self.sim.stopping):
            # closing is a visible step (it releases locks), but never fails here
            self.sim.syscall(self.p, 'close', o.path, yields=not self.is_ro(o.path))

    def _close_ofd(self, o):
        o.refs -= 1
        o.inode.locks.pop(-1 - self.p.pid, None)    # POSIX record locks go on any close
        if o.refs == 0:
            o.inode.locks.pop(id(o), None)
            self.note('close', o.path, o.inode, o.wrote)

    def dup(self, fd):
        o = self.ofd(fd)
        o.refs += 1
        n = self.p.next_fd
        self.p.next_fd += 1
        self.p.fds[n] = o
        return n

    def fsync(self, fd):
        o = self.ofd(fd)
        self.enter('fsync', o.path)

    # --------------------------------------------------------------- locks
    def flock(self, fd, op, owner=None):
        o = self.ofd(fd)
        ino = o.inode
        owner = id(o) if owner is None else owner
        self.enter('flock', o.path, op)
        if any(o.path.startswith(x) for x in self.fs.nolock_prefixes):
            raise oserr(errno.ENOLCK)
        mode = op & ~LOCK_NB
        nb = bool(op & LOCK_NB)
        if mode == LOCK_UN:
            ino.locks.pop(owner, None)
            self.note('unlock', o.path, ino)
            return

        def ok():
            if mode == LOCK_SH:
                return not any(m == LOCK_EX for k, m in ino.locks.items() if k != owner)
            return not any(k != owner for k in ino.locks)
        if ino.locks.get(owner) == mode:
            return
        # Linux: converting a lock removes the old one first, then establishes the new one
        if not ok():
            if nb:
                raise oserr(errno.EWOULDBLOCK)
            ino.locks.pop(owner, None)
            self.sim.probe('flock-wait')
            self.sim.block(self.p, ok, 'flock %s %s' % ({1: 'SH', 2: 'EX'}.get(mode), o.path))
        ino.locks[owner] = mode
        self.note('lock', o.path, ino, mode)

    # --------------------------------------------------------------- name space
    def stat_of(self, n):
        kind = {'d': _stat.S_IFDIR, 'f': _stat.S_IFREG, 'l': _stat.S_IFLNK}[n.kind]
        size = len(n.data) if n.kind == 'f' else 4096
        t = n.mtime
        return os.stat_result(
            (kind | n.mode, n.ino, 1, n.nlink, 0, 0, size, t // NS, t // NS, t // NS,
             t / NS, t / NS, t / NS, t, t, t, 4096, (size + 511) // 512, 0))

    def stat(self, path, follow=True):
        if isinstance(path, int):
            return self.stat_of(self.ofd(path).inode)
        a = self.abs(path)
        self.enter('stat', a)
        try:
            n = self.fs.lookup(a, follow)
        except OSError as e:
            e.filename = path
            raise
        return self.stat_of(n)

    def access(self, path, mode):
        a = self.abs(path)
        self.enter('stat', a)
        try:
            n = self.fs.lookup(a)
        except OSError:
            return False
        if mode & os.X_OK and n.kind == 'f' and not n.mode & 0o111:
            return False
        return True

    def listdir(self, path):
        a = self.abs(path)
        self.enter('readdir', a)
        n = self.fs.lookup(a)
        if n.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        names = list(n.ents)
        if self.fs.listing is not None:      # directories list their entries in any order
            names.sort(key=lambda x: hash32('%s/%s' % (self.fs.listing, x)))
        return names

    def mkdir(self, path, mode=0o777):
        a = self.abs(path)
        self.enter('mkdir', a)
        parent, name, n = self.fs.walk_to(a.rstrip('/') or '/')
        if n is not None:
            raise oserr(errno.EEXIST, path)
        self._check_writable(parent, a)
        d = self.fs._new('d', mode & 0o777)
        parent.ents[name] = d
        parent.mtime = self.fs.stamp()
        self.note('mkdir', a, d)

    def unlink(self, path):
        a = self.abs(path)
        self.enter('unlink', a)
        parent, name, n = self.fs.walk_to(a, follow=False)
        if n is None:
            raise oserr(errno.ENOENT, path)
        if n.kind == 'd':
            raise oserr(errno.EISDIR, path)
        self._check_writable(n, a)
        del parent.ents[name]
        n.nlink -= 1
        parent.mtime = self.fs.stamp()
        self.note('unlink', a, n)

    def rmdir(self, path):
        a = self.abs(path)
        self.enter('rmdir', a)
        parent, name, n = self.fs.walk_to(a.rstrip('/'), follow=False)
        if n is None:
            raise oserr(errno.ENOENT, path)
        if n.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        if n.ents:
            raise oserr(errno.ENOTEMPTY, path)
        self._check_writable(n, a)
        del parent.ents[name]
        self.note('rmdir', a, n)

    def rename(self, src, dst):
        a, b = self.abs(src), self.abs(dst)
        self.enter('rename', a, b)
        sp, sn, s = self.fs.walk_to(a.rstrip('/'), follow=False)
        if s is None:
            raise oserr(errno.ENOENT, src, dst)
        dp, dn, d = self.fs.walk_to(b.rstrip('/'), follow=False)
        self._check_writable(s, a)
        self._check_writable(d, b)
        if d is s:
            return
        if d is not None:
            if d.kind == 'd':
                if s.kind != 'd':
                    raise oserr(errno.EISDIR, src, dst)
                if d.ents:
                    raise oserr(errno.ENOTEMPTY, src, dst)
            elif s.kind == 'd':
                raise oserr(errno.ENOTDIR, src, dst)
            d.nlink -= 1
        dp.ents[dn] = s
        del sp.ents[sn]
        self.note('rename', a, s, b)

    def link(self, src, dst):
        a, b = self.abs(src), self.abs(dst)
        self.enter('creat', b)
        s = self.fs.lookup(a)
        dp, dn, d = self.fs.walk_to(b)
        if d is not None:
            raise oserr(errno.EEXIST, src, dst)
        self._check_writable(dp, b)
        dp.ents[dn] = s
        s.nlink += 1
        self.note('create', b, s)

    def symlink(self, src, dst):
        b = self.abs(dst)
        self.enter('creat', b)
        dp, dn, d = self.fs.walk_to(b, follow=False)
        if d is not None:
            raise oserr(errno.EEXIST, src, dst)
        self._check_writable(dp, b)
        n = self.fs._new('l', 0o777)
        n.target = os.fspath(src)
        dp.ents[dn] = n
        self.note('create', b, n)

    def readlink(self, path):
        a = self.abs(path)
        n = self.fs.lookup(a, follow=False)
        if n.kind != 'l':
            raise oserr(errno.EINVAL, path)
        return n.target

    def chmod(self, path, mode):
        n = self.ofd(path).inode if isinstance(path, int) else None
        a = '' if n else self.abs(path)
        if n is None:
            self.enter('chmod', a)
            n = self.fs.lookup(a)
        self._check_writable(n, a)
        n.mode = mode & 0o7777
        self.note('chmod', a, n)

    def utime(self, path, ns=None):
        if isinstance(path, int):
            n, a = self.ofd(path).inode, ''
        else:
            a = self.abs(path)
            self.enter('utime', a)
            n = self.fs.lookup(a)
        self._check_writable(n, a)
        n.mtime = self.fs.stamp() if ns is None else ns
        self.note('utime', a, n)

    def chdir(self, path):
        a = self.abs(path)
        if self.fs.lookup(a).kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        self.cwd = os.path.normpath(a)

    # --------------------------------------------------------------- end of process
    def close_own_fds(self):
        for fd in sorted(self.p.fds):
            if fd < self.p.prog_base_fd:
                self._close_ofd(self.p.fds.pop(fd))

    def _reap(self, p):
        for fd in sorted(p.fds):
            self._close_ofd(p.fds[fd])
        p.fds.clear()
