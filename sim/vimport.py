"""Per-process module sandbox.

Every simulated process gets its own instances of the code under test (package
`kerncraft`, executed from /repo's current working tree) and of the pure-Python
standard-library modules that touch the operating system (os, posixpath, shutil,
tempfile, pathlib, argparse, zipfile, ...).  They run unmodified on top of a
fake `posix`, `fcntl`, `subprocess`, `time`, `random`, `urllib.request`, ... that lead
into the simulator.  Libraries without I/O (sympy, numpy, pycparser, ruamel, cachesim, osaca's
parser) are the real, shared ones.
"""
import atexit as _real_atexit
import builtins
import errno
import functools
import importlib
import importlib.machinery
import importlib.util
import io
import os
import posix
import random as _real_random
import sys
import threading
import time as _real_time
import types
import weakref
import datetime as _real_datetime

from core import SimKilled, HarnessError, Unsupported, NS
import simfs
import subproc

REPO = os.environ.get('VERIF_REPO', '/repo')

# modules executed afresh from source in every sandbox
SRC_PREFIX = ('kerncraft', 'compress_pickle', 'zipfile', 'distutils',
              'setuptools._distutils')
SRC_NAMES = {'os', 'posixpath', 'genericpath', 'shutil', 'tempfile', 'pathlib', 'argparse',
             'glob', 'fileinput', 'pprint', 'lzma', 'gzip', 'bz2', 'linecache', '_compression',
             'filecmp', 'contextlib', 'traceback', 'logging', 'gettext', 'tokenize', 'shelve',
             'uuid', 'secrets', 'ntpath', 'stat_', 'optparse', 'csv_', 'cmd', 'getpass',
             'tarfile', 'mmap_', '_pyio_', 'configparser', 'sched', 'platform_'}
ALIAS = {'distutils': 'setuptools._distutils', 'os.path': 'posixpath'}
FORBID = {'socket', 'multiprocessing', 'asyncio', 'concurrent.futures', 'ctypes', 'ssl',
          'http.client', 'requests'}

_code_cache = {}
_spec_cache = {}
_node_cache = {}


def _find_source(name):
    """(filename, is_package) of a module to be executed from source, or None."""
    if name in _spec_cache:
        return _spec_cache[name]
    res = None
    if name == 'kerncraft' or name.startswith('kerncraft.'):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            res = (os.path.join(base, '__init__.py'), True)
        elif os.path.isfile(base + '.py'):
            res = (base + '.py', False)
    else:
        try:
            spec = importlib.machinery.PathFinder.find_spec(
                name, None) if '.' not in name else importlib.util.find_spec(name)
        except (ImportError, AttributeError, ValueError):
            spec = None
        if spec is not None and spec.origin and spec.origin.endswith('.py'):
            res = (spec.origin, spec.submodule_search_locations is not None)
    _spec_cache[name] = res
    return res


def _code_for(filename):
    c = _code_cache.get(filename)
    if c is None:
        with open(filename, 'rb') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c = compile(src, filename, 'exec', dont_inherit=True)
        _code_cache[filename] = c
    return c


def is_source(name):
    return name in SRC_NAMES or any(name == p or name.startswith(p + '.') for p in SRC_PREFIX)


# ---------------------------------------------------------------------------- files
class SimRaw(io.RawIOBase):
    def __init__(self, box, fd, name, mode, closefd=True):
        self._box, self._fd, self._closefd = box, fd, closefd
        self._ofd = box.sys.ofd(fd)
        self.name, self.mode = name, mode
        if self._ofd.append:
            self._ofd.pos = len(self._ofd.inode.data)

    def _dead(self):
        return self._box.finished or self._box.proc.killed

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._fd

    def isatty(self):
        return False

    def readable(self):
        return self._ofd.readable

    def writable(self):
        return self._ofd.writable

    def seekable(self):
        return True

    def readinto(self, b):
        if not self._ofd.readable:
            raise io.UnsupportedOperation('not readable')
        d = self._box.sys.read(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        if not self._ofd.readable:
            raise io.UnsupportedOperation('not readable')
        out = b''
        while True:
            d = self._box.sys.read(self._fd, 65536)
            if not d:
                return out
            out += d

    def write(self, b):
        if self._dead():
            if self._box.finished:
                return len(b)
            raise SimKilled()
        if not self._ofd.writable:
            raise io.UnsupportedOperation('not writable')
        return self._box.sys.write(self._fd, bytes(b))

    def seek(self, pos, how=0):
        if self._dead():
            return 0
        return self._box.sys.lseek(self._fd, pos, how)

    def tell(self):
        return self._ofd.pos

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._box.sys.ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            io.RawIOBase.close(self)
        finally:
            if not self._dead() and self._closefd and self._fd in self._box.proc.fds:
                self._box.sys.close(self._fd)


def make_open(box):
    def open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if not isinstance(file, int):
            file = os.fspath(file) if hasattr(file, '__fspath__') else file
            if not isinstance(file, (str, bytes)):
                raise TypeError('expected str, bytes or os.PathLike object, not %s'
                                % type(file).__name__)
        modes = set(mode)
        if modes - set('axrwb+t') or len(mode) > len(modes):
            raise ValueError("invalid mode: '%s'" % mode)
        binary = 'b' in modes
        if len(modes & set('axrw')) != 1:
            raise ValueError('must have exactly one of create/read/write/append mode')
        if binary and (encoding is not None or errors is not None or newline is not None):
            raise ValueError('binary mode does not take an encoding/errors/newline argument')
        plus = '+' in modes
        flags = os.O_CLOEXEC
        if 'r' in modes:
            flags |= os.O_RDWR if plus else os.O_RDONLY
        elif 'w' in modes:
            flags |= (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
        elif 'x' in modes:
            flags |= (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
        else:
            flags |= (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
        if isinstance(file, int):
            fd = file
        elif opener is not None:
            fd = opener(file, flags)
        else:
            fd = box.sys.open(file, flags, 0o666)
        if box.sys.ofd(fd).inode.kind == 'd':
            box.sys.close(fd)
            raise simfs.oserr(errno.EISDIR, file)
        rawmode = ('rb+' if plus else 'rb') if 'r' in modes else \
            {'w': 'wb', 'x': 'xb', 'a': 'ab'}[(modes & set('wxa')).pop()] + ('+' if plus else '')
        raw = SimRaw(box, fd, file, rawmode, closefd)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            box.track(raw)
            return raw
        size = 8192 if buffering in (-1, 1) else buffering
        if plus:
            buf = io.BufferedRandom(raw, size)
        elif modes & set('wxa'):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            box.track(buf)
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)
        text.mode = mode
        box.track(text)
        return text
    return open


# ---------------------------------------------------------------------------- fake modules
def _enodata():
    raise OSError(errno.ENODATA, 'No data available')


def build_posix(box):
    m = types.ModuleType('posix')
    s = box.sys
    for k in dir(posix):
        v = getattr(posix, k)
        if not callable(v):
            setattr(m, k, v)
        elif isinstance(v, type) or k in (
                'fspath', 'strerror', '_path_normpath', '_path_splitroot_ex', '_path_normpath',
                'WIFEXITED', 'WEXITSTATUS', 'WIFSIGNALED', 'WTERMSIG', 'WIFSTOPPED', 'WSTOPSIG',
                'WCOREDUMP', 'WIFCONTINUED', 'waitstatus_to_exitcode', 'major', 'minor', 'makedev',
                'device_encoding', 'uname', 'sysconf', 'cpu_count', 'getloadavg', 'getuid', 'geteuid',
                'getgid', 'getegid', 'getgroups', 'times', 'get_inheritable', 'sched_getaffinity'):
            setattr(m, k, v)
        else:
            def missing(*a, _k=k, **kw):
                raise Unsupported('os.%s is not simulated' % _k)
            setattr(m, k, missing)
    for k in ('sendfile', 'copy_file_range', 'fork', 'forkpty', 'posix_spawn', 'posix_spawnp',
              'memfd_create', 'splice', 'openpty', 'lchmod', 'lchflags', 'chflags', 'fwalk'):
        if hasattr(m, k):
            delattr(m, k)
    m._have_functions = []
    m.environ = {k.encode(): v.encode() for k, v in s.environ.items()}

    def putenv(k, v):
        s.environ[os.fsdecode(k)] = os.fsdecode(v)

    def unsetenv(k):
        s.environ.pop(os.fsdecode(k), None)
    m.putenv, m.unsetenv = putenv, unsetenv
    m.open = lambda path, flags, mode=0o777, *, dir_fd=None: s.open(path, flags, mode)
    m.close = s.close
    m.read, m.write, m.lseek, m.ftruncate = s.read, s.write, s.lseek, s.ftruncate

    def truncate(path, length):
        if isinstance(path, int):
            return s.ftruncate(path, length)
        fd = s.open(path, os.O_WRONLY)
        try:
            s.ftruncate(fd, length)
        finally:
            s.close(fd)
    m.truncate = truncate
    m.dup = s.dup
    m.fsync = m.fdatasync = s.fsync
    m.sync = lambda: None
    m.stat = lambda path, *, dir_fd=None, follow_symlinks=True: s.stat(path, follow_symlinks)
    m.lstat = lambda path, *, dir_fd=None: s.stat(path, False)
    m.fstat = lambda fd: s.stat(fd)
    m.access = lambda path, mode, **kw: s.access(path, mode)
    m.listdir = lambda path='.': s.listdir(path)
    m.mkdir = lambda path, mode=0o777, *, dir_fd=None: s.mkdir(path, mode)
    m.rmdir = lambda path, *, dir_fd=None: s.rmdir(path)
    m.unlink = m.remove = lambda path, *, dir_fd=None: s.unlink(path)
    m.rename = m.replace = lambda a, b, **kw: s.rename(a, b)
    m.link = lambda a, b, **kw: s.link(a, b)
    m.symlink = lambda a, b, *x, **kw: s.symlink(a, b)
    m.readlink = lambda p, **kw: s.readlink(p)
    m.chmod = lambda p, mode, **kw: s.chmod(p, mode)
    m.fchmod = s.chmod
    m.listxattr = lambda *a, **kw: []
    m.getxattr = lambda *a, **kw: _enodata()
    m.setxattr = m.removexattr = lambda *a, **kw: None
    m.chown = m.lchown = m.fchown = lambda *a, **kw: None

    def utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
        if ns is not None:
            s.utime(path, ns[1])
        elif times is not None:
            s.utime(path, int(times[1] * NS))
        else:
            s.utime(path)
    m.utime = utime
    m.chdir = s.chdir
    m.getcwd = lambda: s.cwd
    m.getcwdb = lambda: os.fsencode(s.cwd)
    m.getpid = lambda: box.sim.world.pid_base + box.proc.pid
    m.getppid = lambda: 1
    m.getpgrp = m.getsid = lambda *a: box.sim.world.pid_base + box.proc.pid
    m.getlogin = lambda: 'sim'
    m.umask = lambda x: 0o022
    m.isatty = lambda fd: False
    m.urandom = lambda n: bytes(box.rng.getrandbits(8) for _ in range(n))
    m.getrandom = lambda n, flags=0: m.urandom(n)
    m.get_terminal_size = _no_tty
    m.register_at_fork = lambda **kw: None
    m.set_inheritable = lambda fd, v: None
    m.sched_yield = lambda: box.sim.syscall(box.proc, 'sched_yield')
    m.nice = lambda n: 0
    m.lockf = lambda fd, cmd, ln: box.mod('fcntl').lockf(fd, {0: 8, 1: 2, 2: 6}.get(cmd, 8))
    m.statvfs = lambda p: os.statvfs_result((4096, 4096, 1 << 20, 1 << 20, 1 << 20, 1 << 20,
                                             1 << 20, 1 << 20, 0, 255))

    def _exit(code):
        box.hard_exit = True
        raise SystemExit(code)
    m._exit = _exit

    class DirEntry(object):
        __slots__ = ('name', 'path', '_n')

        def __init__(self, name, path, n):
            self.name, self.path, self._n = name, path, n

        def is_dir(self, *, follow_symlinks=True):
            return self._n.kind == 'd'

        def is_file(self, *, follow_symlinks=True):
            return self._n.kind == 'f'

        def is_symlink(self):
            return self._n.kind == 'l'

        def is_junction(self):
            return False

        def inode(self):
            return self._n.ino

        def stat(self, *, follow_symlinks=True):
            return s.stat(self.path, follow_symlinks)

        def __fspath__(self):
            return self.path
    m.DirEntry = DirEntry

    class Scan(object):
        def __init__(self, it):
            self.it = it

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            return None

    def scandir(path='.'):
        names = s.listdir(path)
        p = os.fspath(path)
        node = s.fs.lookup(s.abs(p))
        out = []
        for n in names:
            if n in node.ents:
                out.append(DirEntry(n, (p if p.endswith('/') else p + '/') + n, node.ents[n]))
        return Scan(iter(out))
    m.scandir = scandir
    return m


def _no_tty(*a):
    raise OSError(errno.ENOTTY, 'Inappropriate ioctl for device')


def build_fcntl(box):
    import fcntl as real
    m = types.ModuleType('fcntl')
    for k in dir(real):
        if not callable(getattr(real, k)):
            setattr(m, k, getattr(real, k))

    def flock(fd, op):
        box.sys.flock(fd, op)

    def lockf(fd, op, len=0, start=0, whence=0):
        box.sys.flock(fd, op, owner=-1 - box.proc.pid)
    m.flock, m.lockf = flock, lockf
    m.fcntl = lambda fd, cmd, arg=0: 0
    m.ioctl = _no_tty
    return m


def build_time(box):
    m = types.ModuleType('time')
    sim, p = box.sim, box.proc
    for k in dir(_real_time):
        setattr(m, k, getattr(_real_time, k))

    def now():
        sim.syscall(p, 'clock', yields=False)
        return sim.now
    m.time_ns = now
    m.time = lambda: now() / NS
    m.monotonic = m.perf_counter = lambda: (now() - sim.t0) / NS
    m.monotonic_ns = m.perf_counter_ns = lambda: now() - sim.t0
    m.process_time = m.thread_time = m.monotonic
    m.process_time_ns = m.monotonic_ns
    m.clock_gettime = lambda c: now() / NS
    m.sleep = lambda sec: sim.sleep(p, int(sec * NS))
    for n in ('localtime', 'gmtime', 'ctime'):
        r = getattr(_real_time, n)
        setattr(m, n, lambda t=None, _r=r: _r(m.time() if t is None else t))
    rs = _real_time.strftime
    m.strftime = lambda f, t=None: rs(f, m.gmtime() if t is None else t)
    return m


def build_datetime(box):
    m = types.ModuleType('datetime')
    for k in dir(_real_datetime):
        setattr(m, k, getattr(_real_datetime, k))
    rd = _real_datetime.datetime
    tm = box.mod('time')

    class datetime(rd):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(tm.time(), tz or None)

        @classmethod
        def utcnow(cls):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return cls.utcfromtimestamp(tm.time())

        @classmethod
        def today(cls):
            return cls.now()
    m.datetime = datetime

    class date(_real_datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(tm.time())
    m.date = date
    return m


def build_random(box):
    m = types.ModuleType('random')
    for k in dir(_real_random):
        setattr(m, k, getattr(_real_random, k))
    seed_of = box.rng

    class Random(_real_random.Random):
        def __new__(cls, *a, **k):
            return _real_random.Random.__new__(cls)

        def __init__(self, x=None):
            _real_random.Random.__init__(self, seed_of.getrandbits(128) if x is None else x)

        def seed(self, a=None, version=2):
            _real_random.Random.seed(self, seed_of.getrandbits(128) if a is None else a, version)
    m.Random = Random
    m.SystemRandom = Random
    inst = m._inst = Random()
    for k in ('seed', 'random', 'uniform', 'triangular', 'randint', 'choice', 'randrange', 'sample',
              'shuffle', 'choices', 'normalvariate', 'lognormvariate', 'expovariate',
              'vonmisesvariate', 'gammavariate', 'gauss', 'betavariate', 'paretovariate',
              'weibullvariate', 'getstate', 'setstate', 'getrandbits', 'randbytes'):
        setattr(m, k, getattr(inst, k))
    return m


def build_sys(box):
    m = types.ModuleType('sys')
    for k in dir(sys):
        if k not in ('stdin', 'stdout', 'stderr', 'argv', 'modules', '__stdout__', '__stderr__'):
            try:
                setattr(m, k, getattr(sys, k))
            except AttributeError:
                pass
    m.argv = list(box.argv)
    m.stdout, m.stderr, m.stdin = box.stdout, box.stderr, box.stdin
    m.__stdout__, m.__stderr__, m.__stdin__ = box.stdout, box.stderr, box.stdin
    m.modules = box.mods
    m.executable = '/usr/bin/python3'
    return m


def build_atexit(box):
    m = types.ModuleType('atexit')

    def register(f, *a, **k):
        box.atexit.append((f, a, k))
        return f

    def unregister(f):
        box.atexit[:] = [x for x in box.atexit if x[0] != f]

    def _run_exitfuncs():
        box.run_atexit()

    def _clear():
        del box.atexit[:]
    m.register, m.unregister, m._run_exitfuncs, m._clear = register, unregister, _run_exitfuncs, _clear
    return m


def build_io(box):
    m = types.ModuleType('io')
    for k in dir(io):
        setattr(m, k, getattr(io, k))
    m.open = box.open
    m.open_code = lambda p: box.open(p, 'rb')

    def fileio(name, mode='r', closefd=True, opener=None):
        return box.open(name, mode.replace('b', '') + 'b', 0, closefd=closefd, opener=opener)
    m.FileIO = fileio
    m.text_encoding = lambda e, stacklevel=2: 'utf-8' if e is None else e
    return m


def build_signal(box):
    import signal as real
    m = types.ModuleType('signal')
    for k in dir(real):
        setattr(m, k, getattr(real, k))
    m.signal = lambda n, h: real.SIG_DFL
    m.getsignal = lambda n: real.SIG_DFL
    m.alarm = lambda n: 0
    m.setitimer = lambda *a: (0.0, 0.0)
    m.pthread_sigmask = lambda *a: set()
    m.siginterrupt = lambda *a: None
    return m


def build_psutil(box):
    import psutil as real
    m = types.ModuleType('psutil')
    for k in dir(real):
        v = getattr(real, k)
        if isinstance(v, type) or not callable(v):
            setattr(m, k, v)
    m.cpu_freq = lambda *a, **k: types.SimpleNamespace(current=2700.0, min=1200.0, max=2700.0)
    m.cpu_count = lambda logical=True: 8
    return m


def build_urllib_request(box):
    import urllib.request as real
    m = types.ModuleType('urllib.request')
    for k in dir(real):
        setattr(m, k, getattr(real, k))

    def urlopen(url, data=None, timeout=None, **kw):
        return box.sim.net_open(box.proc, url)

    def urlretrieve(url, filename=None, *a, **k):
        r = urlopen(url)
        with box.open(filename, 'wb') as f:
            f.write(r.read())
        return filename, r.headers
    m.urlopen, m.urlretrieve = urlopen, urlretrieve
    return m


def build_ruamel(box):
    import ruamel.yaml as real
    m = types.ModuleType('ruamel.yaml')
    for k in dir(real):
        setattr(m, k, getattr(real, k))
    m.__path__ = real.__path__

    class YAML(real.YAML):
        """Per-instance constructor/representer classes: no registry shared between processes."""

        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.Constructor = type(self.Constructor.__name__, (self.Constructor,), {})
            self.Representer = type(self.Representer.__name__, (self.Representer,), {})

        def load(self, stream):
            """Same as the real one, but the node graph of a text seen before is reused."""
            text = stream.read() if hasattr(stream, 'read') else stream
            if not isinstance(text, str):
                return super().load(text)
            key = (tuple(self.typ), text)
            node = _node_cache.get(key)
            if node is None:
                try:
                    node = real.YAML(typ=list(self.typ)).compose(text)
                except real.error.YAMLError:
                    return super().load(text)
                if len(_node_cache) > 300:
                    _node_cache.clear()
                _node_cache[key] = node
            constructor, parser = self.get_constructor_parser(text)
            try:
                if node is None:
                    return None
                return constructor.construct_document(node)
            finally:
                parser.dispose()
                for r in ('_reader', '_scanner'):
                    o = getattr(self, r, None)
                    if o is not None:
                        o.reset_reader() if r == '_reader' else o.reset_scanner()
    def add_implicit_resolver(tag, regexp, first=None, *a, **k):
        key = (tag, getattr(regexp, 'pattern', regexp), repr(first))
        if a or k or key not in _resolvers:       # the registry outlives the simulated processes
            _resolvers.add(key)
            real.add_implicit_resolver(tag, regexp, first, *a, **k)
    m.YAML = YAML
    m.add_implicit_resolver = add_implicit_resolver
    return m


_resolvers = set()


def build_builtins_module(box):
    m = types.ModuleType('builtins')
    m.__dict__.update(box.bdict)
    return m


def build_threading(box):
    return threading


BUILDERS = {
    'posix': build_posix, 'fcntl': build_fcntl, 'time': build_time, 'datetime': build_datetime,
    'random': build_random, 'sys': build_sys, 'atexit': build_atexit, 'io': build_io, '_io': build_io,
    'signal': build_signal, 'psutil': build_psutil, 'urllib.request': build_urllib_request,
    'ruamel.yaml': build_ruamel, 'subprocess': subproc.build_subprocess, 'builtins': build_builtins_module,
}


class Box(object):
    """One simulated Python process."""

    def __init__(self, sim, fs, proc, argv, cwd, environ, stdin_text=None, extra=None):
        self.sim, self.fs, self.proc = sim, fs, proc
        self.sys = simfs.Sys(sim, fs, proc, cwd, dict(environ), argv)
        self.argv = list(argv)
        self.rng = _real_random.Random('%r/%d/entropy' % (sim.seed, proc.pid))
        self.stdout, self.stderr = io.StringIO(), io.StringIO()
        self.stdin = io.StringIO(stdin_text or '')
        self.atexit = []
        self.finished = False
        self.hard_exit = False
        self.files = []
        self.mods = {}
        self.own = []               # module objects that belong to this process alone
        self.builders = dict(BUILDERS)
        if extra:
            self.builders.update(extra)
        self.open = make_open(self)
        self.bdict = dict(builtins.__dict__)
        self.bdict['open'] = self.open
        self.bdict['__import__'] = self._import
        self.bdict['print'] = self._print
        self.bdict['input'] = self._input
        proc.mods = self.mods
        proc.box = self
        proc.on_exit.append(self.run_exit)
        proc.reap.append(self._finish)

    # ---- process life cycle
    def track(self, f):
        self.files.append(weakref.ref(f))
        return f

    def run_atexit(self):
        while self.atexit:
            f, a, k = self.atexit.pop()
            try:
                f(*a, **k)
            except (SimKilled, HarnessError):
                raise
            except BaseException as e:  # noqa: Python prints and goes on
                self.stderr.write('Exception ignored in atexit callback: %r\n' % (e,))

    def run_exit(self):
        if self.hard_exit:
            return
        self.run_atexit()
        for r in self.files:
            f = r()
            if f is not None and not f.closed:
                try:
                    f.flush()
                except (SimKilled, HarnessError):
                    raise
                except BaseException as e:  # noqa
                    self.stderr.write('Exception ignored: %r\n' % (e,))

    def _finish(self, p):
        self.finished = True
        del self.atexit[:]
        self.files = []

    def dispose(self):
        """Drop everything the simulated process had loaded (the run is over and judged)."""
        for m in self.own:
            d = m.__dict__
            for k in list(d):
                if k not in ('__name__', '__builtins__'):
                    d.pop(k, None)
        self.own = []
        self.mods.clear()
        self.files = []
        self.open = None
        self.proc.mods = None
        del self.proc.on_exit[:], self.proc.reap[:]
        self.proc.main = self.proc.thread = None
        for k in ('open', '__import__', 'print', 'input'):
            self.bdict.pop(k, None)

    def _print(self, *args, sep=' ', end='\n', file=None, flush=False):
        if file is None:
            file = self.mods['sys'].stdout if 'sys' in self.mods else self.stdout
        builtins.print(*args, sep=sep, end=end, file=file, flush=flush)

    def _input(self, prompt=''):
        self.stdout.write(str(prompt))
        self.sim.syscall(self.proc, 'input')
        line = self.mods['sys'].stdin.readline() if 'sys' in self.mods else self.stdin.readline()
        if not line:
            raise EOFError('EOF when reading a line')
        return line.rstrip('\n')

    # ---- import machinery
    def mod(self, name):
        if name in self.mods:
            return self.mods[name]
        real_name = ALIAS.get(name, name)
        for a in ('distutils',):
            if name.startswith(a + '.'):
                real_name = ALIAS[a] + name[len(a):]
        if real_name != name:
            m = self.mods[name] = self.mod(real_name)
            return m
        if name in FORBID or name.split('.')[0] in FORBID:
            raise Unsupported('module %s is not simulated' % name)
        b = self.builders.get(name)
        if b is not None:
            parent = name.rpartition('.')[0]
            m = self.mods[name] = b(self)
            if parent:
                try:
                    setattr(self.mod(parent), name.rpartition('.')[2], m)
                except (AttributeError, TypeError):
                    pass
            return m
        if is_source(name):
            found = _find_source(name)
            if found is not None:
                return self._load(name, *found)
            if name.split('.')[0] in SRC_PREFIX:
                raise ModuleNotFoundError('No module named %r' % name, name=name)
        parent = name.rpartition('.')[0]
        # a real package of which one sub-module is replaced gets a shallow copy
        if any(k.startswith(name + '.') for k in self.builders):
            real = importlib.import_module(name)
            m = types.ModuleType(name)
            for k in dir(real):
                try:
                    setattr(m, k, getattr(real, k))
                except (AttributeError, TypeError):
                    pass
            self.mods[name] = m
            return m
        m = importlib.import_module(name)
        self.mods[name] = m
        if parent and parent in self.mods and not hasattr(self.mods[parent], name.rpartition('.')[2]):
            try:
                setattr(self.mods[parent], name.rpartition('.')[2], m)
            except (AttributeError, TypeError):
                pass
        return m

    def _load(self, name, filename, is_pkg):
        parent, _, tail = name.rpartition('.')
        if parent and (is_source(parent)):
            self.mod(parent)
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        if name != 'logging':
            self.own.append(m)
        m.__file__ = filename
        m.__builtins__ = self.bdict
        if is_pkg:
            m.__path__ = [os.path.dirname(filename)]
            m.__package__ = name
        else:
            m.__package__ = parent
        m.__spec__ = importlib.machinery.ModuleSpec(name, None, origin=filename, is_package=is_pkg)
        self.mods[name] = m
        if name == 'kerncraft' or name.startswith('kerncraft.'):
            # pickle and friends look classes up in the interpreter's module table
            sys.modules[name] = m
        try:
            exec(_code_for(filename), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        m = self.mods.get(name, m)
        if parent and parent in self.mods:
            setattr(self.mods[parent], tail, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + ('.' + name if name else '')
        else:
            full = name
        m = self.mod(full)
        if not fromlist:
            if level:
                return m
            top = full.partition('.')[0]
            t = self.mod(top)
            # make sure each component is reachable as an attribute of its parent
            parts = full.split('.')
            cur = t
            for i in range(1, len(parts)):
                sub = self.mod('.'.join(parts[:i + 1]))
                if getattr(cur, parts[i], None) is not sub:
                    try:
                        if cur.__name__.split('.')[0] in ('kerncraft',) or cur in self.mods.values():
                            if isinstance(cur, types.ModuleType) and not self._is_real(cur):
                                setattr(cur, parts[i], sub)
                    except (AttributeError, TypeError):
                        pass
                cur = sub
            return t
        if hasattr(m, '__path__'):
            for f in fromlist:
                if full + '.' + f in self.builders:
                    setattr(m, f, self.mod(full + '.' + f))
                elif f != '*' and not hasattr(m, f):
                    try:
                        self.mod(full + '.' + f)
                    except ModuleNotFoundError:
                        pass
        return m

    @staticmethod
    def _is_real(m):
        return sys.modules.get(m.__name__) is m and not m.__name__.startswith('kerncraft')


def switch_modules(proc):
    """Point sys.modules' kerncraft entries at the instances of the process about to run."""
    for k in [k for k in sys.modules if k == 'kerncraft' or k.startswith('kerncraft.')]:
        del sys.modules[k]
    mods = proc.mods
    if mods:
        for k, v in mods.items():
            if k == 'kerncraft' or k.startswith('kerncraft.'):
                sys.modules[k] = v
