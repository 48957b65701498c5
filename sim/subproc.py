"""Simulated child processes: `subprocess` facade and the program registry."""
import errno
import io
import os
import subprocess as _real
import types

from core import HarnessError, SimKilled, Unsupported
import simfs

PIPE, STDOUT, DEVNULL = -1, -2, -3


class Ctx(object):
    """What a simulated program sees."""

    def __init__(self, box, argv, env, cwd, stdin):
        self.box, self.sim, self.sys, self.p = box, box.sim, box.sys, box.proc
        self.argv, self.env, self.cwd, self.stdin = argv, env, cwd, stdin
        self.out, self.err = bytearray(), bytearray()

    def path(self, p):
        return p if p.startswith('/') else self.cwd.rstrip('/') + '/' + p

    def read(self, path):
        fd = self.sys.open(self.path(path), os.O_RDONLY)
        try:
            out = b''
            while True:
                d = self.sys.read(fd, 1 << 16)
                if not d:
                    return out
                out += d
        finally:
            if not self.p.killed:
                self.sys.close(fd)

    def exists(self, path):
        return self.box.fs.exists(self.path(path))

    def print(self, s):
        self.out += s.encode()

    def eprint(self, s):
        self.err += s.encode()


class CompletedProcess(_real.CompletedProcess):
    pass


def build_subprocess(box):
    m = types.ModuleType('subprocess')
    m.PIPE, m.STDOUT, m.DEVNULL = PIPE, STDOUT, DEVNULL
    for k in ('CalledProcessError', 'SubprocessError', 'TimeoutExpired', 'CompletedProcess',
              'list2cmdline'):
        setattr(m, k, getattr(_real, k))
    sim, fs = box.sim, box.fs

    def resolve(arg0, env):
        if '/' in arg0:
            cand = [arg0]
        else:
            cand = [d.rstrip('/') + '/' + arg0 for d in env.get('PATH', '').split(':') if d]
        seen_perm = False
        for c in cand:
            a = c if c.startswith('/') else box.sys.cwd.rstrip('/') + '/' + c
            try:
                n = fs.lookup(a)
            except OSError:
                continue
            if n.kind != 'f' or not n.mode & 0o111:
                seen_perm = True
                continue
            return a, n
        code = errno.EACCES if seen_perm else errno.ENOENT
        raise OSError(code, os.strerror(code), arg0)

    class Popen(object):
        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                     preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                     universal_newlines=None, startupinfo=None, creationflags=0,
                     restore_signals=True, start_new_session=False, pass_fds=(), *,
                     user=None, group=None, extra_groups=None, encoding=None, errors=None,
                     text=None, umask=-1, pipesize=-1, process_group=None):
            if shell:
                raise Unsupported('subprocess with shell=True')
            if isinstance(args, (str, bytes)) or hasattr(args, '__fspath__'):
                args = [args]
            args = [os.fsdecode(a) for a in args]
            for a in args:
                if '\0' in a:
                    raise ValueError('embedded null byte')
            self.args = args
            self._stdin_mode, self._stdout_mode, self._stderr_mode = stdin, stdout, stderr
            self._text = bool(text or universal_newlines or encoding or errors)
            if env is None:
                env = dict(box.mods['os'].environ) if 'os' in box.mods else dict(box.sys.environ)
            self._env, self._cwd = dict(env), cwd or box.sys.cwd
            sim.syscall(box.proc, 'exec', args[0], ' '.join(args[1:])[:300])
            path, node = resolve(args[0], self._env)
            self._node, self._path = node, path
            self._done = False
            self.returncode = None
            self.pid = 9000 + sim.step
            self._out = self._err = b''
            self.stdin = io.BytesIO() if stdin == PIPE else None
            self.stdout = self.stderr = None
            if stdin != PIPE:
                self._go(b'')

        def _go(self, data):
            if self._done:
                return
            self._done = True
            ctx = Ctx(box, self.args, self._env, self._cwd, data)
            path, node = self._path, self._node
            for obs in sim.exec_observers:
                obs(box.proc, self._path, self.args)
            rc = sim.run_program(ctx, self._path, self._node)
            self._rc = rc
            out, err = bytes(ctx.out), bytes(ctx.err)
            if self._stderr_mode == STDOUT:
                out, err = out + err, b''
            self._out, self._err = out, err
            if self._stdout_mode == PIPE:
                self.stdout = io.BytesIO(out) if not self._text else io.StringIO(out.decode())
            elif self._stdout_mode is None:
                box.stdout.write(out.decode('utf-8', 'replace'))
            elif self._stdout_mode not in (DEVNULL,):
                self._stdout_mode.write(out.decode() if isinstance(self._stdout_mode, io.TextIOBase)
                                        else out)
            if self._stderr_mode == PIPE:
                self.stderr = io.BytesIO(err) if not self._text else io.StringIO(err.decode())
            elif self._stderr_mode is None:
                box.stderr.write(err.decode('utf-8', 'replace'))

        def communicate(self, input=None, timeout=None):
            if self.stdin is not None:
                data = self.stdin.getvalue()
                if input is not None:
                    data += input.encode() if isinstance(input, str) else input
                self._go(data)
            self.returncode = self._rc
            sim.syscall(box.proc, 'wait', self._path)
            o = self._out if self._stdout_mode == PIPE else None
            e = self._err if self._stderr_mode == PIPE else None
            if self._text:
                o = o.decode() if o is not None else None
                e = e.decode() if e is not None else None
            return o, e

        def wait(self, timeout=None):
            if self.stdin is not None:
                self._go(self.stdin.getvalue())
            self.returncode = self._rc
            sim.syscall(box.proc, 'wait', self._path)
            return self.returncode

        def poll(self):
            if self.stdin is None:
                self.returncode = self._rc
            return self.returncode

        def kill(self):
            self.poll()
        terminate = kill

        def send_signal(self, s):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()

    def run(*popenargs, input=None, capture_output=False, timeout=None, check=False, **kw):
        if input is not None:
            kw['stdin'] = PIPE
        if capture_output:
            kw['stdout'] = kw['stderr'] = PIPE
        p = Popen(*popenargs, **kw)
        out, err = p.communicate(input)
        rc = p.poll() if p.stdin is None else p.returncode
        if check and rc:
            raise _real.CalledProcessError(rc, p.args, output=out, stderr=err)
        return _real.CompletedProcess(p.args, rc, out, err)

    def check_output(*a, timeout=None, **kw):
        if 'stdout' in kw:
            raise ValueError('stdout argument not allowed, it will be overridden.')
        if 'input' in kw and kw['input'] is None:
            kw['input'] = '' if kw.get('text') or kw.get('universal_newlines') else b''
        return run(*a, stdout=PIPE, check=True, **kw).stdout

    def call(*a, timeout=None, **kw):
        return Popen(*a, **kw).wait()

    def check_call(*a, **kw):
        rc = call(*a, **kw)
        if rc:
            raise _real.CalledProcessError(rc, a[0] if a else kw.get('args'))
        return 0

    def getstatusoutput(cmd, **kw):
        raise Unsupported('subprocess.getstatusoutput')
    m.Popen, m.run, m.check_output, m.call, m.check_call = Popen, run, check_output, call, check_call
    m.getstatusoutput = m.getoutput = getstatusoutput
    return m
