"""The simulated machine room: file system contents, tools, and Kerncraft processes."""
import hashlib
import os
import re
import sys
import types

import core
import simfs
import vimport
import tools
import osaca_facade
from core import NS, Sim, Fault, SimKilled, HarnessError

T0 = 1700000000 * NS
DAY = 86400 * NS
PKG = vimport.REPO.rstrip('/') + '/kerncraft'
ENV = {'PATH': '/sim/bin:/usr/bin', 'HOME': '/home/sim', 'LANG': 'C.UTF-8', 'USER': 'sim',
       'TMPDIR': '/tmp', 'LIKWID_INC': '-I/opt/likwid/include', 'LIKWID_LIB': '-L/opt/likwid/lib'}

_overlay = None


def overlay_files():
    global _overlay
    if _overlay is None:
        _overlay = []
        for root, dirs, files in os.walk(PKG):
            dirs[:] = sorted(d for d in dirs if d not in ('__pycache__', 'iaca'))
            for f in sorted(files):
                p = os.path.join(root, f)
                with open(p, 'rb') as fh:
                    _overlay.append((p, fh.read(), os.stat(p).st_mode & 0o777))
    return _overlay


# ---------------------------------------------------------------------- machine files
def machine_yaml(v=0, cores=4, compilers=('gcc', 'clang'), incore=('OSACA', 'IACA', 'LLVM-MCA'), flags=None,
                 bench=True, tpc=1, name=tools.CPU_NAME, clock=None, l1sets=8, measured=True,
                 sockets=1, metrics=None, levels=3, cl=64):
    """A small machine description; *v* changes every number that matters to a report."""
    clock = clock or (2.7 if v == 0 else 2.0 + 0.1 * v)
    s = []
    s.append('kerncraft version: 0.8.11.dev0')
    s.append('model name: %s' % name)
    s.append('model type: %s' % tools.CPU_TYPE)
    s.append('clock: %.1f GHz' % clock)
    s.append('sockets: %d\ncores per socket: %d\nthreads per core: %d' % (sockets, cores, tpc))
    s.append('NUMA domains per socket: 1\ncores per NUMA domain: %d\ntransparent hugepage: always' % cores)
    arch = {'OSACA': 'SNB' if v % 2 == 0 else 'HSW', 'IACA': 'SNB' if v % 2 == 0 else 'HSW',
            'LLVM-MCA': '-mcpu=sandybridge -mattr=+avx' if v % 2 == 0 else '-mcpu=haswell'}
    s.append('in-core model: !!omap\n' + '\n'.join('  - %s: %s' % (m, arch[m]) for m in incore))
    s.append('isa: x86')
    s.append('FLOPs per cycle:\n  SP: {total: %d, ADD: 8, MUL: 8}\n  DP: {total: %d, ADD: 4, MUL: 4}'
             % (16 + v, 8 + v))
    fl = flags or {'gcc': '-O3 -march=corei7-avx', 'clang': '-O3 -mavx', 'icc': '-O3 -xAVX'}
    s.append('compiler: !!omap\n' + '\n'.join('- %s: %s' % (c, fl[c]) for c in compilers))
    s.append("""overlapping model:
  ports:
    IACA: ['0', 0DV, '1', '2', '3', '4', '5']
    OSACA: ['0', 0DV, '1', '2', '3', '4', '5']
    LLVM-MCA: [SBDivider, SBFPDivider, SBPort0, SBPort1, SBPort4, SBPort5]
  performance counter metric: Max(UOPS_DISPATCHED_PORT_PORT_0:PMC[0-3], UOPS_DISPATCHED_PORT_PORT_1:PMC[0-3], UOPS_DISPATCHED_PORT_PORT_4:PMC[0-3], UOPS_DISPATCHED_PORT_PORT_5:PMC[0-3])
non-overlapping model:
  ports:
    IACA: [2D, 3D]
    OSACA: [2D, 3D]
    LLVM-MCA: [SBPort23]
  performance counter metric: T_nOL + T_L1L2 + T_L2L3 + T_L3MEM
cacheline size: %d B""" % cl)
    if metrics:
        s[-1] = s[-1].replace(
            'Max(UOPS_DISPATCHED_PORT_PORT_0:PMC[0-3], UOPS_DISPATCHED_PORT_PORT_1:PMC[0-3], '
            'UOPS_DISPATCHED_PORT_PORT_4:PMC[0-3], UOPS_DISPATCHED_PORT_PORT_5:PMC[0-3])', metrics['T_OL'])
    l2, l3 = l1sets * 2 + 2 * v, (l1sets * 8 + 4 * v)
    def mets(name, met):
        m = (metrics or {}).get(name)
        if m is None:
            return met
        return '\n'.join('    %s: %s' % (k, m[k]) for k in ('loads', 'stores', 'misses', 'evicts') if k in m)
    def lvl(name, sets, ways, per, nxt, thr, met):
        met = mets(name, met)
        st = ', load_from: %s, store_to: %s' % (nxt, nxt) if nxt else ''
        return """- level: %s
  cache per group: {sets: %d, ways: %d, cl_size: %d, replacement_policy: LRU, write_allocate: true,
    write_back: true%s}
  cores per group: %d
  threads per group: %d
  groups: %d
  size per group: %.2f kB
  upstream throughput: %s
  transfers overlap: false
  performance counter metrics:
%s""" % (name, sets, ways, cl, st, per, per * tpc, cores * sockets // per, sets * ways * cl / 1000.0, thr, met)
    s.append('memory hierarchy:')
    n0 = len(s)
    s.append(lvl('L1', l1sets, 4, 1, levels > 1 and 'L2', '[architecture code analyzer, [2D, 3D]]',
                 '    loads: MEM_UOPS_RETIRED_LOADS:PMC[0-3]\n    stores: MEM_UOPS_RETIRED_STORES:PMC[0-3]\n'
                 '    misses: L1D_REPLACEMENT:PMC[0-3]\n    evicts: L1D_M_EVICT:PMC[0-3]'))
    s.append(lvl('L2', l2, 4, 1, levels > 2 and 'L3', '[%d B/cy, half-duplex]' % (32 + v),
                 '    loads: L1D_REPLACEMENT:PMC[0-3]\n    stores: L1D_M_EVICT:PMC[0-3]\n'
                 '    misses: L2_LINES_IN_ALL:PMC[0-3]\n    evicts: L2_TRANS_L2_WB:PMC[0-3]'))
    s.append(lvl('L3', l3, 4, cores, None, '[%d B/cy, half-duplex]' % (32 + v),
                 '    loads: L2_LINES_IN_ALL:PMC[0-3]\n    stores: L2_TRANS_L2_WB:PMC[0-3]\n'
                 '    misses: (CAS_COUNT_RD:MBOX0C[01] + CAS_COUNT_RD:MBOX1C[01])\n'
                 '    evicts: (CAS_COUNT_WR:MBOX0C[01] + CAS_COUNT_WR:MBOX1C[01])'))
    del s[n0 + levels:]
    mem = mets('MEM', '    loads: (CAS_COUNT_RD:MBOX0C[01] + CAS_COUNT_RD:MBOX1C[01])\n'
                      '    stores: (CAS_COUNT_WR:MBOX0C[01] + CAS_COUNT_WR:MBOX1C[01])')
    s.append("""- level: MEM
  cores per group: %d
  upstream throughput: [full socket memory bandwidth, half-duplex]
  transfers overlap: false
  size per group:
  threads per group: %d
%s  penalty cycles per cacheline load: 0
  penalty cycles per cacheline store: 0""" % (
        cores, cores * tpc, '  performance counter metrics:\n%s\n' % mem if mem else ''))
    if bench:
        s.append("""benchmarks:
  kernels:
    copy: {FLOPs per iteration: 0, fastest bench kernel: copy_avx, read streams: {bytes: 8.00 B, streams: 1},
      read+write streams: {bytes: 0.00 B, streams: 0}, write streams: {bytes: 8.00 B, streams: 1}}
    load: {FLOPs per iteration: 0, fastest bench kernel: load_avx, read streams: {bytes: 8.00 B, streams: 1},
      read+write streams: {bytes: 0.00 B, streams: 0}, write streams: {bytes: 0.00 B, streams: 0}}
    update: {FLOPs per iteration: 0, fastest bench kernel: update_avx, read streams: {bytes: 8.00 B, streams: 1},
      read+write streams: {bytes: 8.00 B, streams: 1}, write streams: {bytes: 8.00 B, streams: 1}}
    daxpy: {FLOPs per iteration: 2, fastest bench kernel: daxpy_avx, read streams: {bytes: 16.00 B, streams: 2},
      read+write streams: {bytes: 8.00 B, streams: 1}, write streams: {bytes: 8.00 B, streams: 1}}
    triad: {FLOPs per iteration: 2, fastest bench kernel: triad_avx, read streams: {bytes: 24.00 B, streams: 3},
      read+write streams: {bytes: 0.00 B, streams: 0}, write streams: {bytes: 8.00 B, streams: 1}}
  measurements:""")
        cl = list(range(1, cores + 1))
        for li, lev in enumerate(('L1', 'L2', 'L3')[:levels] + ('MEM',)):
            s.append('    %s:' % lev)
            for t in range(1, tpc + 1):
                s.append('      %d:\n        cores: %s\n        threads: %s\n        threads per core: %d'
                         % (t, cl, [c * t for c in cl], t))
                s.append('        results:')
                for ki, k in enumerate(('copy', 'load', 'update', 'daxpy', 'triad')):
                    bw = [(80 - 15 * li + 3 * ki + v) * c * 0.95 for c in cl]
                    s.append('          %s: [%s]' % (k, ', '.join('%.2f GB/s' % b for b in bw)))
                for f in ('size per core', 'size per thread', 'total size'):
                    s.append('        %s: [%s]' % (f, ', '.join('%.2f kB' % (21.12 * (li + 1) * c) for c in cl)))
    return '\n'.join(s) + '\n'


# ---------------------------------------------------------------------- kernels
KERNELS = {
    'copy': 'double a[N], b[N];\n\nfor(int i=0; i<N; ++i)\n    a[i] = b[i];\n',
    'scale': 'double a[N], b[N];\ndouble s;\n\nfor(int i=0; i<N; ++i)\n    a[i] = s * b[i];\n',
    'triad': 'double a[N], b[N], c[N], d[N];\n\nfor(int i=0; i<N; ++i)\n    a[i] = b[i] + c[i] * d[i];\n',
    '1d3pt': 'double a[N], b[N];\n\nfor(int i=1; i<N-1; ++i)\n    b[i] = a[i-1] + a[i] + a[i+1];\n',
    '2d5pt': 'double a[M][N];\ndouble b[M][N];\ndouble s;\n\nfor(int j=1; j<M-1; ++j)\n'
             '    for(int i=1; i<N-1; ++i)\n        b[j][i] = ( a[j][i-1] + a[j][i+1]\n'
             '                  + a[j-1][i] + a[j+1][i]) * s;\n',
    'sum': 'double a[N];\ndouble s = 0.;\n\nfor(int i=0; i<N; ++i)\n    s += a[i];\n',
    'f3': 'float a[N], b[N], c[N];\n\nfor(int i=2; i<N-2; ++i)\n    c[i] = a[i-2] * b[i+2] + a[i];\n',
    'const': 'double a[1024], b[1024];\n\nfor(int i=0; i<1024; ++i)\n    a[i] = b[i] + 1.5;\n',
}


def iaca_files(version, system):
    top = 'iaca-%s/' % system
    if version == '3.0':
        return {top + 'iaca': '#!sim iaca\nversion 3.0 %s\n' % system, top + 'iacaMarks.h': '/* 3.0 */\n',
                top + '.DS_Store': 'x', '__MACOSX/._iaca': 'x', '__MACOSX/iaca': 'x'}
    sh = ('#!sim iaca\nversion %s\nrealpath () {\n\tpath=$(cd "$(dirname "$0")"; pwd)\n}\nmypath=`pwd`\n'
          'exec $mypath/iaca "$@" # realpath\n' % version)
    return {top + 'bin/iaca': '#!sim iaca\nbinary %s\n' % version, top + 'bin/iaca.sh': sh,
            top + 'lib/libiaca.so': '\x7fELF %s\n' % version * 400, top + 'include/iacaMarks.h': '/* %s */\n' % version,
            top + '.DS_Store': 'x', '__MACOSX/._iaca': 'x', '__MACOSX/iaca': 'x'}


def iaca_archive(version, system):
    import io
    import zipfile
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        for name, text in sorted(iaca_files(version, system).items()):
            z.writestr(zipfile.ZipInfo(name, (2017, 11, 1, 0, 0, 0)), text)
    return b.getvalue()


class World(object):
    """Shared, passive state of one simulated run."""

    def __init__(self, sim, gran=1, cfg=None):
        cfg = cfg or {}
        self.sim, self.cfg = sim, cfg
        sim.world = self
        self.fs = simfs.SimFS(sim, gran)
        self.compiler_version = dict(cfg.get('compiler_version', {}))
        self.compiler_death_rc = cfg.get('compiler_death_rc', -9)
        self.likwid_groups = list(cfg.get('likwid_groups', ['BRANCH', 'MEM', 'L2']))
        self.hw = dict({'cores': 4, 'tpc': 1, 'sockets': 1}, **cfg.get('hw', {}))
        self.bench_kernels = list(cfg.get('bench_kernels', [
            'copy', 'copy_sse', 'copy_avx', 'copy_mem', 'load', 'load_avx', 'load_avx512',
            'update', 'update_avx', 'triad', 'triad_avx', 'triad_sp', 'daxpy', 'daxpy_avx']))
        self.bench_unsupported = set(cfg.get('bench_unsupported', ['load_avx512']))
        self.measured_clock = cfg.get('measured_clock', '2.7 GHz')
        self.measurements, self.bench_runs, self.bad_exec = [], [], []
        self.net = dict(cfg.get('net', {}))
        self.write_log = []
        sim.run_program = self.run_program
        sim.net_open = self.net_open
        sim.on_switch = vimport.switch_modules
        fs = self.fs
        pkg_mtime = T0 - 30 * DAY
        for p, data, mode in overlay_files():
            fs.put(p, data, mtime=pkg_mtime, mode=mode, ro=True)
        fs.lookup(PKG).ro = True
        fs.ro_prefixes = [PKG + '/', '/sim/', '/opt/', '/proc/', '/sys/']
        if cfg.get('pkg_writable'):
            fs.rw_prefixes = [PKG + '/iaca/']
            fs.mkdirs(PKG + '/iaca')
        fs.ro_errno = cfg.get('ro_errno', 30)
        fs.listing = cfg.get('listing')
        self.pid_base = cfg.get('pid_base', 4000)
        for name in tools.PROGRAMS:
            if name in cfg.get('no_tools', ()):
                continue
            if name not in ('machine-state.sh', 'iaca'):
                fs.put('/sim/bin/' + name, b'#!sim ' + name.encode(), mtime=pkg_mtime, mode=0o755, ro=True)
        for name in ('gcc', 'clang'):       # another installation, outside of PATH
            fs.put('/opt/sim/bin/' + name, b'#!sim ' + name.encode(), mtime=pkg_mtime, mode=0o755, ro=True)
        fs.put('/proc/cpuinfo', 'processor\t: 0\nmodel name\t: %s\n' % tools.CPU_NAME, ro=True)
        fs.put('/sys/kernel/mm/transparent_hugepage/enabled', '[always] madvise never\n', ro=True)
        fs.put('/usr/lib/os', b'', ro=True)
        for d in ('/tmp', '/home/sim', '/work', '/usr/bin'):
            fs.mkdirs(d)
        if cfg.get('iaca', False):
            for user in ('sim', 'u0', 'u1', 'u2', 'u3', 'u4', 'u5', 'u6'):
                for v in ('iaca2.2', 'iaca2.3', 'iaca3.0'):
                    fs.put('/home/%s/.kerncraft/iaca/lin64/bin/%s' % (user, v), b'#!sim iaca', mtime=pkg_mtime,
                           mode=0o755)
        fs.fs_hooks.append(self._hook)
        self.hooks = []

    def _hook(self, p, op, path, inode, info):
        for h in self.hooks:
            h(p, op, path, inode, info)

    # ---- models of the outside world
    def compile_ns(self, d):
        lo, hi = self.cfg.get('compile_ns', (10 ** 6, 8 * 10 ** 8))
        return lo + int(d[:8], 16) % (hi - lo)

    def rep_seconds(self, d, sizes, vals=()):
        f = self.cfg.get('rep_seconds')
        n = 1.0
        for s in sizes:
            try:
                n *= max(1, int(s))
            except ValueError:
                pass
        if len(vals) > 1:       # which constant has which value matters
            d = tools.digest(d, repr(vals))
        base = 1e-9 if f is None else f
        return base * n * (1 + int(d[:2], 16) / 64.0) if f is None else base * (1 + int(d[:2], 16) / 256.0)

    def noise(self, sim):
        j = self.cfg.get('noise')
        if not j:
            return 1.0
        return j[len(self.measurements) % len(j)]

    def clock_now(self):
        """CPU clock during the current measurement."""
        c = self.cfg.get('clock_seq')
        if not c:
            return self.measured_clock
        return '%.9g GHz' % c[min(len(self.measurements) - 1, len(c) - 1)]

    @staticmethod
    def counter_source(event, register):
        """What a counter counts: the event, its options and the box, not the register within."""
        reg, _, opts = register.partition(':')
        box = re.sub(r'^(PMC|FIXC|UPMC|PWR)\d+$', '', reg)
        box = re.sub(r'C\d+$', '', box)
        return ':'.join([event, box] + sorted(opts.split(':') if opts else []))

    def counter(self, d, event, register, reps, sizes):
        src = self.counter_source(event, register)
        if event in self.cfg.get('nan_events', ()):
            return 0
        n = 1
        for s in sizes:
            try:
                n *= max(1, int(s))
            except ValueError:
                pass
        return reps * n * (1 + int(tools.digest(d, src)[:4], 16) % 9973) // 64 + 1

    def counter_text(self, d, event, register, reps, sizes):
        if event in self.cfg.get('nan_events', ()):
            return '-' if len(event) % 2 else 'nan'
        return '%d' % self.counter(d, event, register, reps, sizes)

    def bench_bw(self, kernel, w, n):
        h = int(tools.digest(kernel, w)[:6], 16)
        j = int(tools.digest(kernel, w, str(n))[:2], 16)
        return 10000 + (h % 90000) + j * 0.25

    def run_program(self, ctx, path, node):
        head = bytes(node.data[:64])
        if head.startswith(tools.EXE[:7]):
            name = None
        elif head.startswith(b'#!sim '):
            name = head[6:].split(b'\n')[0].decode()
        elif path.startswith(PKG):
            name = os.path.basename(path)
        else:
            name = None
        f = tools.PROGRAMS.get(name)
        if f is None:
            raise OSError(8, 'Exec format error', path)
        return f(ctx)

    def net_open(self, proc, url):
        self.sim.syscall(proc, 'net', url)
        f = self.sim.take_fault(proc, ('net',))
        import io
        import urllib.error
        if f is not None and f.arg == 0:
            raise urllib.error.URLError('simulated: connection refused')
        data = self.net.get(url)
        if data is None and self.cfg.get('iaca_archives'):
            m = re.search(r'(\d\.\d)-(lin64|mac|mac64)\.zip$', url)
            data = m and iaca_archive(m.group(1), m.group(2))
        if data is None:
            raise urllib.error.HTTPError(url, 404, 'Not Found', {}, None)
        self.sim.sleep(proc, NS)
        if f is not None:
            if f.arg == 1:
                raise ConnectionResetError(104, 'Connection reset by peer')
            data = data[:int(len(data) * f.arg)]

        class R(io.BytesIO):
            headers = {}
            status = 200

            def getcode(self):
                return 200
        return R(data)

    # ---- processes
    def python(self, name, argv, entry, cwd='/work', env=None, stdin=None, faults=(), start_after=(),
               delay=0):
        """Spawn a simulated Python process running entry(box)."""
        e = dict(ENV)
        e.update(env or {})
        for k in [k for k, v in e.items() if v is None]:
            del e[k]
        w = self

        def main(proc):
            box = vimport.Box(w.sim, w.fs, proc, argv, cwd, e, stdin, extra=osaca_facade.EXTRA)
            if delay:
                w.sim.sleep(proc, delay)
            return entry(box)
        p = self.sim.spawn(name, main, faults, start_after)
        return p

    def cli(self, name, module, args, **kw):
        """A command line tool: kerncraft.kerncraft, kerncraft.picklemerge, ..."""
        def entry(box):
            m = box.mod(module)
            return m.main()
        return self.python(name, [module.rpartition('.')[2]] + list(args), entry, **kw)

    def editor(self, name, actions, start_after=(), delay=0):
        """A user changing files: list of ('put', path, text) / ('touch', path) / ('rm', path)."""
        w = self

        def main(proc):
            s = simfs.Sys(w.sim, w.fs, proc, '/work', dict(ENV))
            if delay:
                w.sim.sleep(proc, delay)
            for a in actions:
                if a[0] == 'put':
                    fd = s.open(a[1], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                    data = a[2].encode()
                    while data:
                        n = s.write(fd, data)
                        data = data[n:]
                    s.close(fd)
                elif a[0] == 'sub':         # edit of whatever the file contains by then
                    old = bytes(w.fs.get(a[1]) or b'')
                    new = old.replace(a[2].encode(), a[3].encode())
                    fd = s.open(a[1], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                    while new:
                        new = new[s.write(fd, new):]
                    s.close(fd)
                elif a[0] == 'touch':
                    s.utime(a[1])
                elif a[0] == 'rm':
                    s.unlink(a[1])
                elif a[0] == 'mv':
                    s.rename(a[1], a[2])
                elif a[0] == 'pkg_touch':
                    w.fs.lookup(PKG + '/' + a[1]).mtime = w.fs.stamp()
                elif a[0] == 'compiler':
                    w.compiler_version[a[1]] = a[2]
                elif a[0] == 'sleep':
                    w.sim.sleep(proc, int(a[1]))
        return self.sim.spawn(name, main, (), start_after)


def outcome(p):
    """Observable result of a finished process: status, stdout, stderr class."""
    r = p.result
    if r is None:
        st = ('unfinished',)
    elif r[0] == 'ok':
        st = ('exit', 0)
    elif r[0] == 'exit':
        c = r[1]
        st = ('exit', 0 if c is None else c if isinstance(c, int) else 1)
    elif r[0] == 'exc':
        st = ('exc', r[1], r[2])
    else:
        st = r
    return st


def stdout(p):
    return p.box.stdout.getvalue() if getattr(p, 'box', None) else ''


def stderr(p):
    return p.box.stderr.getvalue() if getattr(p, 'box', None) else ''
