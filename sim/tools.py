"""Simulated external programs: compilers, LIKWID, IACA, machine-state script.

They are stubs of the real tools with the properties Kerncraft depends on: they read their
inputs and write their output file through the simulated file system in several chunks (so they can
be interleaved, killed half-way or hit I/O errors), reject damaged input, remove their output
when they fail by themselves, and leave it behind torn when they are killed.  What they produce
is a pure function of what they were given (digest), so that using a wrong, stale or mixed-up
intermediate shows up in the report.
"""
import errno
import hashlib
import json
import os
import re

from core import NS, SimKilled, HarnessError

EXE = b'\x7fSIMEXE\n'
OBJ = b'SIMOBJ\n'


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode('utf-8', 'surrogateescape')
        h.update(b'%d:' % len(p))
        h.update(p)
    return h.hexdigest()


# ------------------------------------------------------------------------ compiler
def synth_asm(d, store, stride=False, vary=''):
    """Assembly text with a scalar and a vector loop, parametrised by digest *d*; *vary* changes a detail of the latter."""
    n = int(d[:8], 16)
    unroll = 1 + (n & 1)
    nfp = 1 + (n >> 1) % 4
    off = 8 * ((n >> 4) % 512)
    L = ['\t.file\t"kernel.c"', '\t.text', '\t.globl\tkernel', '\t.type\tkernel, @function',
         'kernel:', '\ttestl\t%edx, %edx', '\tjle\t.L13', '.L6:',
         '\tvmovsd\t%d(%%rsi,%%rax,8), %%xmm0' % off]
    if store:
        L.append('\tvmovsd\t%xmm0, (%rcx,%rax,8)')
    else:
        L.append('\tvaddsd\t%xmm0, %xmm1, %xmm1')
    L += ['\taddq\t$1, %rax', '\tcmpq\t%rax, %rdx', '\tjne\t.L6', '.L4:']
    if vary.startswith('disp'):
        off = int(vary[4:])
    op = 'vmulpd' if vary == 'op' else 'vaddpd'
    base = 'r8' if vary == 'base' else 'rsi'
    for u in range(unroll):
        L.append('\tvmovupd\t%d(%%%s,%%rax), %%ymm0' % (off + 32 * u, base))
        for k in range(nfp):
            L.append('\t%s\t%%ymm0, %%ymm%d, %%ymm0' % (op, (7 if vary == 'reg' else 1) + (n >> (7 + k)) % 6))
        if store:
            L.append('\tvmovupd\t%%ymm0, %s(%%rcx,%%rax)' % (32 * u or ''))
        else:
            L.append('\tvaddpd\t%%ymm0, %%ymm%d, %%ymm%d' % (8 + u, 8 + u))
    if stride:
        L.append('\taddq\t%%%s, %%rax' % stride)           # not known at compile time
    elif store:
        L.append('\taddq\t$%d, %%rax' % (32 * unroll))
    else:
        L.append('\tleaq\t%d(%%rax), %%rax' % (32 * unroll))
    L += ['\tcmpq\t%rdi, %rax', '\tjne\t.L4', '.L13:', '\tret', '\t.size\tkernel, .-kernel',
          '\t.ident\t"SIMCC %s"' % d, '']
    return '\n'.join(L)


def _balanced(src):
    depth = {'{': 0, '(': 0, '[': 0}
    close = {'}': '{', ')': '(', ']': '['}
    for ch in re.sub(r'"[^"\n]*"|//[^\n]*', '', src):
        if ch in depth:
            depth[ch] += 1
        elif ch in close:
            depth[close[ch]] -= 1
            if depth[close[ch]] < 0:
                return False
    return not any(depth.values())


class CompileError(Exception):
    pass


def write_out(ctx, path, data, mode, chunks=3):
    """Write an output file the way compilers do: create/truncate, several writes."""
    s = ctx.sys
    fd = s.open(ctx.path(path), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    try:
        n = max(1, (len(data) + chunks - 1) // chunks)
        for i in range(0, len(data), n):
            part = data[i:i + n]
            while part:
                w = s.write(fd, part)
                part = part[w:]
    finally:
        if not ctx.p.killed:
            s.close(fd)
    if mode != 0o644:
        s.chmod(ctx.path(path), mode)


def gather(ctx, path, incs, seen):
    """Source text with all quoted includes, read through the simulated file system."""
    try:
        text = ctx.read(path).decode('utf-8', 'replace')
    except OSError as e:
        if e.errno == errno.ENOENT:
            raise CompileError('%s: No such file or directory' % path)
        raise
    if not _balanced(text):
        raise CompileError('%s: error: expected declaration at end of input' % path)
    if not text.strip():
        if path.endswith('.h'):
            raise CompileError('%s: error: implicit declaration of function' % path)
        raise CompileError('%s: error: undefined reference' % path)
    out = []
    for line in text.split('\n'):
        m = re.match(r'\s*#\s*include\s*"([^"]+)"', line)
        if m:
            for d in [os.path.dirname(path) or '.'] + incs:
                cand = os.path.join(d, m.group(1))
                if ctx.exists(cand):
                    if os.path.abspath(ctx.path(cand)) not in seen:
                        seen.add(os.path.abspath(ctx.path(cand)))
                        out.append(gather(ctx, cand, incs, seen))
                    break
            else:
                raise CompileError('%s: fatal error: %s: No such file or directory' % (path, m.group(1)))
        else:
            out.append(line)
    return '\n'.join(out)


def prog_cc(ctx):
    name = os.path.basename(ctx.argv[0])
    infiles, incs, flags, out, mode = [], [], [], None, 'link'
    it = iter(ctx.argv[1:])
    for a in it:
        if a == '-o':
            out = next(it, None)
        elif a == '-c':
            if mode != 'S':
                mode = 'c'
        elif a == '-S':
            mode = 'S'
        elif a.startswith('-I'):
            incs.append(a[2:] or next(it, '.'))
        elif a.startswith('-L') or a == '':
            if a == '':
                ctx.eprint('%s: error: : No such file or directory\n' % name)
                return 1
        elif a.startswith('-'):
            flags.append(a)
        else:
            infiles.append(a)
    if not infiles or out is None:
        ctx.eprint('%s: fatal error: no input files\n' % name)
        return 1
    sim, p = ctx.sim, ctx.p
    world = sim.world
    ident = [name, world.compiler_version.get(name, '1')]
    if os.path.abspath(ctx.path(ctx.argv[0])).startswith('/opt/') and '/' in ctx.argv[0]:
        ident.append('other installation')
    codegen = [f for f in flags if not f.startswith("-l") and f != "-pthread"]      # order matters (-O0 -O3)
    sim.probe('exec-' + mode)
    try:
        if sim.take_fault(p, ('cc_fail',)):
            raise CompileError('internal compiler error: simulated')
        parts = []
        store = True
        omp = False             # are the loops shared among threads?
        for f in infiles:
            if f.endswith('.c'):
                src = gather(ctx, f, incs, set())
                if os.path.basename(f).startswith('kernel'):
                    omp = bool(re.search(r'^\s*#\s*pragma\s+omp\s.*\bfor\b', src, re.M))
                    body = src[src.rfind('for'):] if 'for' in src else src
                    store = bool(re.search(r'\]\s*[-+*/]?=[^=]', body))
                    if 'for' not in src:
                        raise CompileError('%s: error: no loop' % f)
                parts.append(re.sub(r'\s+', ' ', src))
            elif f.endswith('.s'):
                text = ctx.read(f).decode('utf-8', 'replace')
                if not re.search(r'^\t\.ident\t"SIMCC [0-9a-f]{64}"\n?$', text, re.M) or \
                        not text.rstrip().endswith('"'):
                    raise CompileError('%s: Error: end of file not at end of a line' % f)
                parts.append(text)
            elif f.endswith('.o'):
                data = ctx.read(f)
                if not (data.startswith(OBJ) and data.endswith(b'\nEND\n')):
                    raise CompileError('%s: file not recognized: file format not recognized' % f)
                omp = omp or b' omp\n' in data[:100]
                parts.append(data)
            else:
                raise CompileError('%s: file not recognized' % f)
        d = digest(*(ident + [' '.join(codegen), mode] + parts))
        sim.sleep(p, world.compile_ns(d))
        if mode == 'S':
            strides = [f[8:] or 'r9' for f in flags if re.match(r'-mstride(r\d+)?$', f)]
            vary = [f[6:] for f in flags if f.startswith('-mvary')]
            data = synth_asm(digest(*(ident + [' '.join(f for f in codegen if not f.startswith(('-mstride', '-mvary')))] + parts)),
                             store, strides and strides[0], vary[0] if vary else '').encode()
            perm = 0o644
        elif mode == 'c':
            data = OBJ + (d + (' omp' if omp else '') + '\n').encode() + b'.' * 300 + b'\nEND\n'
            perm = 0o644
        else:
            names = [os.path.basename(f) for f in infiles]
            if not any(re.match(r'main.*\.c$', n) for n in names) or not any(n.startswith('kernel') for n in names):
                raise CompileError('undefined reference to `kernel\'')
            texts = [x for x in parts if isinstance(x, str)]
            for sym in ('dummy', 'var_false'):
                # called by the generated code
                if any(re.search(r'\b%s\b' % sym, x) for x in texts) and not any(
                        re.search(r'\bvoid %s ?\([^;{)]*\) ?\{|\bint %s ?=' % (sym, sym), x) for x in texts):
                    raise CompileError('undefined reference to `%s\'' % sym)
            if any(re.search(r'\blikwid_marker\w+|\bLIKWID_MARKER\w+', x) for x in texts) and '-llikwid' not in flags:
                raise CompileError('undefined reference to `likwid_markerInit\'')
            params = sorted((n, int(k)) for x in parts if isinstance(x, str)
                            for n, k in re.findall(r'\b(\w+) = (?:atoi|atol|atoll)\(argv\[(\d+)\]\)', x) if n != 'repeat')
            data = EXE + json.dumps({'d': d, 'params': params, 'omp': omp}).encode() + b'\n' + b'.' * 600 + b'\nEND\n'
            perm = 0o755
        die = sim.take_fault(p, ('cc_die',))
        if die:
            # the compiler itself is killed (OOM killer): its partial output stays
            write_out(ctx, out, data[:int(len(data) * (die.arg or 0.5))], perm)
            ctx.eprint('%s: fatal error: Killed signal terminated program cc1\n' % name)
            return world.compiler_death_rc
        try:
            write_out(ctx, out, data, perm)
        except KeyboardInterrupt:
            _rm(ctx, out)
            raise
        except OSError as e:
            _rm(ctx, out)
            raise CompileError('%s: %s' % (out, e.strerror))
        sim.probe('produced-' + mode)
        return 0
    except CompileError as e:
        ctx.eprint('%s: %s\n' % (name, e))
        _rm(ctx, out)
        return 1
    except OSError as e:
        ctx.eprint('%s: error: %s\n' % (name, e))
        _rm(ctx, out)
        return 1


def _rm(ctx, path):
    try:
        ctx.sys.unlink(ctx.path(path))
    except OSError:
        pass


# ------------------------------------------------------------------------ LIKWID
CPU_NAME = 'Intel(R) Xeon(R) CPU E5-2680 0 @ 2.70GHz'
CPU_TYPE = 'Intel Xeon SandyBridge EN/EP processor'


def topology_text(w):
    """likwid-topology output for the world's (small) machine."""
    cps, tpc, sockets = w.hw['cores'], w.hw['tpc'], w.hw['sockets']
    L = ['-' * 80, 'CPU name:\t%s' % CPU_NAME, 'CPU type:\t%s' % CPU_TYPE, 'CPU stepping:\t7',
         '*' * 80, 'Hardware Thread Topology', '*' * 80,
         'Sockets:\t\t%d' % sockets, 'Cores per socket:\t%d' % cps, 'Threads per core:\t%d' % tpc,
         '-' * 80, 'HWThread\tThread\t\tCore\t\tSocket\t\tAvailable']
    n = 0
    for t in range(tpc):
        for s in range(sockets):
            for c in range(cps):
                L.append('%d\t\t%d\t\t%d\t\t%d\t\t*' % (n, t, s * cps + c, s))
                n += 1
    L += ['-' * 80, 'Cache Topology', '*' * 80]
    for lvl, size, shared in (('1', '32 kB', 1), ('2', '256 kB', 1), ('3', '20 MB', cps)):
        groups = ' '.join('( %d )' % i for i in range(cps * sockets // shared))
        L += ['Level:\t\t\t%s' % lvl, 'Size:\t\t\t%s' % size, 'Cache groups:\t\t%s' % groups,
              '-' * 80]
    L += ['NUMA Topology', '*' * 80, 'NUMA domains:\t\t%d' % sockets, '-' * 80]
    return '\n'.join(L) + '\n'


def prog_topology(ctx):
    w = ctx.sim.world
    if ctx.sim.take_fault(ctx.p, ('cc_fail',)):
        return 1
    ctx.print(topology_text(w))
    return 0


def _exe_of(ctx, path):
    try:
        data = ctx.read(path)
    except OSError:
        return None
    if not (data.startswith(EXE) and data.endswith(b'\nEND\n')):
        return None
    n = ctx.box.fs.lookup(ctx.path(path))
    if not n.mode & 0o111:
        return None
    return json.loads(data[len(EXE):].split(b'\n')[0].decode())


REG = re.compile(r'^(FIXC[0-2]|PMC[0-7]|MBOX[0-7](C[0-3]|FIX)|CBOX[0-7]C[0-3]|PWR[0-3]|UPMC[0-3])$')


def prog_perfctr(ctx):
    sim, w, p = ctx.sim, ctx.sim.world, ctx.p
    args = list(ctx.argv[1:])
    if '-a' in args:
        if sim.take_fault(p, ('cc_fail',)):
            return 1
        ctx.print('Group name\tDescription\n' + '-' * 80 + '\n' +
                  ''.join('%10s\t%s\n' % (g, g.lower() + ' group') for g in w.likwid_groups))
        return 0
    group = cores = None
    marker = force = csv = False
    i = 0
    while i < len(args):
        a = args[i]
        if a in ('-f', '-O', '-m'):
            marker = marker or a == '-m'
            force = force or a == '-f'
            csv = csv or a == '-O'
            i += 1
        elif a == '-g':
            group = args[i + 1]
            i += 2
        elif a == '-C':
            cores = args[i + 1]
            i += 2
        else:
            break
    cmd = args[i:]
    exe = _exe_of(ctx, cmd[0]) if cmd else None
    rec = {'group': group, 'cores': cores, 'cmd': cmd, 'proc': p.name,
           'omp': ctx.env.get('OMP_NUM_THREADS'), 'ok': False, 't': sim.now}
    w.measurements.append(rec)
    if exe is None:
        ctx.eprint('ERROR: cannot execute %s\n' % (cmd[:1],))
        w.bad_exec.append((p.name, cmd[:1], 'damaged executable'))
        return 126
    rec['d'] = exe['d']
    rec['shared'] = exe.get('omp')
    m = re.match(r'\s*[-+]?\d+', cmd[1]) if len(cmd) > 1 else None
    reps = int(m.group()) if m else 0          # atoi()
    rec['reps'] = reps
    if group in w.likwid_groups:
        evs = [('INSTR_RETIRED_ANY', 'FIXC0'), ('CPU_CLK_UNHALTED_CORE', 'FIXC1')]
        is_group = True
    else:
        evs, is_group = [], False
        for e in group.split(','):
            parts = e.split(':')
            if len(parts) < 2:
                ctx.eprint('ERROR: unknown group\n')
                return 1
            evs.append((parts[0], ':'.join(parts[1:])))
        regs = [r.split(':')[0] for _, r in evs]
        if len(set(regs)) != len(regs) or not all(REG.match(r) for r in regs):
            w.bad_exec.append((p.name, group, 'counter register programmed twice'))
            ctx.eprint('ERROR: counter registers conflict\n')
            return 1
    if not force:
        # the watchdog of the operating system uses one of the counters
        ctx.eprint('ERROR: The selected register FIXC1 is in use.\nPlease run likwid with force option (-f, --force) '
                   'to overwrite settings\n')
        return 1
    rec['vals'] = sorted((n, cmd[k]) for n, k in exe.get('params', ()) if k < len(cmd))
    rec['events'] = evs if not is_group else []
    regions = exe.get('regions') if marker else None
    factor = exe.get('weights')
    if factor is not None:
        # a binary of the user: run time is a product of powers of its arguments
        runtime = exe.get('base', 1e-6)
        for x, e in zip(cmd[1:], factor):
            try:
                runtime *= max(float(x), 1e-30) ** e
            except (ValueError, OverflowError):
                pass
    else:
        runtime = w.rep_seconds(exe['d'], cmd[2:], rec['vals']) * max(reps, 0)
    runtime *= w.noise(sim)
    table = [(n, runtime * f, c) for n, f, c in regions] if regions else \
        [('loop' if marker else '', runtime, max(reps, 1))]
    sim.sleep(p, max(1, int(min(sum(x[1] for x in table), 1e4) * NS)))
    if sim.take_fault(p, ('cc_fail',)):
        ctx.eprint('ERROR: benchmark crashed\n')
        return 1
    die = sim.take_fault(p, ('cc_die',))
    clock = rec['clock'] = w.clock_now()
    L = ['-' * 80, 'CPU name:,%s,' % CPU_NAME, 'CPU type:,%s,' % CPU_TYPE,
         'CPU clock:,%s,' % clock, '-' * 80]
    rec['regions'] = {}
    for name, rt, calls in table:
        if exe.get('digits') is not None:
            shown = '%.*f' % (exe['digits'], rt)
        else:
            shown = '%.9g' % rt
        pre = 'Region %s,' % name if marker else ''
        L.append('TABLE,%sGroup 1 Raw,%s,' % (pre, group if is_group else 'Custom'))
        if marker:
            L += ['Region Info,HWThread 0', 'RDTSC Runtime [s],%s' % shown, 'call count,%d' % calls]
        L += ['Event,Counter,HWThread 0,']
        for e, r in evs:
            L.append('%s,%s,%s' % (e, r, w.counter_text(exe['d'] + (name if regions else ''), e, r, reps, cmd[2:])))
        L += ['TABLE,%sGroup 1 Metric,Custom,' % pre, 'Metric,HWThread 0,', 'Runtime (RDTSC) [s],%s' % shown]
        r = rec['regions'][name] = {'runtime': float(shown), 'calls': calls}
        if is_group and group == 'MEM':
            r['vol'] = float('%.9g' % (reps * (1 + int(digest(exe['d'], name if regions else '')[:4], 16)) * 1e-6))
            r['bw'] = float('%.6g' % (r['vol'] * 1e3 / rt if rt else 0))
            L += ['Memory bandwidth [MBytes/s],%.6g' % r['bw'], 'Memory data volume [GBytes],%.9g' % r['vol']]
    if not csv:
        L = ['| ' + ' | '.join(l.split(',')) + ' |' for l in L]
    text = '\n'.join(L) + '\n'
    if die:
        ctx.print(text[:int(len(text) * (die.arg or 0.5))])
        return 137
    rec['ok'] = True
    rec['runtime'] = runtime
    ctx.print(text)
    return 0


def prog_bench(ctx):
    sim, w, p = ctx.sim, ctx.sim.world, ctx.p
    args = ctx.argv[1:]
    if '-a' in args:
        if sim.take_fault(p, ('cc_fail',)):
            return 1
        ctx.print('\n'.join('%s - %s' % (k, 'double-precision ' + k) for k in w.bench_kernels) + '\n')
        return 0
    kernel = args[args.index('-t') + 1] if '-t' in args else None
    wl = [args[i + 1] for i, a in enumerate(args) if a == '-W']
    rec = {'kernel': kernel, 'w': tuple(wl), 'proc': p.name, 'ok': False, 't': sim.now}
    w.bench_runs.append(rec)
    sim.sleep(p, int(0.4 * NS))
    if kernel not in w.bench_kernels or not wl or kernel in w.bench_unsupported:
        ctx.print('Illegal instruction\n')
        return 132
    if sim.take_fault(p, ('cc_fail', 'cc_die')):
        ctx.print('ERROR\n')
        return 1
    m = re.match(r'^S(\d+):(\d+)kB:(\d+):1:(\d+)$', wl[0])
    if not m:
        ctx.print('ERROR: cannot parse workgroup\n')
        return 1
    if int(m.group(2)) <= 0:
        ctx.print('ERROR: size\n')
        return 1
    mb = w.bench_bw(kernel, wl[0], len(w.bench_runs))
    rec['ok'], rec['bw'] = True, mb
    ctx.print('Cycles:\t\t%d\nTime:\t\t4.0e-01 sec\nMByte/s:\t\t%.2f\n' % (1000, mb))
    return 0


def prog_state(ctx):
    ctx.print('hostname: sim\nturbo: off\n')
    return 0


# ------------------------------------------------------------------------ IACA
def prog_iaca(ctx):
    sim = ctx.sim
    obj = ctx.argv[-1]
    try:
        data = ctx.read(obj)
    except OSError:
        return 1
    if not (data.startswith(OBJ) and data.endswith(b'\nEND\n')):
        return 1
    sim.sleep(ctx.p, NS // 10)
    if sim.take_fault(ctx.p, ('cc_fail', 'cc_die')):
        return 1
    d = digest(data, ' '.join(ctx.argv[1:-1]))
    v = [int(d[i:i + 2], 16) / 4.0 for i in range(0, 24, 2)]
    ctx.print(
        'Intel(R) Architecture Code Analyzer Version - 2.3\nThroughput Analysis Report\n'
        '--------------------------\nBlock Throughput: %.2f Cycles       Throughput Bottleneck: Port\n'
        '\nPort Binding In Cycles Per Iteration:\n'
        '| Port   |   0   -  DV   |   1   |   2   -  D    |   3   -  D    |   4   |   5   |\n' % max(v))
    ctx.print('|  Port  |   0   -  DV   |   1   |   2   -  D    |   3   -  D    |   4   |   5   |\n')
    ctx.print('| Cycles | %.1f    %.1f  | %.1f  | %.1f    %.1f  | %.1f    %.1f  | %.1f  | %.1f  |\n'
              % tuple(v[:9]))
    ctx.print('Total Num Of Uops: %d\n' % (int(d[30:33], 16)))
    return 0


def prog_mca(ctx):
    """llvm-mca: answers with numbers drawn from the assembly and the options."""
    sim = ctx.sim
    code = ctx.stdin
    if not code.strip() or not any(a.startswith('-mcpu=') for a in ctx.argv):
        ctx.eprint('error: no assembly instructions found.\n')
        return 1
    sim.sleep(ctx.p, NS // 10)
    if sim.take_fault(ctx.p, ('cc_fail', 'cc_die')):
        ctx.print('Iterations:        100\n')
        return 1
    d = digest(code, ' '.join(a for a in ctx.argv[1:] if a.startswith('-m')))
    lines = [l for l in code.decode().split('\n') if l.strip() and not l.strip().startswith(('.', '#'))]
    v = [int(d[i:i + 2], 16) for i in range(0, 48, 2)]
    ports = ['[0]', '[1]', '[2]', '[3]', '[4]', '[5]', '[6.0]', '[6.1]']
    names = ['SBDivider', 'SBFPDivider', 'SBPort0', 'SBPort1', 'SBPort4', 'SBPort5', 'SBPort23', 'SBPort23']
    ctx.print('Iterations:        100\nInstructions:      %d00\nTotal Cycles:      %d\nTotal uOps:        %d\n\n'
              % (len(lines), 100 + v[0] * 7 + v[1], 100 * (1 + v[2])))
    ctx.print('Dispatch Width:    4\n\n\nResources:\n%s\n\n\n' % '\n'.join(
        '%-5s - %s' % x for x in zip(ports, names)))
    ctx.print('Resource pressure per iteration:\n%s\n%s\n\n' % (
        ''.join('%-7s' % x for x in ports),
        ''.join(' -     ' if x == 0 else ' %-6.2f' % (x / 16.0) for x in [0] + v[3:10])))
    ctx.print('Resource pressure by instruction:\n%s Instructions:\n' % ''.join('%-7s' % x for x in ports))
    for l in lines:
        ctx.print(' -     ' * 8 + l.strip() + '\n')
    ctx.print('\n\nTimeline view:\n                    01234567\nIndex     0123456789        \n\n')
    for k in range(2):
        for j, l in enumerate(lines):
            ctx.print('[%d,%d]     %s%s%sER   %s\n' % (k, j, '.' * (j % 3), 'D', 'e' * (1 + v[j % 24] % 9), l.strip()))
    return 0


PROGRAMS = {
    'llvm-mca': prog_mca, 'gcc': prog_cc, 'clang': prog_cc, 'icc': prog_cc, 'likwid-perfctr': prog_perfctr,
    'likwid-bench': prog_bench, 'likwid-topology': prog_topology, 'machine-state.sh': prog_state,
    'iaca': prog_iaca,
}
