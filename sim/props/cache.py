"""Properties of the shared store of intermediate results next to a kernel file."""
import itertools

from .base import *

ALL = ['m.yml', 'n.yml', 'mach2/m.yml', 'c.yml']


def base_files(kern, kpath='/work/k.c'):
    files = dict((p, {'t': t}) for p, t in W.MACHINES.items())
    files[kpath] = {'t': ['kernel', kern]}
    return files


class P01(Prop):
    """Concurrent runs on one kernel file."""
    ID = 'P01'
    rule = ('2-4 kerncraft processes on one kernel file, random settings and start delays, '
            'scheduler picks every interleaving; each report compared with a lone run')

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1 + ['2d5pt', 'const'])
        kpath = rng.choice(['k.c', 'k.c', 'sub/k.c'])
        nproc = rng.choice([2, 2, 3, 3, 4])
        same = rng.random() < 0.5
        machines = [rng.choice(ALL)] if rng.random() < 0.5 else ALL
        procs = []
        n = rng.choice([200, 400, 640])
        first = None
        for k in range(nproc):
            sp = W.random_cli(rng, 'r%d' % k, machines, kpath, kern, spread=0.3 if same else 1.0)
            if same and first is not None and rng.random() < 0.7:
                sp['args'] = list(first['args'])
            first = first or sp
            if rng.random() < 0.5:
                sp['delay'] = round(rng.choice([0.05, 0.3, 1.0]) * rng.random(), 3)
            procs.append(sp)
        if same and rng.random() < 0.2:
            # users asked at the same time, each with choices of his own
            model = rng.choice(['ECM', 'ECMCPU', 'RooflineASM'])
            for k, sp in enumerate(procs):
                for j, x in enumerate(sp['args']):
                    if x == '-p':
                        sp['args'][j + 1] = model
                W.interactive(rng, sp, k)
        elif rng.random() < 0.25:
            # some of them clean up when they are done
            for sp in procs:
                if rng.random() < 0.6:
                    sp['args'].insert(0, '--clean-intermediates')
        return {'seed': i, 'policy': W.policy(rng), 'cfg': {'iaca': True},
                'files': base_files(kern, '/work/' + kpath), 'phases': [procs]}

    def judge(self, run):
        return check_reports(run)


# ------------------------------------------------------------------------------------ P02
class LockWatch(Recorder):
    """At most one live producer per intermediate, no reader of one being written in place."""

    def result(self, run):
        v = []
        ps = finals(productions(self))
        by = {}
        for path, pid, b, e, how, ino, orphan in ps:
            if not orphan:
                by.setdefault(path, []).append((b, e, pid, how, ino))
        names = dict((p.pid, p.name) for p in run.sim.procs)
        for path, l in sorted(by.items()):
            l.sort()
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    if l[i][2] != l[j][2] and l[j][0] < l[i][1]:
                        v.append(('two-producers', '%s and %s both produce %s (steps %d-%d, %d-%d)' % (
                            names[l[i][2]], names[l[j][2]], path, l[i][0], l[i][1], l[j][0], l[j][1])))
        for step, pid, op, path, ino, info, orphan, prog in self.ev:
            if op == 'open' and info and info[0] and in_cache(path):
                for b, e, wpid, how, wino in by.get(path, ()):
                    if wpid != pid and how == 'write' and b < step < e and wino == ino:
                        v.append(('read-during-write', '%s reads %s at step %d while %s writes it '
                                  '(%d-%d)' % (names[pid], path, step, names[wpid], b, e)))
        return v[:3]


class P02(Prop):
    ID = 'P02'
    rule = ('2-5 processes on one kernel file, up to two of them killed (alone or with their '
            'compiler) at a random system call; lock protocol and progress observed')

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1 + ['2d5pt'])
        nproc = rng.choice([2, 3, 3, 4, 5])
        args = W.random_cli(rng, 'x', [rng.choice(ALL)], 'k.c', kern, spread=0.3,
                            models=['ECM', 'RooflineASM', 'Benchmark', 'ECMCPU', 'LC', 'ECMData'])['args']
        procs = []
        for k in range(nproc):
            if rng.random() < 0.75:
                sp = {'name': 'r%d' % k, 'module': 'kerncraft.kerncraft', 'args': list(args)}
            else:
                sp = W.random_cli(rng, 'r%d' % k, [rng.choice(ALL)], 'k.c', kern, spread=0.3)
            if rng.random() < 0.5:
                sp['delay'] = round(rng.choice([0.02, 0.1, 0.5]) * rng.random(), 3)
            if k < nproc - 1 and rng.random() < 0.4:
                kind = rng.choice(['kill', 'kill', 'okill', 'int', 'cc_fail', 'cc_die', 'stall', 'eio_w'])
                sp['faults'] = [{'at': rng.randrange(20, 220), 'kind': kind,
                                 'arg': 'prog' if kind == 'okill' else rng.choice([0, 0.3, 0.9])}]
                if kind == 'stall':
                    sp['faults'][0]['arg'] = rng.choice([1, 30, 4000])
            procs.append(sp)
        cfg = {'iaca': True}
        if rng.random() < 0.4:
            # slow compilers
            cfg['compile_ns'] = rng.choice([(10 ** 9, 10 ** 10), (10 ** 10, 10 ** 12)])
        return {'seed': i, 'policy': W.policy(rng), 'cfg': cfg,
                'files': base_files(kern), 'phases': [procs]}

    def observers(self, spec):
        return (LockWatch,)

    def count(self, run):
        return {'runs_with_lock_wait': 1 if run.sim.probes.get('flock-wait') else 0}


# ------------------------------------------------------------------------------------ P03
FAULTS = ['kill', 'kill', 'kill', 'okill', 'okill', 'int', 'int', 'enospc', 'enospc', 'eio_w', 'eio_r', 'short',
          'cc_fail', 'cc_die', 'cc_die', 'emfile', 'erofs_ren', 'stall']


def random_fault(rng, at):
    k = rng.choice(FAULTS)
    f = {'at': at, 'kind': k}
    if k in ('kill', 'cc_die'):
        f['arg'] = rng.choice([0, 0, 0.1, 0.5, 0.95]) if k == 'kill' else rng.choice([0.05, 0.5, 0.97])
    elif k in ('enospc', 'eio_w'):
        f['arg'] = rng.choice([0, 0, 2, 10])
    elif k == 'okill' and rng.random() < 0.75:
        f['arg'] = 'prog'
    if k in ('cc_fail', 'cc_die') and rng.random() < 0.6:
        f['at'], f['skip'] = 1, rng.choice([0, 1, 1, 2, 2, 3, 4])
    return f


class P03(Prop):
    ID = 'P03'
    budget = {'quick': (900, 75), 'thorough': (40000, 840)}
    rule = ('one run (or two concurrent ones) hit by 1-2 faults at a stratified system-call index, '
            'then undisturbed runs of the same and of other settings; all reports compared')

    def gen(self, rng, i, tier):
        kern = rng.choice(['copy', 'scale', 'sum', '1d3pt', '2d5pt'])
        spread = 0.25
        model = ['ECM', 'RooflineASM', 'Benchmark', 'ECMCPU', 'LC', 'ECMData', 'ECM', 'Benchmark'][i % 8]
        m = rng.choice(['m.yml', 'n.yml'])
        args = W.random_cli(rng, 'x', [m], 'k.c', kern, spread=spread, models=[model])['args']
        spec = {'seed': i, 'policy': W.policy(rng), 'cfg': {'iaca': True, 'compiler_death_rc': rng.choice([-9, 1])},
                'files': base_files(kern), 'phases': [[]]}
        victim = {'name': 'v', 'module': 'kerncraft.kerncraft', 'args': list(args)}
        if rng.random() < 0.25:
            # slow compilers, which may outlive the run that started them for long
            spec['cfg']['compile_ns'] = (10 ** 9, 10 ** 10)
        spec['gap'] = rng.choice([2, 2, 0, 0.1])
        n = H.reference(spec, 0, victim).count
        clean = rng.random() < 0.15
        if clean:
            # hit while cleaning up, too
            victim['args'].insert(0, '--clean-intermediates')
            n += n // 4
        # golden-ratio stepping covers the whole run evenly whatever the number of runs
        at = 1 + int(((i // 8) * 0.6180339887 + rng.random() * 0.01) % 1.0 * n)
        victim['faults'] = [random_fault(rng, at)]
        if victim['faults'][0]['kind'] in ('cc_fail', 'cc_die') and model in ('ECM', 'ECMCPU', 'RooflineASM') and \
                '-i' not in args and rng.random() < 0.6:
            # more programs to fail: the assembly gets assembled
            args = ['-i', rng.choice(['IACA', 'IACA', 'LLVM-MCA'])] + args
            victim['args'] = (['--clean-intermediates'] if clean else []) + args
        if rng.random() < 0.25:
            victim['faults'].append(random_fault(rng, rng.randrange(1, n + 1)))
        ph0 = [victim]
        if rng.random() < 0.35:
            sp = {'name': 'c', 'module': 'kerncraft.kerncraft', 'args': list(args)}
            if rng.random() < 0.5:
                sp['delay'] = round(rng.random() * 0.8, 3)
            if rng.random() < 0.15:
                sp['args'].insert(0, '--clean-intermediates')
            ph0.append(sp)
        later = [{'name': 'n0', 'module': 'kerncraft.kerncraft', 'args': list(args)}]
        if rng.random() < 0.5:
            later.append(W.random_cli(rng, 'n1', ['m.yml', 'n.yml'], 'k.c', kern, spread=spread))
        spec['phases'] = [ph0] + ([later] if rng.random() < 0.5 else [[x] for x in later])
        return spec

    def judge(self, run):
        return check_reports(run)

    def valid(self, spec):
        return True


# ------------------------------------------------------------------------------------ P04
class P04(Prop):
    ID = 'P04'
    rule = ('histories of runs and edits (kernel, machine file, installed package) under time stamp '
            'granularities from 1 ns to 2 s; reports compared with a cold run on the edited inputs, '
            'and no intermediate that predates the last relevant change is opened for reading')

    def observers(self, spec):
        return (Recorder,)

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1)
        spec = {'seed': i, 'policy': W.policy(rng), 'cfg': {'iaca': True}, 'files': base_files(kern),
                'gran': rng.choice([1, 1000000, 4000000, 1000000000, 2000000000]),
                'gap': rng.choice([0, 0, 0.001, 0.3, 2, 3600]), 't_off': rng.randrange(0, 2 * NS), 'phases': []}
        if rng.random() < 0.2:
            spec['real'] = dict((x, y) for x, y in (('/work/m.yml', '/work/real/m1.yml'), ('/work/k.c', '/src/k.c'))
                                if rng.random() < 0.6)
        # every run takes at least one package walk etc.; edits are separate phases
        args = W.random_cli(rng, 'x', ['m.yml'], 'k.c', kern, spread=0.3)['args']
        args2 = W.random_cli(rng, 'x', ['m.yml', 'n.yml'], 'k.c', kern, spread=0.3)['args']
        n = 0
        ver = 3
        for k in range(rng.choice([2, 2, 3])):
            ph = []
            for q in range(rng.choice([1, 1, 2])):
                ph.append({'name': 'r%d' % n, 'module': 'kerncraft.kerncraft',
                           'args': list(args if rng.random() < 0.75 else args2)})
                n += 1
            spec['phases'].append(ph)
            acts = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                r = rng.random()
                if r < 0.5:
                    kern2 = rng.choice([x for x in W.K1 if x != kern])
                    kern = kern2
                    acts.append(['put', '/work/k.c', ['kernel', kern2]])
                elif r < 0.85:
                    ver += 1
                    acts.append(['put', '/work/' + rng.choice(['m.yml', 'm.yml', 'n.yml']),
                                 ['machine', {'v': ver % 7, 'clock': 2.7}]])
                else:
                    acts.append(['pkg_touch', rng.choice(['kernel.py', 'incore_model.py', 'models/ecm.py',
                                                          'headers/kerncraft.h', 'headers/timing.h',
                                                          'machinemodel.py', 'models/benchmark.py', 'symbolic/utils.py',
                                                          'cacheprediction.py', 'headers/dummy.c'])])
            spec['phases'].append([{'name': 'e%d' % k, 'kind': 'edit', 'actions': acts}])
        ph = [{'name': 'r%d' % n, 'module': 'kerncraft.kerncraft', 'args': list(args)}]
        spec['phases'].append(ph)
        return spec

    def judge(self, run):
        v = check_reports(run)
        if v:
            return v
        return stale_reads(run)

    def count(self, run):
        return {'edits': sum(len(sp['actions']) for ph in run.phases for sp, p in ph
                             if sp.get('kind') == 'edit')}


def stale_reads(run):
    """Intermediates opened by a run although produced before the kernel file or the package
    last changed (production observed directly, not by time stamp)."""
    rec = run.obs[0]
    ends = dict((pid, step) for step, pid, op, path, info in run.sim.log if op == 'end')
    change = []
    for ph in run.phases:
        for sp, p in ph:
            if sp.get('kind') == 'edit' and any(a[0] == 'pkg_touch' or (a[0] == 'put' and a[1] == '/work/k.c')
                                                for a in sp['actions']):
                change.append(ends.get(p.pid, 0))
    if not change:
        return []
    last_prod = {}
    names = dict((p.pid, p.name) for p in run.sim.procs)
    for step, pid, op, path, ino, info, orphan, prog in rec.ev:
        if op in ('write', 'truncate', 'create'):
            last_prod[path] = step
        elif op == 'rename':
            last_prod[posixpath.normpath(info)] = step
        elif op == 'open' and info and info[0] and not info[1] and in_cache(path):
            before = [c for c in change if c < step]
            if before and last_prod.get(path, 0) < before[-1]:
                return [('stale-read', '%s reads %s, produced at step %d, before the change at step %d' % (
                    names[pid], path, last_prod.get(path, 0), before[-1]))]
    return []


# ------------------------------------------------------------------------------------ P05
class ExecLog(Recorder):
    def __init__(self, w, keep=None):
        Recorder.__init__(self, w, keep)
        self.execs = []
        w.sim.exec_observers.append(lambda p, path, argv: self.execs.append((w.sim.step, p.pid, path, list(argv))))


class P05(Prop):
    ID = 'P05'
    rule = ('1-4 processes start together on a cold or warm store, further runs of the same settings '
            'follow; productions of every intermediate and compiler starts are counted')

    def observers(self, spec):
        return (ExecLog,)

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1 + ['2d5pt'])
        args = []
        for k in range(rng.choice([1, 1, 2])):
            args.append(W.random_cli(rng, 'x', ['m.yml', 'n.yml'], 'k.c', kern, spread=0.4)['args'])
        procs, n = [], 0
        for k in range(rng.choice([1, 2, 3, 4])):
            sp = {'name': 'a%d' % k, 'module': 'kerncraft.kerncraft', 'args': list(args[k % len(args)])}
            if rng.random() < 0.5:
                sp['delay'] = round(rng.choice([0.02, 0.2, 0.8]) * rng.random(), 3)
            procs.append(sp)
        later = [{'name': 'b%d' % k, 'module': 'kerncraft.kerncraft', 'args': list(procs[k % len(procs)]['args'])}
                 for k in range(rng.choice([1, 2, 2]))]
        return {'seed': i, 'policy': W.policy(rng), 'cfg': {'iaca': True},
                'gap': rng.choice([0, 2, 86400]), 'files': base_files(kern), 'phases': [procs, later]}

    def judge(self, run):
        v = []
        if any(outcome(p) != ('exit', 0) for _, _, p in run.cli()):
            return []           # judged by P01
        rec = run.obs[0]
        ps = finals(productions(rec))
        by = {}
        for path, pid, b, e, how, ino, orphan in ps:
            by.setdefault(path, []).append((b, e, pid))
        names = dict((p.pid, p.name) for p in run.sim.procs)
        second = set(p.pid for sp, p in run.phases[1]) if len(run.phases) > 1 else set()
        first = set(p.pid for sp, p in run.phases[0])
        done = [sp['args'] for sp, p in run.phases[0]]
        for path, l in sorted(by.items()):
            pids = set(x[2] for x in l)
            if len(pids) > 1:
                v.append(('produced-twice', '%s is produced by %s' % (
                    path, ', '.join(names[x[2]] for x in l))))
        again = [q for q in ps if q[1] in second]
        for sp, p in (run.phases[1] if len(run.phases) > 1 else ()):
            if sp['args'] not in done:
                continue
            mine = [q for q in ps if q[1] == p.pid]
            if mine:
                v.append(('not-reused', '%s produces %s again' % (p.name, mine[0][0])))
            ex = [e for e in rec.execs if e[1] == p.pid and e[2].rsplit('/', 1)[-1] in
                  ('gcc', 'clang', 'icc', 'iaca2.2', 'iaca2.3', 'iaca3.0', 'iaca', 'llvm-mca')]
            if ex:
                v.append(('tool-run-again', '%s runs %s again' % (p.name, ' '.join(ex[0][3])[:150])))
        return v

    def valid(self, spec):
        return len(spec['phases']) == 2 and all(
            sp['args'] in [x['args'] for x in spec['phases'][0]] for sp in spec['phases'][1]) \
            or len(spec['phases']) == 1 and spec['phases'][0][0]['name'].startswith('a')


# ------------------------------------------------------------------------------------ P06
FLAGS = ['-O0', '-O3', '-O1', '-mavx', '-mno-avx', '-DX=1', '-DX=2', '-DX=1/2', '-DX=12', '-DX=1_2', '-DX_=1', '-D_X=1',
         '-ffast-math', '-fno-fast-math', '-O3_-mavx', '-DX=1%2F2', '-DX=(1)', '-DX=.']


def vary_flags(rng, old=None):
    """Compiler flags; often a small change of the old ones (order, repetition, one flag)."""
    l = old.split(' ') if old else [rng.choice(FLAGS) for _ in range(rng.choice([1, 2, 2, 3]))]
    r = rng.random()
    if old is None or r < 0.15:
        pass
    elif r < 0.5 and len(l) > 1:
        rng.shuffle(l)
    elif r < 0.6:
        l.append(rng.choice(l))
    elif r < 0.75:
        l[rng.randrange(len(l))] = rng.choice(FLAGS)
    elif r < 0.9:
        i = rng.randrange(len(l))
        l[i] = rng.choice([x for x in (l[i].replace('/', ''), l[i].replace('/', '_'), l[i].replace('_', '/'),
                                       l[i].replace('%2F', '/'), l[i].replace('=', '=/')) if ' ' not in x])
    else:
        l = '_'.join(l).split('_-')
        l = [l[0]] + ['-' + x for x in l[1:]]
    return ' '.join(l)


class P06(Prop):
    ID = 'P06'
    rule = ('histories of 3-6 runs with different machines, cores, compilers, flags, predictors, in-core '
            'models, increments, constants and models on one kernel file; every report compared '
            'with a cold run')

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1 + ['2d5pt', 'const'])
        phases = []
        focus = rng.choice(['machine', 'cores', 'flags', 'compiler', 'incore', 'incr', 'pred', 'const', 'mix', 'mix', 'twice', 'asm', 'flags', 'dirs',
                            'manual', 'manual'])
        base = {'machine': rng.choice(ALL), 'model': rng.choice(['ECM', 'RooflineASM', 'ECMCPU', 'ECMData',
                                                                'LC', 'RooflineFLOP', 'Benchmark']),
                'n': rng.choice([200, 400]), 'predictor': rng.choice([None, 'LC'])}
        dirs = []
        # what the users of manual selections have in common
        shared = [rng.choice(['IACA', 'IACA', 'OSACA', 'LLVM-MCA', None]), rng.choice(['8', '32', 'manual', None])]
        for k in range(4):
            d = 'x%04x' % rng.randrange(65536)
            dirs += [('m.yml', d, '/work/' + d), ('%s/m.yml' % d, d, '/work')]
        for k in range(rng.choice([2, 3, 4] if tier == 'quick' else [3, 4, 6])):
            o = dict(base)
            cwd = '/work'
            def vary(x):
                if x == 'dirs':
                    # machine files of one name in many directories, given relative to the current one
                    m, _, cwd = dirs[0] if k == 0 else rng.choice(dirs)
                    o['machine'] = m
                    return cwd
                if x == 'machine':
                    o['machine'] = rng.choice(ALL)
                elif x == 'cores':
                    o['cores'] = rng.choice([1, 2, 3, 4])
                elif x == 'flags':
                    o['flags'] = vary_flags(rng, o.get('flags') or base.get('flags'))
                    base['flags'] = o['flags']
                elif x == 'compiler':
                    o['compiler'] = rng.choice(['gcc', 'clang', None, 'gcc', '/sim/bin/gcc', '../sim/bin/gcc',
                                                '../opt/sim/bin/gcc', '/opt/sim/bin/clang'])
                    if o['compiler'] and '/' in o['compiler']:
                        o.setdefault('flags', '-O2')
                elif x == 'incore':
                    o['incore'] = rng.choice(['OSACA', 'IACA', 'LLVM-MCA', None])
                elif x == 'incr':
                    o['incr'] = rng.choice([8, 16, 32, 64, -32, -64, 'auto'])
                    if rng.random() < 0.3:
                        o['block'] = rng.choice([0, 1, 'auto'])
                elif x == 'pred':
                    o['predictor'] = rng.choice([None, 'LC', 'SIM'])
                elif x == 'const':
                    o['n'] = rng.choice([160, 200, 400, 640])
            if focus == 'mix':
                for x in ('machine', 'cores', 'flags', 'compiler', 'incore', 'incr', 'pred', 'const'):
                    if rng.random() < 0.35:
                        vary(x)
                if rng.random() < 0.4:
                    o['model'] = W.model_names(rng)
            elif focus == 'manual':
                o['incore'] = shared[0] or rng.choice(['OSACA', 'OSACA', 'IACA', 'LLVM-MCA'])
                o['model'] = rng.choice(['ECM', 'RooflineASM', 'ECMCPU'])
            elif focus == 'asm':
                o['incr'] = rng.choice([-32, -32, 64, 'auto'])
                o['block'] = rng.choice([0, 0, 1, 1, 'auto', None])
                o['incore'] = rng.choice(['OSACA', 'IACA', 'LLVM-MCA'])
                o['model'] = rng.choice(['ECM', 'RooflineASM', 'ECMCPU'])
            elif focus == 'twice':
                if rng.random() < 0.5:
                    o['model'] = W.model_names(rng)
            else:
                vary(focus)
                if focus in ('incr', 'incore') and o['model'] in ('LC', 'ECMData', 'RooflineFLOP', 'Benchmark'):
                    o['model'] = rng.choice(['ECM', 'RooflineASM', 'ECMCPU'])
                if focus in ('flags', 'compiler') and o['model'] in ('LC', 'ECMData', 'RooflineFLOP'):
                    o['model'] = rng.choice(['ECM', 'Benchmark'])
            if focus == 'dirs':
                cwd = vary('dirs')
            mach, model = o.pop('machine'), o.pop('model')
            args = W.cli_args(rng, mach, 'k.c' if cwd == '/work' else '../k.c', kern, model=model, **o)
            phases.append([{'name': 'r%d' % k, 'module': 'kerncraft.kerncraft', 'args': args, 'cwd': cwd}])
            if focus == 'manual' and rng.random() < 0.85:
                W.interactive(rng, phases[-1][0], k, incr=shared[1])
        if rng.random() < 0.5:
            phases.append([dict(phases[0][0], name='again')])
        files = base_files(kern)
        if focus == 'dirs':
            for k, (_, d, _) in enumerate(dirs[::2]):
                files['/work/%s/m.yml' % d] = {'t': ['machine', {'v': k + 4}]}
        return {'seed': i, 'policy': {'kind': 'serial'}, 'cfg': {'iaca': True}, 'gap': 1,
                'files': files, 'phases': phases}

    def judge(self, run):
        return check_reports(run)

    def nontrivial(self, run):
        return [sp['args'] for _, sp, _ in run.cli()]
    measure = 'distinct sequences of settings'


# ------------------------------------------------------------------------------------ P07
class P07(Prop):
    ID = 'P07'
    rule = ('runs one after another on a file system where every file-lock call fails; cold and '
            'cached; reports compared with those on a file system with locks')

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1 + ['2d5pt'])
        phases = []
        base = W.random_cli(rng, 'x', ['m.yml'], 'k.c', kern, spread=0.5)
        for k in range(rng.choice([1, 2, 3])):
            sp = dict(base, name='r%d' % k) if rng.random() < 0.6 else \
                W.random_cli(rng, 'r%d' % k, ['m.yml', 'n.yml'], 'k.c', kern, spread=0.5)
            if rng.random() < 0.15:
                sp['args'] = ['--clean-intermediates'] + sp['args']
            phases.append([sp])
        return {'seed': i, 'policy': {'kind': 'serial'}, 'cfg': {'iaca': True}, 'gap': 1,
                'nolock': ['/work'], 'files': base_files(kern), 'phases': phases}

    def judge(self, run):
        v = check_reports(run)
        for ph, sp, p in run.cli():
            if any(op == 'flock' and pid == p.pid for _, pid, op, _, _ in run.sim.log) and \
                    'lock' not in stderr(p).lower():
                v.append(('no-warning', '%s does not tell that locking is unavailable' % p.name))
        return v

    def nontrivial(self, run):
        return [sp['args'] for _, sp, _ in run.cli()]
    measure = 'distinct sequences of settings'


# ------------------------------------------------------------------------------------ P08
class P08(Prop):
    ID = 'P08'
    rule = ('runs with --clean-intermediates, undisturbed or failing (compiler failure, interrupt, I/O '
            'error, bad settings) at a random system call, on cold and warm stores next to other kernels')

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1)
        files = base_files(kern)
        files['/work/other.c'] = {'t': ['kernel', 'copy']}
        files['/work/notes.txt'] = {'t': ['text', 'do not delete']}
        files['/work/k.c.bak'] = {'t': ['text', 'double a[N];']}
        pre = []
        if rng.random() < 0.5:
            pre.append(W.random_cli(rng, 'w0', ['m.yml', 'n.yml'], 'k.c', kern, spread=0.5))
        if rng.random() < 0.6:
            pre.append(W.random_cli(rng, 'w1', ['m.yml'], 'other.c', 'copy', spread=0.5))
        victim = W.random_cli(rng, 'v', ['m.yml', 'n.yml'], 'k.c', kern, spread=0.5)
        if rng.random() < 0.3:
            victim['args'] = victim['args'][:-1] + ['-p', W.model_names(rng)] + victim['args'][-1:]
        r = rng.random()
        if r < 0.08:
            victim['args'] = [a for a in victim['args']]
            victim['args'][1] = 'm.yml'
            victim['args'].insert(2, '--asm-block=7')
        elif r < 0.16:
            victim['env'] = {'LIKWID_LIB': None}
        spec = {'seed': i, 'policy': {'kind': 'serial'}, 'cfg': {'iaca': True}, 'files': files, 'gap': 1,
                'phases': [[x] for x in pre]}
        n = H.reference(spec, 0, victim).count
        victim['args'] = ['--clean-intermediates'] + victim['args']
        if rng.random() < 0.6:
            k = rng.choice(['int', 'cc_fail', 'cc_die', 'enospc', 'eio_w', 'eio_r', 'emfile', 'int'])
            victim['faults'] = [{'at': rng.randrange(1, n + 1), 'kind': k, 'arg': 0.5 if k == 'cc_die' else 0}]
        spec['phases'].append([victim])
        if rng.random() < 0.4:
            # somebody works on another kernel of the same directory at the same time
            sp = W.random_cli(rng, 'o', ['m.yml'], 'other.c', 'copy', spread=0.3)
            spec['phases'][-1].append(sp)
            spec['policy'] = W.policy(rng)
        if rng.random() < 0.3:
            # somebody works on the same kernel at the same time and may clean up, too
            for k in range(rng.choice([1, 1, 2])):
                if rng.random() < 0.5:
                    sp = {'name': 's%d' % k, 'module': 'kerncraft.kerncraft', 'args': list(victim['args'][1:])}
                else:
                    sp = W.random_cli(rng, 's%d' % k, ['m.yml', 'n.yml'], 'k.c', kern, spread=0.3)
                if rng.random() < 0.6:
                    sp['args'].insert(0, '--clean-intermediates')
                if 'env' in victim and sp['args'][-1] == 'k.c':
                    sp['env'] = dict(victim['env'])
                if rng.random() < 0.6:
                    sp['delay'] = round(rng.choice([0.1, 0.5, 2]) * rng.random(), 3)
                spec['phases'][-1].append(sp)
            spec['policy'] = W.policy(rng)
        spec['phases'].append([W.random_cli(rng, 'z', ['m.yml', 'n.yml'], 'k.c', kern, spread=0.5)])
        return spec

    def observers(self, spec):
        return (CleanWatch,)

    def judge(self, run):
        return check_reports(run)


class CleanWatch(Recorder):
    def __init__(self, w, keep=None):
        Recorder.__init__(self, w, keep)
        self.snap, self.begin, self.finish, self.order = {}, {}, {}, []
        w.sim.end_hooks.append(self.at_end)
        w.sim.start_hooks.append(self.at_start)

    def at_start(self, p):
        self.snap[p.pid] = self.w.fs.tree('/work')
        self.begin[p.pid] = len(self.order)
        self.order.append(p)

    def at_end(self, p):
        self.snap[-1 - p.pid] = self.w.fs.tree('/work')
        self.finish[p.pid] = len(self.order)
        self.order.append(p)

    def result(self, run):
        v = []
        for ph, sp, p in run.cli():
            if '--clean-intermediates' not in sp['args'] or (p.result and p.result[0] == 'killed') \
                    or getattr(p, 'fault_in_exit', False):
                continue
            before = dict((a, c) for a, b, c in self.snap.get(p.pid, ()) if '/.k.c_kerncraft' not in a)
            after = self.snap.get(-1 - p.pid, ())
            left = [a for a, b, c in after if '/.k.c_kerncraft' in a]
            # a run that fails before it gets to use the store has nothing to clean up
            used = any(e[1] == p.pid and '/.k.c_kerncraft' in e[3] for e in self.ev)
            for _, s2, q in run.cli():
                # somebody else on this kernel at the same time, who did not clean up either
                if q is not p and s2['args'][-1] == 'k.c' and q.pid in self.begin and \
                        self.begin[q.pid] < self.finish.get(p.pid, 1e9) and \
                        self.begin[p.pid] < self.finish.get(q.pid, 1e9) and (
                            '--clean-intermediates' not in s2['args'] or
                            self.finish.get(q.pid, 1e9) > self.finish.get(p.pid, 1e9) or
                            (q.result and q.result[0] == 'killed') or getattr(q, 'fault_in_exit', False)):
                    left = []
            if left and used:
                v.append(('left-behind', '%s ended %r and left %s' % (p.name, outcome(p), left[0])))
            other = any(q is not p for s, q in run.phases[ph])
            now = dict((a, c) for a, b, c in after if '/.k.c_kerncraft' not in a)
            gone = set(e[3] for e in self.ev if e[1] == p.pid and e[2] in ('unlink', 'rmdir', 'rename'))
            for a in sorted(before):
                if a not in now and (not other or a in gone):
                    v.append(('removed-other', '%s removed %s' % (p.name, a)))
                elif a in now and now[a] != before[a] and not other:
                    v.append(('changed-other', '%s changed %s' % (p.name, a)))
            if not other:
                for a in sorted(set(now) - set(before)):
                    v.append(('stray-file', '%s left %s behind' % (p.name, a)))
        return v[:2]


# ------------------------------------------------------------------------------------ P22
class WriteWatch(Recorder):
    """Where processes write."""

    def result(self, run):
        ok = {}
        for ph, sp, p in run.cli():
            a = sp['args']
            cwd = sp.get('cwd', '/work')
            k = posixpath.normpath(posixpath.join(cwd, a[-1]))
            own = posixpath.join(posixpath.dirname(k), '.' + posixpath.basename(k) + '_kerncraft')
            outs = [posixpath.normpath(posixpath.join(cwd, a[j + 1])) for j in range(len(a) - 1)
                    if a[j] in ('--store', '--json')]
            ok[p.pid] = (own, outs)
        names = dict((p.pid, p.name) for p in run.sim.procs)
        v = []
        temp = set()
        for step, pid, op, path, ino, info, orphan, prog in self.ev:
            if pid not in ok or op in ('open', 'read', 'close', 'lock', 'unlock'):
                continue
            own, outs = ok[pid]
            for q in [path] + ([posixpath.normpath(info)] if op == 'rename' else []):
                if q == own or q.startswith(own + '/'):
                    continue
                if any(q == o or (posixpath.dirname(q) == posixpath.dirname(o) and
                                  posixpath.basename(o) in q) for o in outs):
                    continue
                if q.startswith('/tmp/'):
                    continue
                if q.startswith('/home/sim/.kerncraft'):
                    continue
                v.append(('write-outside', '%s does %s on %s' % (names[pid], op, q)))
        for path in run.inputs0:
            if run.w.fs.get(path) != run.inputs0[path]:
                v.append(('input-modified', '%s was changed' % path))
        return v[:3]


class P22(Prop):
    ID = 'P22'
    budget = {'quick': (1100, 42), 'thorough': (40000, 800)}
    rule = ('1-3 runs from different working directories and paths, with result files, with and '
            'without faults; every mutating file-system call attributed and checked')

    def observers(self, spec):
        return (WriteWatch,)

    def judge(self, run):
        return leftovers(run)

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1 + ['2d5pt'])
        d = rng.choice(['/work', '/work/src', '/data/proj/kernels'])
        kabs = d + '/' + rng.choice(['k.c', 'k.c', 'my kernel.c', 'k'])
        files = base_files(kern, kabs)
        files[d + '/neighbour.c'] = {'t': ['kernel', 'copy']}
        files['/work/results.old'] = {'t': ['text', 'x']}
        procs = []
        for k in range(rng.choice([1, 1, 2, 3])):
            cwd = rng.choice(['/work', '/', d, '/home/sim'])
            rel = posixpath.relpath(kabs, cwd) if rng.random() < 0.6 else kabs
            m = '/work/m.yml' if rng.random() < 0.5 else posixpath.relpath('/work/n.yml', cwd)
            sp = W.random_cli(rng, 'r%d' % k, [m], rel, kern, spread=0.6)
            extra = []
            if rng.random() < 0.4:
                extra += ['--store', rng.choice(['/work/res.pickle', '/home/sim/r.pickle', '/data/out %d' % k])]
            if rng.random() < 0.3:
                extra += ['--json', rng.choice(['/work/res%d.json' % k, '/data/j%d' % k])]
            if rng.random() < 0.25:
                extra += ['--clean-intermediates']
            sp['args'] = extra + sp['args']
            sp['cwd'] = cwd
            if rng.random() < 0.4:
                sp['faults'] = [random_fault(rng, rng.randrange(1, 200))]
            elif rng.random() < 0.3:
                # one of the programs started by the run fails
                if rng.random() < 0.6:
                    a = sp['args']
                    a[a.index('-p') + 1] = rng.choice(['ECM', 'ECMCPU', 'RooflineASM'])
                    if '-i' in a:
                        a[a.index('-i') + 1] = rng.choice(['IACA', 'IACA', 'LLVM-MCA'])
                    else:
                        a[:0] = ['-i', rng.choice(['IACA', 'IACA', 'LLVM-MCA'])]
                sp['faults'] = [{'at': 1, 'kind': rng.choice(['cc_fail', 'cc_die']), 'arg': 0.5,
                                 'skip': rng.choice([0, 1, 1, 2, 2, 3])}]
            procs.append(sp)
        return {'seed': i, 'policy': W.policy(rng), 'cfg': {'iaca': True}, 'files': files, 'dirs': ['/data'],
                'phases': [procs] if rng.random() < 0.5 else [[x] for x in procs]}


# ------------------------------------------------------------------------------------ P23
def geometric(lo, hi, num):
    """*num* integers evenly spaced on a logarithmic scale."""
    return [int(round(lo * (hi / float(lo)) ** (k / (num - 1.0)))) for k in range(num)]


def define_args(rng, name, vals):
    """Some way to ask for these values of a constant."""
    a, b, n = vals[0], vals[-1], len(vals)
    forms = []
    if n > 1:
        if vals == list(range(a, b + 1)):
            forms.append(['%d-%d' % (a, b)])
        if all((n - 1) * (v - a) == k * (b - a) for k, v in enumerate(vals)):
            forms.append(['%d-%d:%d' % (a, b, n)])
            # two ranges
            forms.append(['%d-%d:%d' % (a, vals[-2], n - 1), str(b)] if n > 2 else [str(b), str(a)])
        if vals == geometric(a, b, n):
            base = rng.choice(['', '10', '2', '4'])
            forms += [['%d-%d:%dlog%s' % (a, b, n, base)]] * 2
            forms.append(['%d-%d:%dlog%s' % (a, b, n, base), str(rng.choice(vals))])
    if not forms or name != '.' and rng.random() < 0.1:
        forms = [[str(v) for v in vals]] if name != '.' or n == 1 else forms
    r = rng.choice(forms)
    return [x for v in (r if name != '.' or len(r) == 1 else forms[0]) for x in ('-D', name, v)]


class P23(Prop):
    ID = 'P23'
    rule = ('one invocation with several models and constant ranges, cold or warm; each block of its '
            'report compared with the report of a separate cold invocation')

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1 + ['2d5pt']) if rng.random() < 0.7 else rng.choice(sorted(W.KERN))
        m = rng.choice(ALL)
        models = rng.sample(['LC', 'ECMData', 'RooflineFLOP', 'ECMCPU', 'ECM', 'RooflineASM', 'Benchmark'],
                            rng.choice([1, 2, 2, 3]))
        if rng.random() < 0.15:
            kern = rng.choice(sorted(W.DESC))
            models = rng.sample(['LC', 'ECMData', 'RooflineFLOP'], rng.choice([1, 2, 3]))
        texts = dict(W.KERN, **W.DESC)
        ns = sorted(rng.sample([160, 200, 320, 400, 640], rng.choice([1, 2, 3])))
        opts = ['-u', rng.choice(['cy/CL', 'It/s', 'cy/It'])]
        if rng.random() < 0.4:
            opts += ['-c', rng.choice(['2', '3'])]
        if rng.random() < 0.4:
            opts += ['-P', 'LC']
        if rng.random() < 0.3:
            opts += ['-C', rng.choice(['gcc', 'clang'])]
        if rng.random() < 0.3:
            opts += ['-i', rng.choice(['OSACA', 'IACA', 'LLVM-MCA'])]
        if rng.random() < 0.3:
            opts += [rng.choice(['-v', '-v', '-v' if 'Benchmark' in models else '-vv', '--clean-intermediates', '--ignore-warnings'])]
        if 'Benchmark' in models:
            opts += ['--no-phenoecm']
        lo, num = rng.choice([160, 200]), rng.choice([1, 2, 3])
        form = rng.random()
        if kern == '2d5pt':
            ns = [lo // 8 + 8 * k for k in range(num)]
            ms = rng.choice([[16], [16, 24]])
            grid = [[('M', b), ('N', a)] for a in ns for b in ms]
            rng_s = [('N', ns), ('M', ms)]
        elif kern in texts:
            _, names, dim = texts[kern]
            size = rng.choice(W.SIZES[dim])
            vals = [size + 8 * k for k in range(rng.choice([1, 2]))]
            rng_s = []
            if rng.random() < 0.3:
                rng_s = [('.', vals)]
                allv = dict((n, vals) for n in names)
            else:
                allv = dict((n, rng.choice([[size], vals])) for n in names)
                rng_s = sorted(allv.items())
                rng.shuffle(rng_s)
            grid = [list(zip(sorted(names), v)) for v in itertools.product(*[allv[n] for n in sorted(names)])]
        else:
            step = 1 if rng.random() < 0.15 else 80
            ns = [lo + step * k for k in range(num)]
            if rng.random() < 0.3:
                ns = geometric(lo, rng.choice([320, 500, 640, 900]), rng.choice([2, 3, 4]))
            grid = [[('N', a)] for a in ns]
            rng_s = [('N', ns)]
        dargs = []
        for name, vals in rng_s:
            dargs += define_args(rng, name, vals)
        if rng.random() < 0.1:
            dargs += ['-D', 'UNUSED', '5']
        if kern in W.DESC:
            opts += ['--kernel-description']
        pm = [x for q in models for x in ('-p', q)]
        if rng.random() < 0.1:
            pm += ['-p', rng.choice(models)]
        files = base_files(kern if kern not in texts else 'copy')
        if kern in texts:
            files['/work/k.c'] = {'t': ['text', texts[kern][0]]}
        return {'seed': i, 'policy': {'kind': 'serial'}, 'cfg': {'iaca': True}, 'files': files,
                'single': [['-m', m, '-p', q] + [x for n, v in g for x in ('-D', n, str(v))] + opts + ['k.c']
                           for g in grid for q in models],
                'phases': [[{'name': 'sweep', 'module': 'kerncraft.kerncraft',
                             'args': ['-m', m] + pm + dargs + opts + ['k.c']}]] * 1}

    def judge(self, run):
        spec = run.spec
        p = run.phases[0][0][1]
        refs = []
        for args in spec['single']:
            r = H.reference(spec, 0, {'module': 'kerncraft.kerncraft', 'args': args})
            if r.status != ('exit', 0):
                return []
            refs.append(r.out)
        o = outcome(p)
        if o != ('exit', 0):
            return [('sweep-fails', 'sweep ends %r (%s), every part alone succeeds' % (
                o, (p.tb or stderr(p)).strip()[-200:]))]
        head = '{:^80}'.format(' kerncraft ') + '\n'
        got = [b for b in stdout(p).split(head)[1:]]
        want = [b for x in refs for b in x.split(head)[1:]]
        if sorted(got) != sorted(want):
            extra = [b for b in got if b not in want]
            miss = [b for b in want if b not in got]
            return [('sweep-differs', '%d blocks, expected %d; e.g. sweep prints %r, alone %r' % (
                len(got), len(want), (extra or [''])[0][-300:], (miss or [''])[0][-300:]))]
        return []

    def nontrivial(self, run):
        return run.spec['phases'][0][0]['args']
    measure = 'distinct sweeps'
