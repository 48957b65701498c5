"""Properties of the Benchmark models: measuring runs, hardware counters."""
import json as _json
from fractions import Fraction

from .base import *
from .cache import base_files, random_fault
from .results import load_store, opt, canon, Opaque
import tools
import world

FACTS = {   # kernel: (iterations(constants), bytes per element, flops)
    'copy': (lambda c: c['N'], 8, 0), 'scale': (lambda c: c['N'], 8, 1), 'triad': (lambda c: c['N'], 8, 2),
    '1d3pt': (lambda c: c['N'] - 2, 8, 2), 'sum': (lambda c: c['N'], 8, 1), 'f3': (lambda c: c['N'] - 4, 4, 2),
    '2d5pt': (lambda c: (c['N'] - 2) * (c['M'] - 2), 8, 4), 'const': (lambda c: 1024, 8, 1),
}
SI = {'': 1.0, 'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e12, 'm': 1e-3, 'u': 1e-6, 'n': 1e-9}


def close(a, b, tol=1e-9):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError, RuntimeError):
        return False
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-300)


LINES = (   # label, unit, result, digits, in verbose reports only
    ('Runtime (per cacheline update)', 'cy/CL', 'Runtime (per cacheline update) [cy/CL]', 2, False),
    ('MEM volume (per repetition)', 'Byte', 'MEM volume (per repetition) [B]', 0, False),
    ('Performance', 'MFLOP/s', 'Performance [MFLOP/s]', 2, False),
    ('Performance', 'MLUP/s', 'Performance [MLUP/s]', 2, False),
    ('Performance', 'MIt/s', 'Performance [MIt/s]', 2, False),
    ('Runtime (per repetition)', 's', 'Runtime (per repetition) [s]', None, True),
    ('Iterations per repetition', '', 'Iterations per repetition', 2, True),
    ('MEM bandwidth', 'MByte/s', 'MEM BW [MByte/s]', 2, True))


def printed(text, want, verbose=False):
    """What is wrong with the numbers printed; want lacks those that are not known (nan)."""
    for label, unit, key, digits, extra in LINES:
        if extra and not verbose:
            continue
        rx = r'^%s: *(\S+)%s *$' % (re.escape(label), ' ' + re.escape(unit) if unit else '')
        got = re.findall(rx, text, re.M)
        if len(got) != 1:
            return '%d lines %r %r' % (len(got), label, unit)
        v = want.get(key)
        try:
            x = float(got[0])
        except ValueError:
            return '%s is %r' % (label, got[0])
        if v is None:
            if key.startswith('MEM') and x == x:
                return '%s is %s, but was not measured' % (label, got[0])
            continue
        tol = 0.051 * abs(v) if digits is None else 0.501 * 10 ** -digits + 1e-6 * abs(v)
        if not abs(x - v) <= tol:
            return '%s is %s %s, expected %r' % (label, got[0], unit, v)
    return None


def section(text, region):
    """Part of the report of a stand-alone benchmark on a region."""
    parts = re.split(r"^Results for region '(.*)'$", text, flags=re.M)
    return '\n'.join(b for a, b in zip(parts[1::2], parts[2::2]) if a == region)


def printed_model(text, levels, ecm, order):
    """What is wrong with the table of transfers and the model printed."""
    for l in levels:
        rows = re.findall(r'^ *%s *\|(.*)$' % l, text, re.M)
        if len(rows) != 1:
            return '%d rows of %s' % (len(rows), l)
        cells = re.findall(r'(-?\d+\.\d+) ([kMGTPEZY]?)(?:CL|LOAD)/CL|(?:(?<= )|^)(-)(?= |$)', rows[0])
        if len(cells) != 4:
            return 'row %s: %r' % (l, rows[0])
        for k, (num, pre, none) in zip(('loads', 'misses', 'stores', 'evicts'), cells):
            v = levels[l].get(k)
            if (v is None) != bool(none):
                return '%s %s is %s' % (l, k, num or none)
            if v is None or pre not in ('', 'k', 'M', 'G'):
                continue
            if abs(float(num) * SI[pre] - float(v)) > 0.00501 * SI[pre] + 1e-2 * abs(float(v)):
                return '%s %s is %s %s, expected %r' % (l, k, num, pre, float(v))
    got = re.findall(r'^Phenomenological ECM model: \{ (\S+) \|\| (\S+) \| (\S+) \| (\S+) \| (\S+) \} cy/CL *$', text, re.M)
    if len(got) != 1:
        return '%d models' % len(got)
    for x, k in zip(got[0], order):
        if not abs(float(x) - float(ecm[k])) <= 0.0501 + 1e-6 * abs(float(ecm[k])):
            return '%s is %s, expected %r' % (k, x, float(ecm[k]))
    return None


def constants(args):
    c = {}
    for j, a in enumerate(args):
        if a == '-D':
            c[args[j + 1]] = int(args[j + 2])
    return c


def bench_result(run, sp):
    """The stored result of a run of the Benchmark model."""
    d = load_store(run.w.fs.get(opt(sp['args'], '--store', sp.get('cwd', '/work'))))
    if d is None:
        return None
    for k, v in d.items():
        k = dict(k)
        if k.get('pmodel') == 'Benchmark':
            return v
    return None


def unit_value(x):
    s = x.s if isinstance(x, Opaque) else None
    if isinstance(s, tuple):
        s = dict((k, v) for part in s if part for k, v in part.items())
    return float(s['value']) * SI[s['prefix']]


def bench_args(rng, kern, name, machine='m.yml', pheno=None, cores=None):
    a = ['--store', name + '.pickle', '-m', machine, '-p', 'Benchmark'] + W.consts(kern, rng)
    if pheno is False or pheno is None and rng.random() < 0.4:
        a.append('--no-phenoecm')
    if cores:
        a += ['-c', str(cores)]
    if rng.random() < 0.3:
        a += ['--iterations', str(rng.choice([1, 5, 10, 50, 1000]))]
    if rng.random() < 0.2:
        a += ['-v'] * rng.choice([1, 2, 3])
    if rng.random() < 0.2:
        a += ['-C', 'clang']
    return a + ['k.c']


class EnvWatch(object):
    def __init__(self, w):
        self.env = {}
        w.sim.end_hooks.append(self.end)

    def end(self, p):
        if getattr(p, 'box', None):
            self.env[p.pid] = dict(p.box.sys.environ)

    def result(self, run):
        return ()


class P16(Prop):
    ID = 'P16'
    rule = ('Benchmark runs on machines of random speed, noise and clock, alone or while other runs rebuild the '
            'edited kernel, with failing measurements; reported numbers recomputed from the simulated hardware')
    measure = 'distinct histories of measurements (process, group, repetitions, outcome)'

    def observers(self, spec):
        return (EnvWatch,)

    def gen(self, rng, i, tier):
        kern = rng.choice(list(FACTS))
        cfg = {'rep_seconds': 10 ** rng.uniform(-9, 0.7), 'likwid_groups': rng.choice(
            [['BRANCH', 'MEM', 'L2'], ['BRANCH', 'MEM', 'L2'], ['BRANCH', 'L2'], ['MEM']])}
        if rng.random() < 0.6:
            cfg['noise'] = [round(rng.choice([rng.uniform(0.3, 2), rng.uniform(0.9, 1.1)]), 3)
                            for _ in range(rng.choice([1, 2, 3, 5]))]
        if rng.random() < 0.3:
            cfg['clock_seq'] = [2.7] * rng.choice([0, 0, 1, 2, 4]) + [rng.choice([2.71, 2.68, 2.73, 2.66, 3.1, 1.2])] \
                + rng.choice([[], [2.7]])
        spec = {'seed': i, 'policy': W.policy(rng), 'cfg': cfg, 'files': base_files(kern), 'phases': [],
                'gap': 1, 'user_kern': {'k': kern}}
        env = rng.choice([None, None, {'OMP_NUM_THREADS': '3'}])
        cores = rng.choice([None, None, None, 2, 2, 3, 4])
        a = {'name': 'a', 'module': 'kerncraft.kerncraft', 'args': bench_args(rng, kern, 'a', cores=cores), 'env': env}
        if rng.random() < 0.2:
            a['args'].insert(0, '--ignore-warnings')
        ph = [a]
        r = rng.random()
        if r < 0.25:
            n = H.reference(spec, 0, a).count
            a['faults'] = [{'at': max(1, n - rng.randrange(0, 45)) if rng.random() < 0.8 else rng.randrange(1, n + 1), 'kind': rng.choice(['cc_fail', 'cc_die', 'int', 'stall']),
                            'arg': rng.choice([0.2, 0.6, 0.97])}]
        elif r < 0.6:
            # somebody edits the kernel and starts other runs while a is measuring
            if rng.random() < 0.4:
                warm = {'name': 'w', 'module': 'kerncraft.kerncraft', 'args': ['--store', 'w.pickle'] + a['args'][2:]
                        if a['args'][0] == '--store' else ['--store', 'w.pickle'] + a['args'][3:], 'env': env}
                spec['phases'].append([warm])
            elif rng.random() < 0.5:
                # ... and somebody else builds the same executable at the same time as a
                also = list(a['args'])
                also[also.index('--store') + 1] = 'w.pickle'
                ph.append({'name': 'w', 'module': 'kerncraft.kerncraft', 'args': also, 'env': env,
                           'delay': round(rng.choice([0, rng.uniform(0, 0.5)]), 3)})
            t = rng.uniform(0, 8)
            if rng.random() < 0.5:
                # ... possibly much later, in any of the runs before
                t = rng.uniform(0, sum(1 for x in ph + (spec['phases'] or [[]])[0]) * H.reference(spec, 0, a).seconds)
            same = list(a['args'])
            same[same.index('--store') + 1] = 'b.pickle'
            ph.append({'name': 'e', 'kind': 'edit', 'delay': round(t, 3), 'actions': [
                ['put', '/work/k.c', ['text', world.KERNELS[kern].replace('a[', 'edited[')]]]})
            ph.append({'name': 'b', 'module': 'kerncraft.kerncraft', 'delay': round(t + rng.uniform(0.001, 1), 3),
                       'args': same, 'env': env})
        elif r < 0.75:
            for n in 'bc'[:rng.choice([1, 2])]:
                ph.append({'name': n, 'module': 'kerncraft.kerncraft', 'args': bench_args(
                    rng, kern, n, cores=rng.choice([cores, cores, None, 2, 3])), 'env': env, 'delay': round(rng.uniform(0, 3), 3)})
        spec['phases'].append(ph)
        return spec

    def judge(self, run):
        w, spec = run.w, run.spec
        groups = w.likwid_groups
        group = 'MEM' if 'MEM' in groups else groups[0]
        for ph, sp, p in run.cli():
            o = outcome(p)
            mm = [m for m in w.measurements if m['proc'] == p.name]
            grp = [m for m in mm if m['group'] in groups]
            ctr = [m for m in mm if m['group'] not in groups]
            who = '%s (%s)' % (p.name, ' '.join(sp['args']))
            ignore = '--ignore-warnings' in sp['args']
            bad = [m for m in mm if not m['ok']]
            if bad and not any(f.fired for _, _, q in run.cli() for f in q.faults):
                return [('rejected-measurement', '%s: %r' % (who, bad[0]))]
            off = [m for m in mm if m['ok'] and abs(float(m['clock'].split()[0]) - 2.7) > 0.0270001]
            for m in mm:
                if m['omp'] is not None:
                    return [('omp-threads', '%s measures with OMP_NUM_THREADS=%s' % (who, m['omp']))]
                if m['group'] in groups and m['group'] != group:
                    return [('group', '%s uses %s' % (who, m['group']))]
            e = run.obs[0].env.get(p.pid, {})
            if e.get('OMP_NUM_THREADS') != (sp.get('env') or {}).get('OMP_NUM_THREADS'):
                return [('omp-restore', '%s leaves OMP_NUM_THREADS=%s' % (who, e.get('OMP_NUM_THREADS')))]
            if len(set(m.get('d') for m in mm)) > 1:
                return [('other-executable', '%s measures %d different executables' % (
                    who, len(set(m.get('d') for m in mm))))]
            if len(grp) > 40:
                return [('no-convergence', '%s needs %d runs' % (who, len(grp)))]
            res = bench_result(run, sp)
            if o != ('exit', 0):
                if res is not None:
                    return [('result-of-failed', '%s failed and stored a result' % who)]
                if not bad and (ignore or not off) and not sp.get('faults'):
                    return [('spurious-failure', '%s ends %r: %s' % (who, o, (p.tb or stderr(p))[-300:]))]
                continue
            if bad:
                return [('failed-measurement', '%s reports although a measurement failed' % who)]
            if off and not ignore:
                return [('frequency', '%s reports although a measurement ran at %s' % (who, off[0]['clock']))]
            if not grp or res is None:
                return [('no-measurement', '%s reports nothing measured' % who)]
            last = grp[-1]
            if last['runtime'] < 1.5:
                return [('too-short', '%s reports a run of %.3g s' % (who, last['runtime']))]
            if any(m['runtime'] >= 1.5 for m in grp[:-1]):
                return [('needless-run', '%s repeats a sufficient measurement' % who)]
            for m in ctr:
                if m['cmd'] != last['cmd'] or m['cores'] != last['cores']:
                    return [('counter-repetitions', '%s counts events of %r, measured %r' % (
                        who, m['cmd'], last['cmd']))]
            if last['vals'] and last['vals'] != sorted((n, str(v)) for n, v in constants(sp['args']).items()):
                return [('constants', '%s measures with %r' % (who, last['vals']))]
            if ctr and '--no-phenoecm' in sp['args']:
                return [('needless-counters', who)]
            c = '1'
            if '-c' in sp['args']:
                c = sp['args'][sp['args'].index('-c') + 1]
            if last['cores'] != ('S0:0' if c == '1' else 'S0:0-%d' % (int(c) - 1)):
                return [('cores', '%s measures on %s' % (who, last['cores']))]
            if any(m.get('shared') is not (c != '1') for m in mm):
                return [('threads', '%s: loops are %sshared among threads' % (who, 'not ' if c != '1' else ''))]
            want = expected_numbers(spec['user_kern']['k'], sp['args'], last, w, group)
            for k, v in want.items():
                if not close(res[k], v):
                    return [('wrong-number', '%s reports %s %r, the hardware did %r' % (who, k, res[k], v))]
            bad = printed(stdout(p), want, any(a in ('-v', '-vv', '--verbose') for a in sp['args']))
            if bad:
                return [('report', '%s: %s' % (who, bad))]
        return []

    def nontrivial(self, run):
        m = [(x['proc'], x['group'], x['cmd'][1:], x['ok']) for x in run.w.measurements]
        return m or None

    def count(self, run):
        return {'measurements': len(run.w.measurements),
                'failed_measurements': sum(1 for m in run.w.measurements if not m['ok'])}


def expected_numbers(kern, args, last, w, group):
    """Numbers of the report derived from what the simulated hardware did."""
    its, size, flops = FACTS[kern][0](constants(args)), FACTS[kern][1], FACTS[kern][2]
    r = list(last['regions'].values())[0]
    tpr = r['runtime'] / last['reps']
    per_cl = 64.0 / size
    r, hw = {'Runtime (per repetition) [s]': tpr, 'Iterations per repetition': its,
         'Iterations per cacheline': per_cl,
         'Runtime (per cacheline update) [cy/CL]': tpr * 2.7e9 / its * per_cl,
         'Performance [MFLOP/s]': flops * its / tpr / 1e6,
         'Performance [MIt/s]': its / tpr / 1e6, 'Performance [MLUP/s]': its / tpr / 1e6}, r
    if group == 'MEM':
        r['MEM volume (per repetition) [B]'] = hw['vol'] * 1e9 / last['reps']
        r['MEM BW [MByte/s]'] = hw['bw']
    return r


# ------------------------------------------------------------------------------------ P17
class Metric(object):
    """A random metric: Max of or sum of coefficient * counter."""

    def __init__(self, rng, pool, mx=False):
        n = rng.choice([1, 1, 1, 2, 2, 3])
        self.mx = mx and n > 1
        self.terms = [(rng.choice([1, 1, 1, 2, 64]), rng.choice(pool)) for _ in range(n)]
        self.par = rng.random() < 0.3

    def text(self):
        t = ['%s%s' % (ctr_text(e), ' * %d' % c if c != 1 else '') for c, e in self.terms]
        s = 'Max(%s)' % ', '.join(t) if self.mx else ' + '.join(t)
        return '(%s)' % s if self.par else s

    def value(self, f):
        v = [c * f(e) for c, e in self.terms]
        return max(v) if self.mx else sum(v)

    def json(self):
        return [self.mx, self.terms]


def ctr_text(e):
    return ':'.join([e[0], e[1]] + list(e[2]))


NAMES = ['L1D_REPL', 'REPL', 'CAS_COUNT_RD', 'CAS_COUNT_WR', 'COUNT_RD', 'LINES_IN', 'L2_LINES_IN', 'LLC_LOOKUP_ANY',
         'UOPS_0', 'UOPS_1', 'UOPS_PORT_0', 'LOADS', 'STORES', 'ALL_LOADS', 'TRANS_L2_WB', 'WB', 'A', 'B', 'ZZ9']
OPTS = [(), (), (), (), ('EDGEDETECT=0x1',), ('STATE=0xF0', 'OPCODE=0x202'), ('STATE=0x1',), ('EDGEDETECT',),
        ('THRESHOLD=0x2', 'INVERT')]


def options(regs):
    """Registers denoted by a description (independent of Kerncraft's own expansion)."""
    out = []
    for u in regs.split('|'):
        cur = ['']
        for lit, grp in re.findall(r'([^\[\]]+)|\[([^\]]+)\]', u):
            if lit:
                cur = [c + lit for c in cur]
            else:
                ch = []
                for a, b, s in re.findall(r'(\w)-(\w)|(\w)', grp):
                    ch += [s] if s else [chr(x) for x in range(ord(a), ord(b) + 1)]
                cur = [c + x for c in cur for x in ch]
        out += cur
    return out


def counter_pool(rng):
    pool = []
    for _ in range(rng.choice([3, 5, 8, 12, 16])):
        n = rng.choice(NAMES)
        kind = rng.random()
        if kind < 0.55:
            reg = rng.choice(['PMC[0-3]', 'PMC[0-3]', 'PMC[01]', 'PMC0', 'PMC2', 'PMC[0-1]|PMC3', 'PMC[23]', 'PMC1|PMC0'])
        elif kind < 0.85:
            reg = 'MBOX%dC%s' % (rng.choice([0, 1, 2]), rng.choice(['[01]', '[0-1]', '0', '1', '[0-3]']))
        elif kind < 0.95:
            reg = 'CBOX%dC%s' % (rng.choice([0, 1]), rng.choice(['[0-3]', '0', '[01]|CBOX0C3'[:4]]))
        else:
            reg = 'FIXC%d' % rng.choice([0, 1, 2])
        pool.append([n, reg, list(rng.choice(OPTS))])
    if rng.random() < 0.5:
        # the same event at several boxes, as for memory controllers
        n, o = rng.choice(['CAS_COUNT_RD', 'LLC_LOOKUP_ANY']), rng.choice([[], ['STATE=0xF0']])
        r = rng.choice(['[01]', '0'])
        pool += [[n, 'MBOX%dC%s' % (k, r), o] for k in range(rng.choice([2, 3]))]
    return pool


import re


class P17(Prop):
    ID = 'P17'
    rule = ('Benchmark runs on machine files with random counter metrics, register constraints and options; the '
            'hardware has exclusive registers; model numbers compared with a direct evaluation of the metrics')
    measure = 'distinct sets of counter runs'

    def gen(self, rng, i, tier):
        kern = rng.choice(['copy', 'scale', '1d3pt', '2d5pt', 'f3', 'const'])
        pool = counter_pool(rng)
        met = {'T_OL': Metric(rng, pool, True)}
        for l in ('L1', 'L2', 'L3', 'MEM'):
            met[l] = dict((k, Metric(rng, pool)) for k in
                          (('loads', 'stores', 'misses', 'evicts') if l != 'MEM' else ('loads', 'stores')))
        mode = rng.random()
        text = dict((l, m.text() if l == 'T_OL' else dict((k, x.text()) for k, x in m.items()))
                    for l, m in met.items())
        plan = dict((l, m.json() if l == 'T_OL' else dict((k, x.json()) for k, x in m.items()))
                    for l, m in met.items())
        incomplete = None
        alone = rng.random() < 0.25
        if alone:
            pass
        elif mode < 0.08:
            text['MEM'], incomplete = {}, 'no MEM metrics'
        elif mode < 0.16:
            text['L2']['loads'], incomplete = 'INFORMATION_REQUIRED Example', 'incomplete metric'
        cfg = {'rep_seconds': 10 ** rng.uniform(-7, -1)}
        if rng.random() < 0.4:
            cfg['noise'] = [round(rng.uniform(0.8, 1.25), 3) for _ in range(3)]
        if rng.random() < 0.25:
            safe = set(t[1][0] for l in ('L3', 'MEM') for m in plan[l].values() for t in m[1])
            cfg['nan_events'] = sorted(set(n for n, _, _ in pool) - safe)[:2]
        spec = {'seed': i, 'policy': {'kind': 'serial'}, 'cfg': cfg, 'phases': [], 'gap': 1,
                'files': {'/work/k.c': {'t': ['kernel', kern]},
                          '/work/m.yml': {'t': ['machine', {'v': 0, 'metrics': text}]}},
                'user_kern': {'k': kern}, 'plan': plan, 'incomplete': incomplete}
        spec['phases'].append([{'name': 'a', 'module': 'kerncraft.kerncraft',
                                'args': bench_args(rng, kern, 'a', pheno=rng.choice([True, True, True, False])
                                                   if incomplete else True)}])
        if alone:
            names = rng.choice([[], ['r1'], ['r1', 'r2']])
            n, spec['user_kern']['its'] = rng.choice([1000, 4096]), rng.choice([100, 4000])
            spec['files']['/work/bin.exe'] = {'t': ['exe', str(i), {
                'weights': [1], 'base': 10 ** rng.uniform(-7, -1), 'regions': [[x, 1, 1] for x in names]}], 'mode': 0o755}
            spec['phases'][0][0] = {
                'name': 'a', 'module': 'kerncraft.standalone_pheno',
                'args': ['--store', 's.pickle', '-m', 'm.yml'] + (['--marker'] if names else []) +
                        ['-D', '_N', '%d:1e9:lin' % n, '-R', '_N', '-L', '0:%d' % spec['user_kern']['its'],
                         '--flops', '2', 'bin.exe']}
        if rng.random() < 0.2:
            n = H.reference(spec, 0, spec['phases'][0][0]).count
            spec['phases'][0][0]['faults'] = [{'at': max(1, n - rng.randrange(0, 40)), 'kind': rng.choice(['cc_fail', 'cc_die']),
                                               'arg': 0.7}]
        return spec

    def judge(self, run):
        w, spec = run.w, run.spec
        ph, sp, p = next(run.cli())
        who = ' '.join(sp['args'])
        mm = [m for m in w.measurements if m['proc'] == p.name]
        ctr = [m for m in mm if m['group'] not in w.likwid_groups]
        if w.bad_exec:
            return [('register-conflict', '%s: %r' % (who, w.bad_exec[0]))]
        o = outcome(p)
        alone = sp['module'].endswith('pheno')
        res = None if alone else bench_result(run, sp)
        if o != ('exit', 0):
            if sp.get('faults'):
                return []
            return [('spurious-failure', '%s ends %r: %s' % (who, o, (p.tb or stderr(p))[-300:]))]
        if any(not m['ok'] for m in mm):
            return [('failed-measurement', '%s reports although a measurement failed' % who)]
        if spec['incomplete'] or '--no-phenoecm' in sp['args']:
            if ctr or res['ECM'] is not None:
                return [('incomplete-metrics', '%s builds a model from incomplete metrics' % who)]
            return []
        plan = spec['plan']
        used = []
        for l, m in plan.items():
            for mx, terms in ([m] if l == 'T_OL' else m.values()):
                used += [ctr_text(e) for c, e in terms]
        seen = {}
        for m in ctr:
            for e, r in m['events']:
                seen.setdefault(e + ':' + r, 0)
                seen[e + ':' + r] += 1
        for text in sorted(set(used)):
            n, regs, opts = text.split(':')[0], text.split(':')[1], text.split(':')[2:]
            hits = sum(seen.get(':'.join([n, r] + opts), 0) for r in set(options(regs)))
            if not hits:
                return [('not-measured', '%s was not measured at any of its registers (%r)' % (text, sorted(seen)))]
        total = sum(seen.values())
        if total > len(set(used)):
            return [('measured-twice', '%d counters programmed for %d events' % (total, len(set(used))))]
        if len(ctr) > len(set(used)):
            return [('needless-runs', '%d runs for %d events' % (len(ctr), len(set(used))))]
        last = [m for m in mm if m['group'] in w.likwid_groups][-1]
        if alone:
            st = list(load_store(w.fs.get('/work/s.pickle')).values())[0]
            res = list(list(st.values())[0].values())[0]
            regions = run.inputs0['/work/bin.exe']
            named = bool(_json.loads(regions.split(b'\n')[1]).get('regions'))
            if not named and '--marker' not in sp['args'] and sorted(res) != ['']:
                return [('regions', '%r' % sorted(res))]
            for r in sorted(last['regions']):
                v = self.compare(spec, w, last, last['d'] + (r if named else ''), res[r],
                                 spec['user_kern']['its'], 8, 'T_L3MEM', section(stdout(p), r))
                if v:
                    return v
            return []
        kern = spec['user_kern']['k']
        its, size = FACTS[kern][0](constants(sp['args'])), FACTS[kern][1]
        return self.compare(spec, w, last, last['d'], res, its, size, 'T_MEM', stdout(p))

    def compare(self, spec, w, last, d, res, its, size, mem, text):
        plan = spec['plan']
        reps, sizes = last['reps'], last['cmd'][2:]

        def val(e):
            return Fraction(w.counter(d, e[0], ':'.join([options(e[1])[0]] + list(e[2])), reps, sizes))

        def ev(m):
            v = [c * val(e) for c, e in m[1]]
            return max(v) if m[0] else sum(v)
        cls = Fraction(its * reps * size, 64)
        v = dict((l, dict((k, ev(m)) for k, m in plan[l].items())) for l in ('L1', 'L2', 'L3', 'MEM'))
        for l in v:
            for k in v[l]:
                got = unit_value(res['data transfers'][l][k])
                if not close(got, v[l][k] / cls):
                    return [('wrong-transfers', '%s %s: %r per cacheline, the counters say %r' % (
                        l, k, got, float(v[l][k] / cls)))]
        ratio = v['L3']['misses'] / v['L3']['evicts'] if v['L3']['evicts'] else None
        # benchmark kernel with the nearest ratio of loads and stores: (ratio, nominal bandwidth, with write-allocate)
        _, bw, wa = min(((2, 35, 1.5), (4, 47, 1.25), (1, 41, 1.0)), key=lambda k: abs(k[0] - (2 if ratio is None else ratio)))
        bw = float('%.2f' % (bw * 4 * 0.95)) * 1e9 * wa
        want = {'T_OL': ev(plan['T_OL']) / cls, 'T_nOL': v['L1']['loads'] / cls / 2,
                'T_L1L2': (v['L2']['loads'] + v['L2']['stores']) / cls * 64 / 32,
                'T_L2L3': (v['L3']['loads'] + v['L3']['stores']) / cls * 64 / 32,
                mem: float((v['MEM']['loads'] + v['MEM']['stores']) * 64 / cls) / bw * 2.7e9}
        for k in want:
            got = res['ECM'][k]
            got = unit_value(got) if isinstance(got, Opaque) else got
            if not close(got, want[k], 1e-6):
                return [('wrong-model', '%s is %s, the counters say %r' % (k, got, float(want[k])))]
        bad = printed_model(text, dict((l, dict((k, x / cls) for k, x in v[l].items())) for l in v), want,
                            ('T_OL', 'T_nOL', 'T_L1L2', 'T_L2L3', mem))
        if bad:
            return [('report', bad)]
        return []

    def nontrivial(self, run):
        m = [x['group'] for x in run.w.measurements]
        return m or None

    def count(self, run):
        return {'counter_runs': sum(1 for m in run.w.measurements if m['group'] not in run.w.likwid_groups),
                'standalone': sum(1 for _, sp, p in run.cli() if sp['module'].endswith('pheno') and
                                  outcome(p) == ('exit', 0)),
                'incomplete': 1 if run.spec['incomplete'] else 0}


# ------------------------------------------------------------------------------------ P19
class P19(Prop):
    ID = 'P19'
    rule = ('stand-alone benchmarks of binaries with random run time models, marker regions, adjustable variables '
            'and repetition rules on noisy machines; termination and every reported number checked')
    measure = 'distinct histories of measurements (arguments, outcome)'
    budget = {'quick': (3000, 40), 'thorough': (60000, 800)}

    def gen(self, rng, i, tier):
        names = rng.choice([[], [], ['r1'], ['r1', 'r2'], ['r1', 'r2', 'r3']])
        marker = bool(names) or rng.random() < 0.3
        regions = [[n, round(rng.choice([1, rng.uniform(0.1, 1.0)]), 3), rng.choice([1, 3, 7, 100])] for n in names]
        nv = rng.choice([1, 1, 2, 3])
        args, weights, vars_ = [], [], {}
        for k in range(nv):
            n = 'VXZ'[k]
            r = rng.random()
            sub = rng.sample(names, rng.randrange(1, len(names) + 1)) if names and rng.random() < 0.3 else None
            pre = ','.join(sub) + ':' if sub else ''
            if r < 0.6:
                v = rng.choice([100, 1000, 4000])
                stop = rng.choice([v * 100, 10 ** 6, 10 ** 9])
                d, w = '%s%d:%d:lin' % (pre, v, stop), rng.choice([1, 1, 1, 0.5, 0])
                vars_[n] = {'v': float(v), 'stop': float(stop), 'adj': True, 'reg': sub}
            elif r < 0.75:
                v = rng.choice([1, 0.1])
                stop = rng.choice([1e-6, 1e-9])
                d, w = '%s%s:%s:log' % (pre, v, stop), rng.choice([-0.5, -1, 0])
                vars_[n] = {'v': float(v), 'stop': stop, 'adj': True, 'reg': sub}
            else:
                v = rng.choice([5, 16])
                d, w = '%s%d' % (pre, v), rng.choice([0, 1])
                vars_[n] = {'v': float(v), 'adj': False, 'reg': sub}
            args += ['-D', n, d]
            weights.append(w)
        lin = [n for n in vars_ if vars_[n]['adj'] and vars_[n]["v"] >= 100]
        loops, flops, reps = {}, {}, {}
        for r in ([''] if not names or rng.random() < 0.6 else names):
            pre = r + ':' if r else ''
            loops[r] = []
            for _ in range(rng.choice([1, 1, 2])):
                st, step = rng.choice([0, 1, 2]), rng.choice([None, None, 1, 2, 4])
                if lin and rng.random() < 0.5:
                    v = rng.choice(lin)
                    off = rng.choice([0, 0, 1])
                    end = int(vars_[v]['v']) - off
                    loops[r].append([st, step or 1, end, v, off])
                else:
                    v, end = None, rng.choice([100, 1000])
                    loops[r].append([st, step or 1, end, None, 0])
                args += ['-L', pre + '%d:%s%d%s' % (st, '%d:' % step if step else '', end, ':' + v if v else '')]
        for r in ([''] if not names or rng.random() < 0.6 else names):
            flops[r] = rng.choice([0, 1, 2, 8])
            args += ['--flops', (r + ':' if r else '') + str(flops[r])]
        for r in ([''] if not names or rng.random() < 0.6 else names):
            k = rng.random()
            q = 'marker' if k < 0.4 and marker else rng.choice(list(vars_)) if k < 0.8 else str(rng.choice([1, 10]))
            reps[r] = q
            args += ['-R', (r + ':' if r else '') + q]
        want = None
        if marker:
            want = rng.sample(names, rng.randrange(1, len(names) + 1)) if names and rng.random() < 0.4 else None
            args = ['--marker'] + ([','.join(want)] if want else []) + args
        exe = {'weights': weights, 'base': 10 ** rng.uniform(-9, 0.5)}
        if regions:
            exe['regions'] = regions
        if rng.random() < 0.3:
            exe['digits'] = rng.choice([3, 6])
        cfg = {'likwid_groups': rng.choice([['BRANCH', 'MEM', 'L2'], ['BRANCH', 'MEM', 'L2'], ['BRANCH', 'L2']])}
        if rng.random() < 0.5:
            cfg['noise'] = [round(rng.uniform(0.5, 1.7), 3) for _ in range(rng.choice([1, 2, 3, 5]))]
        if rng.random() < 0.15:
            cfg['clock_seq'] = [2.7] * rng.choice([0, 1, 2]) + [rng.choice([2.71, 3.1])]
        a = ['-m', 'm.yml', '--store', 's.pickle'] + args + ['--no-phenoecm']
        if rng.random() < 0.2:
            a.append('--ignore-warnings')
        a += ['-v'] * rng.choice([0, 0, 0, 1, 2])
        spec = {'seed': i, 'policy': {'kind': 'serial'}, 'cfg': cfg, 'gap': 1,
                'files': {'/work/m.yml': {'t': W.MACHINES['/work/m.yml']},
                          '/work/bin.exe': {'t': ['exe', str(i), exe], 'mode': 0o755}},
                'plan': {'vars': vars_, 'loops': loops, 'flops': flops, 'reps': reps, 'marker': marker,
                         'want': want, 'names': names},
                'max_steps': 4000,
                'phases': [[{'name': 'a', 'module': 'kerncraft.standalone_pheno', 'args': a + ['bin.exe'],
                             'env': rng.choice([None, {'OMP_NUM_THREADS': '4'}])}]]}
        if rng.random() < 0.15:
            spec['phases'][0][0]['faults'] = [{'at': rng.randrange(30, 120), 'kind': rng.choice(['cc_fail', 'cc_die']),
                                               'arg': rng.choice([0.3, 0.9])}]
        return spec

    @staticmethod
    def steps(plan, mm, regs):
        """What is wrong with the changes of variables between measurements."""
        vars_ = plan['vars']
        mine = lambda r: [n for n, v in vars_.items() if v['adj'] and (v['reg'] is None or r in v['reg'])]
        for a, b in zip(mm, mm[1:]):
            x, y = (dict(zip(vars_, [float(z) for z in m['cmd'][1:]])) for m in (a, b))
            short = [r for r in regs if a['regions'][r]['runtime'] < 1.5]
            if x == y:
                return 'measures %r twice' % x
            for n in vars_:
                if x[n] == y[n]:
                    continue
                if vars_[n]['adj'] and (y[n] > x[n]) != (vars_[n]['stop'] > vars_[n]['v']):
                    return '%s is changed from %r to %r' % (n, x[n], y[n])
                # the variables of a region are used up in the order of their definition
                if not any(n in mine(r) and all(y[e] == vars_[e]['stop'] for e in mine(r)[:mine(r).index(n)])
                           for r in short):
                    return '%s is changed from %r to %r for regions %r' % (n, x[n], y[n], short)

    def judge(self, run):
        w, spec = run.w, run.spec
        plan = spec['plan']
        ph, sp, p = next(run.cli())
        who = ' '.join(sp['args'])
        mm = w.measurements
        o = outcome(p)
        d = load_store(w.fs.get('/work/s.pickle'))
        if d is None:
            return [('store-damaged', who)]
        if len(mm) > 80:
            return [('no-termination', '%s: %d measurements' % (who, len(mm)))]
        if any(m['omp'] is not None for m in mm):
            return [('omp-threads', who)]
        off = [m for m in mm if m['ok'] and abs(float(m['clock'].split()[0]) - 2.7) > 0.0270001]
        bad = [m for m in mm if not m['ok']]
        if bad and not any(f.fired for _, _, q in run.cli() for f in q.faults):
            return [('rejected-measurement', '%s: %r' % (who, bad[0]))]
        zero = any(x['runtime'] == 0.0 for m in mm[-1:] if m['ok'] for x in m['regions'].values())
        ignore = '--ignore-warnings' in sp['args']
        if o != ('exit', 0):
            if d:
                return [('result-of-failed', who)]
            if not (bad or zero or sp.get('faults') or off and not ignore):
                return [('spurious-failure', '%s ends %r: %s' % (who, o, (p.tb or stderr(p))[-300:]))]
            return []
        if bad:
            return [('failed-measurement', '%s reports although a measurement failed' % who)]
        if off and not ignore:
            return [('frequency', '%s reports although a measurement ran at %s' % (who, off[0]['clock']))]
        last = mm[-1]
        vals = dict(zip(plan['vars'], [float(x) for x in last['cmd'][1:]]))
        for n, v in plan['vars'].items():
            if not v['adj'] and vals[n] != v['v']:
                return [('changed-fixed', '%s: fixed variable %s is %r' % (who, n, vals[n]))]
            if v['adj'] and not min(v['v'], v['stop']) <= vals[n] <= max(v['v'], v['stop']):
                return [('out-of-range', '%s: %s is %r' % (who, n, vals[n]))]
        regs = plan['want'] or sorted(last['regions'])
        short = [r for r in regs if last['regions'][r]['runtime'] < 1.5]
        if ('Could not extrapolate' in stdout(p)) != bool(short):
            return [('warning', '%s: regions below 1.5 s: %r' % (who, short))]
        for m in mm[:-1]:
            if all(m['regions'][r]['runtime'] >= 1.5 for r in regs):
                return [('needless-run', who)]
        bad = self.steps(plan, mm, regs)
        if bad:
            return [('adjustment', '%s: %s' % (who, bad))]
        for r in short:
            for n, v in plan['vars'].items():
                if v['adj'] and vals[n] != v['stop'] and (v['reg'] is None or r in v['reg']):
                    return [('gave-up', '%s: region %r takes %.3g s only, %s is %r' % (
                        who, r, last['regions'][r]['runtime'], n, vals[n]))]
        st = list(d.values())
        if len(d) != 1 or list(d) != ['bin.exe'] or len(st[0]) != 1:
            return [('store-keys', '%s stores %s' % (who, list(d)))]
        consts = list(st[0])[0]
        if sorted((str(k), float(v)) for k, v in consts) != sorted(vals.items()):
            return [('store-keys', '%s stores %r for %r' % (who, consts, vals))]
        res = list(st[0].values())[0]['stand-alone benchmark']
        if sorted(res) != sorted(regs):
            return [('regions', '%s reports regions %r, expected %r' % (who, sorted(res), regs))]
        for r in regs:
            hw = last['regions'][r]
            q = plan['reps'].get(r, plan['reps'].get(''))
            if q is None:
                q = '1'
            n = hw['calls'] if q == 'marker' else vals[q] if q in vals else int(q)
            its = 1
            for stt, step, end, v, o_ in plan['loops'].get(r, plan['loops'].get('')):
                if v:
                    end = int(plan['vars'][v]['v']) - o_
                    if vals[v] != plan['vars'][v]['v']:
                        end = vals[v] - o_
                its *= (end - stt) // step
            step = plan['loops'].get(r, plan['loops'].get(''))[-1][1]
            tpr = hw['runtime'] / n
            per_cl = 64.0 / (8 * step)
            fl = plan['flops'].get(r, plan['flops'].get(''))
            want = {'Runtime (per repetition) [s]': tpr, 'Iterations per repetition': its,
                    'Iterations per cacheline': per_cl}
            if its:
                want.update({'Runtime (per cacheline update) [cy/CL]': tpr * 2.7e9 / its * per_cl,
                             'Performance [MFLOP/s]': fl * its / tpr / 1e6, 'Performance [MIt/s]': its / tpr / 1e6,
                             'Performance [MLUP/s]': its / tpr / 1e6})
            if 'vol' in hw:
                want['MEM volume (per repetition) [B]'] = hw['vol'] * 1e9 / n
                want['MEM BW [MByte/s]'] = hw['bw']
            for k, v in want.items():
                if not close(res[r][k], v):
                    return [('wrong-number', '%s region %r: %s is %r, the hardware did %r' % (who, r, k, res[r][k], v))]
            if its:
                bad = printed(section(stdout(p), r), want, any(a in ('-v', '-vv', '--verbose') for a in sp['args']))
                if bad:
                    return [('report', '%s region %r: %s' % (who, r, bad))]
        return []

    def nontrivial(self, run):
        m = [(x['cmd'][1:], x['ok']) for x in run.w.measurements]
        return m or None

    def count(self, run):
        return {'measurements': len(run.w.measurements),
                'zero_runtime': sum(1 for m in run.w.measurements if m['ok'] and
                                    any(x['runtime'] == 0 for x in m['regions'].values()))}
