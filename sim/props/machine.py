"""Properties of the machine file generator: benchmarks are resumable, the file is never damaged."""
import re

import ruamel.yaml

from .base import *
import tools
import world

KERNELS5 = ['copy', 'daxpy', 'load', 'triad', 'update']
SI = {'': 1.0, 'k': 1e3, 'M': 1e6, 'G': 1e9}
OUT = '/work/out.yml'


class Q(float):
    """A number with a unit."""
    unit = ''

    def __new__(cls, text):
        m = re.match(r'^([0-9.]+) ([kMG]?)(.*)$', text)
        self = float.__new__(cls, float(m.group(1)) * SI[m.group(2)])
        self.unit = m.group(3)
        return self


class _C(ruamel.yaml.constructor.SafeConstructor):
    pass


_C.add_constructor('!prefixed', lambda c, n: quantity(n.value))
_C.add_constructor(None, lambda c, n: n.value)


def quantity(s):
    if re.match(r'^[0-9]+(\.[0-9]+)? [kMG]?(B|Hz|B/s|B/cy)$', s):
        return Q(s)
    return s


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return dict((k, norm(v)) for k, v in x.items())
    if isinstance(x, str):
        return quantity(x)
    return x


_loaded = {}


def load(data):
    """Machine description as plain Python data; None when it is damaged or empty."""
    if not data:
        return None
    data = bytes(data)
    if data not in _loaded:
        if len(_loaded) > 400:
            _loaded.clear()
        y = ruamel.yaml.YAML(typ='safe', pure=True)
        y.Constructor = _C
        try:
            d = norm(y.load(data.decode()))
        except (ruamel.yaml.error.YAMLError, UnicodeDecodeError, AttributeError):
            d = None
        _loaded[data] = d if isinstance(d, dict) else None
    return _loaded[data]


def near(a, b, rel):
    return abs(float(a) - float(b)) <= rel * max(abs(float(a)), abs(float(b)))


def same_data(a, b):
    """Equal up to the rounding numbers undergo when they are written."""
    if isinstance(a, Q) and isinstance(b, Q):
        return a.unit == b.unit and near(a, b, 0.0101)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_data(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_data(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a.split() == b.split()        # long strings are folded
    return type(a) == type(b) and a == b or \
        isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b


def sizes(m):
    """{(level, threads per core): (cores, threads, total sizes)} a machine is to be measured with."""
    out, prev = {}, (0.0, 1)
    cores = list(range(1, m['cores per socket'] + 1))
    last = 0.0
    for lv in m['memory hierarchy']:
        per = lv['cores per group']
        for t in range(1, m['threads per core'] + 1):
            if lv.get('size per group') is not None:
                s = float(int(lv['size per group']))
                tot = [max(max(s * c / per, s) * 0.66, max(int(prev[0]) * c / prev[1], int(prev[0])) * 1.2)
                       for c in cores]
            else:
                tot = [last * 15.0 for c in cores]
            out[lv['level'], t] = (cores, [c * t for c in cores], tot)
        if lv.get('size per group') is not None:
            last = float(lv['size per group'])
            prev = (float(lv['size per group']), per)
    return out


def series(m):
    """Complete measurements of a machine file: {(level, tpc, kernel): (total sizes, results, stats)}"""
    out = {}
    b = m.get('benchmarks')
    if not isinstance(b, dict):
        return out
    for lv, per in (b.get('measurements') or {}).items():
        for t, d in per.items():
            for k in (d.get('results') or {}):
                out[lv, t, k] = (d['total size'], d['results'][k], (d.get('stats') or {}).get(k))
    return out


def kept(m, partial=None):
    """Series that need not be measured again when *m* is completed (or the ones with *partial* points)."""
    out = {}
    want = sizes(m)
    b = m.get('benchmarks')
    if not isinstance(b, dict):
        return out
    for lv, per in (b.get('measurements') or {}).items():
        for t, d in per.items():
            w = want.get((lv, t))
            if w is None:
                continue
            fields = {'cores': w[0], 'threads': w[1], 'total size': w[2],
                      'size per core': [x / c for x, c in zip(w[2], w[0])],
                      'size per thread': [x / c for x, c in zip(w[2], w[1])]}
            if 'results' not in d or 'stats' not in d or d.get('threads per core') != t:
                continue
            if not all(k in d and len(d[k]) == len(v) and all(near(x, y, 0.0095) for x, y in zip(v, d[k]))
                       for k, v in fields.items()):
                continue
            for k in d['results']:
                n = len(d['total size'])
                n = n if partial is None else partial
                if len(d['results'][k]) == n and len(d['stats'].get(k, ())) == n:
                    out[lv, t, k] = (d['total size'], d['results'][k], d['stats'][k])
    return out


def fastest(m, k):
    b = m.get('benchmarks')
    return ((b.get('kernels') or {}).get(k) or {}).get('fastest bench kernel') if isinstance(b, dict) else None


def opts(args):
    """(source, destination) of an invocation."""
    src = None
    for i, a in enumerate(args):
        if a in ('-m', '--machine'):
            src = '/work/' + args[i + 1]
    return src, '/work/' + args[-1]


class Snap(object):
    """Contents of the machine files at the end of every process, and every content they ever had."""

    def __init__(self, w):
        self.w, self.at_end, self.seen = w, {}, {}
        self.last = {}
        w.sim.end_hooks.append(self.end)
        w.hooks.append(self.hook)

    def end(self, p):
        for path in (OUT, '/work/two.yml', '/work/t.yml'):
            d = self.w.fs.get(path)
            self.at_end.setdefault(p.pid, {})[path] = None if d is None else bytes(d)

    def hook(self, p, op, path, inode, info):
        if not path.startswith('/work/') and not (isinstance(info, str) and info.startswith('/work/')):
            return
        if op in ('create', 'truncate', 'write', 'rename', 'unlink', 'close'):
            for path in (OUT, '/work/two.yml', '/work/t.yml'):
                d = self.w.fs.get(path)
                d = None if d is None else bytes(d)
                if self.last.get(path, 0) != d:
                    self.last[path] = d
                    self.seen.setdefault(path, []).append((self.w.sim.step, p.pid, d))

    def result(self, run):
        return ()


MODULE = 'kerncraft.machinemodel'


class Machine(Prop):
    """Common generator: phases of generating, interrupting, editing and continuing a machine file."""
    measure = 'distinct histories of benchmark measurements and file replacements'

    def observers(self, spec):
        return (Snap,)

    def warm(self):
        try:
            H.execute({'seed': 0, 'files': {'/work/t.yml': {'t': ['template', {'cores': 1, 'levels': 1}]}},
                       'policy': {'kind': 'serial'}, 'cfg': {'hw': {'cores': 1}},
                       'phases': [[{'name': 'w', 'module': MODULE, 'args': ['-m', 't.yml', 'out.yml']}]]}).dispose()
        except core.HarnessError:
            pass

    def args(self, rng, src, dst, fresh=False):
        a = []
        if src:
            a += ['-m', src]
        if not fresh:
            a += ['--no-memory-hierarchy']
            if rng.random() < 0.7:
                a += ['--no-readouts']
        r = rng.random()
        if r < 0.35:
            a += [rng.choice(['-v', '-vv'])]
        if rng.random() < 0.07:
            a += ['--no-benchmarks']
        return a + [dst]

    def base(self, rng, i):
        lv = rng.choice([1, 1, 1, 2, 2, 3])
        cores = rng.choice([1, 1, 2] if lv < 3 else [1])
        tpc = rng.choice([1, 2] if lv == 1 else [1, 1, 1, 2]) if lv * cores < 3 else 1
        mk = {'v': rng.choice([0, 0, 2]), 'cores': cores, 'tpc': tpc, 'levels': lv,
              'l1sets': rng.choice([64, 100, 128])}
        hw = {'cores': cores, 'tpc': tpc, 'sockets': rng.choice([1, 1, 2])}
        mk['sockets'] = hw['sockets']
        spec = {'seed': i, 'policy': W.policy(rng), 'cfg': {'hw': hw}, 'max_steps': 60000, 'gap': 1,
                'files': {'/work/t.yml': {'t': ['template', mk]}}, 'phases': []}
        if rng.random() < 0.3:
            spec['cfg']['bench_unsupported'] = rng.sample(
                ['load_avx512', 'copy_avx', 'triad', 'daxpy_avx', 'update', 'load'], rng.choice([0, 2, 3]))
        return spec, mk

    def fault(self, rng, n, at=None):
        k = rng.choice(self.KINDS)
        f = {'at': at or rng.randrange(1, n + 1), 'kind': k}
        if k == 'kill':
            f['arg'] = rng.choice([0, 0, 0.1, 0.5, 0.95])
        elif k in ('enospc', 'eio_w'):
            f['arg'] = rng.choice([0, 0, 2, 10])
        elif k == 'short':
            f['arg'] = rng.choice([1, 100, 1000])
        elif k in ('cc_fail', 'cc_die'):
            f['at'], f['skip'] = 1, rng.randrange(0, 200)
        return f


def nfired(p):
    return any(f.fired for f in p.faults)


class P13(Machine):
    ID = 'P13'
    budget = {'quick': (240, 45), 'thorough': (6000, 840)}
    rule = ('machine file generation interrupted by ^C, kill or failing measurements 0-3 times, cache sizes edited in '
            'between, then continued; measurements made and stored compared with the simulated likwid-bench')
    KINDS = ('int', 'int', 'kill', 'kill', 'cc_fail', 'cc_die', 'enospc', 'stall')

    def gen(self, rng, i, tier):
        spec, mk = self.base(rng, i)
        r = rng.random()
        first = 't.yml'
        if r < 0.55:
            spec['files'][OUT] = {'t': ['template', mk]}
            first = 'out.yml'
        elif r < 0.65:
            # written by an older version: results without the single measurements
            spec['files'][OUT] = {'t': ['machine', mk]}
            spec['cfg'].pop('bench_unsupported', None)
            first = 'out.yml'
        elif r < 0.72:
            first = None
        n = H.reference(spec, 0, {'module': MODULE, 'args': ['-m', 't.yml', '--no-readouts', '--no-memory-hierarchy',
                                                              'out.yml']}).count
        k = rng.choice([0, 1, 1, 1, 2, 2, 3])
        src = first
        for j in range(k + 1):
            fresh = j == 0 and first is None
            p = {'name': 'p%d' % j, 'module': MODULE}
            if src and src != 'two.yml' and rng.random() < 0.15 and j:
                dst, nxt = 'two.yml', 'two.yml'
            elif src == 'two.yml':
                dst, nxt = 'two.yml', 'two.yml'
            else:
                dst = nxt = 'out.yml'
            p['args'] = self.args(rng, src, dst, fresh)
            if j < k:
                p['faults'] = [self.fault(rng, n)]
            spec['phases'].append([p])
            src = nxt
            if j < k or rng.random() < 0.5:
                e = self.edit(rng, mk, dst)
                if e:
                    spec['phases'].append([{'name': 'e%d' % j, 'kind': 'edit', 'actions': e}])
                    if j == k:
                        spec['phases'].append([{'name': 'q', 'module': MODULE,
                                                'args': self.args(rng, src, src)}])
        if rng.random() < 0.25:
            spec['phases'].append([{'name': 'z', 'module': MODULE, 'args': self.args(rng, src, src)}])
        return spec

    def edit(self, rng, mk, dst):
        r = rng.random()
        path = '/work/' + dst
        if r < 0.6:
            return None
        if r < 0.85:
            s = world.machine_yaml(**mk)
            got = re.findall(r'size per group: (\d+\.\d+) kB', s)
            old = rng.choice(got)
            new = '%.2f' % (float(old) * rng.choice([0.5, 1.3, 2.0]))
            return [['sub', path, 'size per group: %s kB' % old, 'size per group: %s kB' % new]]
        if r < 0.95 and mk['cores'] == 2:
            return [['sub', path, 'cores per socket: 2', 'cores per socket: 1']]
        return [['sub', path, 'clock: ', 'clock : ']] if rng.random() < 0.3 else None

    def judge(self, run):
        w, obs = run.w, run.obs[0]
        cur = dict((p, bytes(d)) for p, d in run.inputs0.items())
        runs = {}
        for x in w.bench_runs:
            runs.setdefault(x['proc'], []).append(x)
        for ph in run.phases:
            for sp, p in ph:
                v = None
                if sp.get('kind') != 'edit':
                    v = self.judge_one(run, sp, p, cur, obs.at_end.get(p.pid, {}), runs.get(p.name, []))
                for path, d in obs.at_end.get(p.pid, {}).items():
                    cur[path] = d
                if v:
                    return [v]
        return []

    def judge_one(self, run, sp, p, cur, after, rr):
        src, dst = opts(sp['args'])
        who = '%s (%s)' % (p.name, ' '.join(sp['args']))
        o = outcome(p)
        fired = nfired(p)
        m0 = load(cur.get(src)) if src else {}
        if src and (m0 is None or 'memory hierarchy' not in m0 or 'benchmarks' not in m0):
            return None                     # nothing to start from
        m1 = load(after.get(dst))
        if o != ('exit', 0) and not fired:
            return 'failed', '%s ends %r: %s' % (who, o, (p.tb or stderr(p))[-300:])
        if m1 is None:
            if fired and cur.get(dst) in (None, b'', after.get(dst)):
                return None
            return 'unreadable', '%s leaves an unreadable machine file' % who
        if fired and after.get(dst) == cur.get(dst):
            m1 = None                        # nothing was written
        # ---- what was to be measured
        base = m0
        if '--no-memory-hierarchy' not in sp['args'] or not src:
            base = m1
            if m1 is None or not isinstance(m1.get('memory hierarchy'), list):
                return None
        hw = run.w.hw
        base = dict(base)
        if '--no-readouts' not in sp['args']:
            base.update({'cores per socket': hw['cores'], 'threads per core': hw['tpc'], 'sockets': hw['sockets']})
        want = sizes(base)
        have = kept(dict(base, benchmarks=m0.get('benchmarks')))
        part = {}                            # beginnings of series: to be continued or restarted
        for j in range(1, base['cores per socket']):
            part.update(kept(dict(base, benchmarks=m0.get('benchmarks')), j))
        allowed, optional = {}, {}
        if src and src != dst and after.get(src) != cur.get(src):
            return 'source-changed', '%s changes %s' % (who, src)
        if not fired and 'hostname: sim' not in str(m1.get('machine state')):
            return 'machine-state', '%s stores machine state %r' % (who, m1.get('machine state'))
        if '--no-benchmarks' in sp['args']:
            if rr:
                return 'needless-measurement', '%s runs %d measurements' % (who, len(rr))
            if m1 and src and m1['benchmarks'] != m0['benchmarks']:
                return 'measurement-changed', '%s changes the benchmarks' % who
            return None
        tpc_max = base['threads per core']

        def wg(total, t, c):
            kb = float(total) / 1000
            return ['S0:%dkB:%d:1:%d' % (int(kb + d), t * c, int(tpc_max / t)) for d in (-1e-6, 1e-6)]

        def key(kern, total, t, c):
            a = wg(total, t, c)
            return kern, a[0] if a[0] in seen else a[1]
        seen = set(x['w'][0] for x in rr if x['w'])
        fast = {}
        for k in KERNELS5:
            f0 = fastest(m0, k)
            cand = [c for c in run.w.bench_kernels if c.startswith(k) and not re.search('_mem|_sp|_nt', c)]
            l1 = sorted(x for x in want if x[1] == 1 and x[0] == 'L1')[0]
            if f0 is None:
                # each candidate is tried once; the fastest of those that work is used
                bw = {}
                done = set()
                for x in rr:
                    if x['kernel'] in cand and x['kernel'] not in done:
                        done.add(x['kernel'])
                        if x['ok']:
                            bw[x['kernel']] = x['bw']
                for c in cand:
                    kk = key(c, self.total(base, m0, l1)[0], 1, 1)
                    allowed[kk] = allowed.get(kk, 0) + 1
                f1 = m1 and fastest(m1, k)
                if f1:
                    if f1 not in bw or bw[f1] < max(bw.values()):
                        return 'not-fastest', '%s selects %s for %s, measured %r' % (who, f1, k, bw)
                    fast[k] = f1
                elif m1 and not fired:
                    return 'no-kernel', '%s stores no kernel for %s' % (who, k)
                else:
                    fast[k] = max(bw, key=bw.get) if bw else None
            else:
                fast[k] = f0
                if m1 and fastest(m1, k) != f0:
                    return 'kernel-changed', '%s: %s becomes %s' % (who, f0, fastest(m1, k))
        for (lv, t) in want:
            tot = self.total(base, m0, (lv, t))
            for k in KERNELS5:
                if (lv, t, k) in have or fast[k] is None:
                    continue
                for c, s in zip(want[lv, t][0], tot):
                    kk = key(fast[k], s, t, c)
                    allowed[kk] = allowed.get(kk, 0) + 10
                    if (lv, t, k) in part and len(part[lv, t, k][1]) >= c:
                        optional[kk] = optional.get(kk, 0) + 10
        did = {}
        for x in rr:
            kk = (x['kernel'], x['w'][0] if x['w'] else None)
            did[kk] = did.get(kk, 0) + 1
        for kk in sorted(did, key=repr):
            if did[kk] > allowed.get(kk, 0):
                return 'needless-measurement', '%s runs %s %s %d times, needed are %d' % (
                    who, kk[0], kk[1], did[kk], allowed.get(kk, 0))
        if not fired:
            for kk in sorted(allowed):
                if did.get(kk, 0) < allowed[kk] - optional.get(kk, 0):
                    return 'missing-measurement', '%s runs %s %s %d times, needed are %d' % (
                        who, kk[0], kk[1], did.get(kk, 0), allowed[kk])
        # ---- what was measured before the end is not lost
        if rr:
            last = max(x['t'] for x in rr)
            for (lv, t) in want:
                tot = self.total(base, m0, (lv, t))
                for k in KERNELS5:
                    if (lv, t, k) in have or (lv, t, k) in part or fast[k] is None:
                        continue
                    ks = [key(fast[k], s, t, c) for c, s in zip(want[lv, t][0], tot)]
                    if len(set(ks)) < len(ks) or any(len([1 for z in want for y, c in zip(
                            self.total(base, m0, z), want[z][0]) if key(fast[k], y, z[1], c) == q]) > 1 for q in ks):
                        continue             # not told apart by their sizes
                    extra = 1 if fastest(m0, k) is None else 0
                    mine = [[x for x in rr if (x['kernel'], x['w'][0]) == q] for q in ks]
                    need = [10 + (extra if q == key(fast[k], self.total(base, m0, l1)[0], 1, 1) else 0) for q in ks]
                    if all(len([1 for x in b if x['ok']]) >= n for b, n in zip(mine, need)) and \
                            max(x['t'] for b in mine for x in b) < last and \
                            (not m1 or (lv, t, k) not in series(m1) or
                             len(series(m1)[lv, t, k][1]) < len(ks)):
                        return 'measurement-lost', '%s: %s was measured, but is not in the file' % (who, (lv, t, k))
        if m1 is None:
            return None
        # ---- what was stored
        got = series(m1)
        for x in have:
            if x not in got:
                return 'measurement-lost', '%s loses %r' % (who, x)
            for a, b in zip(have[x], got[x]):
                if not same_data(norm(a), norm(b)):
                    return 'measurement-changed', '%s changes %r' % (who, x)
        for (lv, t), (cores, threads, tot) in want.items():
            d = (m1['benchmarks'].get('measurements') or {}).get(lv, {}).get(t)
            if d is None:
                if fired:
                    continue
                return 'level-missing', '%s: %s/%d' % (who, lv, t)
            for f, v in (('cores', cores), ('threads', threads), ('total size', tot),
                         ('size per core', [x / c for x, c in zip(tot, cores)]),
                         ('size per thread', [x / c for x, c in zip(tot, threads)])):
                if len(d[f]) != len(v) or not all(near(x, y, 0.0101) for x, y in zip(v, d[f])):
                    return 'sizes', '%s: %s/%d %s is %r, expected %r' % (who, lv, t, f, d[f], v)
            for k in KERNELS5:
                if (lv, t, k) in have:
                    continue
                res, st = (d['results'] or {}).get(k, []), (d['stats'] or {}).get(k, [])
                if len(res) < len(cores) and not fired:
                    return 'incomplete', '%s: %s/%d %s has %d results' % (who, lv, t, k, len(res))
                for i, r in enumerate(res):
                    if i >= len(st):
                        if fired and i == len(res) - 1:
                            continue
                        return 'no-stats', '%s: %s/%d %s' % (who, lv, t, k)
                    if len(st[i]) != 10:
                        return 'repetitions', '%s: %s/%d %s measured %d times' % (who, lv, t, k, len(st[i]))
                    if not near(max(st[i]), r, 1e-9):
                        return 'not-maximum', '%s: %s/%d %s reports %r of %r' % (who, lv, t, k, r, st[i])
                    if (lv, t, k) in part and i < len(part[lv, t, k][1]) and \
                            same_data(norm(part[lv, t, k][2][i]), norm(st[i])):
                        continue
                    kk = key(fast[k], self.total(base, m0, (lv, t))[i], t, cores[i])
                    seq = [x['bw'] * 1e6 if x['ok'] else 0 for x in rr if (x['kernel'], x['w'][0]) == kk]
                    if not any(all(abs(a - b) < 5.1e6 for a, b in zip(seq[j:j + 10], st[i]))
                               for j in range(len(seq) - 9)):
                        return 'wrong-numbers', '%s: %s/%d %s stores %r, measured %r' % (
                            who, lv, t, k, st[i][:3], [x / 1e9 for x in seq[:12]])
        # ---- the description itself
        if src:
            keep = [k for k in m0 if k not in ('benchmarks', 'machine state')]
            if '--no-readouts' not in sp['args']:
                keep = [k for k in keep if k not in (
                    'kerncraft version', 'model type', 'model name', 'sockets', 'cores per socket',
                    'threads per core', 'NUMA domains per socket', 'cores per NUMA domain', 'clock',
                    'transparent hugepage')]
            for k in keep:
                if k == 'memory hierarchy' and '--no-memory-hierarchy' not in sp['args']:
                    continue
                if k not in m1 or not same_data(m0[k], m1[k]):
                    return 'description', '%s changes %s: %r, was %r' % (who, k, m1.get(k), m0[k])
        if '--no-readouts' not in sp['args'] and not fired:
            for k, v in (('cores per socket', hw['cores']), ('threads per core', hw['tpc']),
                         ('sockets', hw['sockets']), ('model type', tools.CPU_TYPE)):
                if m1.get(k) != v:
                    return 'readouts', '%s: %s is %r, hardware has %r' % (who, k, m1.get(k), v)
        return None

    @staticmethod
    def total(base, m0, lt):
        """Sizes in use: those of the file when they still fit (rounded), otherwise the exact ones."""
        want = sizes(base)[lt]
        b = m0.get('benchmarks')
        d = (b.get('measurements') or {}).get(lt[0], {}).get(lt[1]) if isinstance(b, dict) else None
        if d and 'results' in d and 'stats' in d and all(
                k in d and len(d[k]) == len(want[0]) for k in ('cores', 'threads', 'total size', 'size per core',
                                                               'size per thread')):
            if all(near(x, y, 0.0095) for x, y in zip(d['total size'], want[2])):
                return d['total size']
        return want[2]

    def nontrivial(self, run):
        h = [(x['proc'], x['kernel'], x['w'], x['ok']) for x in run.w.bench_runs]
        return hashlib.sha1(repr(h).encode()).hexdigest() if h else None

    def count(self, run):
        return {'bench_measurements': len(run.w.bench_runs),
                'failed_measurements': sum(1 for x in run.w.bench_runs if not x['ok'])}


# ------------------------------------------------------------------------------------ P14
class P14(Machine):
    ID = 'P14'
    budget = {'quick': (260, 45), 'thorough': (6000, 840)}
    rule = ('machine file generation killed, interrupted or hit by I/O errors at a stratified system-call index, with '
            'Kerncraft runs reading the file meanwhile, then continued; every content the file ever had is inspected')
    KINDS = ('kill', 'kill', 'kill', 'int', 'enospc', 'enospc', 'eio_w', 'short', 'emfile', 'erofs_ren', 'cc_fail')

    def gen(self, rng, i, tier):
        spec, mk = self.base(rng, i)
        mk['tpc'] = spec['cfg']['hw']['tpc'] = 1
        first = 't.yml'
        if rng.random() < 0.6:
            old = rng.random() < 0.4
            spec['files'][OUT] = {'t': ['machine' if old else 'template', mk]}
            if old:
                spec['cfg'].pop('bench_unsupported', None)
            first = 'out.yml'
        elif rng.random() < 0.2:
            first = None
        n = H.reference(spec, 0, {'module': MODULE, 'args': ['-m', 't.yml', '--no-readouts', '--no-memory-hierarchy',
                                                              'out.yml']}).count
        a = {'name': 'a', 'module': MODULE, 'args': self.args(rng, first, 'out.yml', first is None)}
        a['faults'] = [self.fault(rng, n, 1 + int((i * 0.6180339887 + rng.random() * 0.01) % 1.0 * n))]
        if rng.random() < 0.3:
            a['faults'].append(self.fault(rng, n))
        ph = [a]
        if first == 'out.yml':
            spec['files']['/work/k.c'] = {'t': ['kernel', 'copy']}
            for j in range(rng.choice([0, 0, 1, 2])):
                ph.append({'name': 'r%d' % j, 'module': 'kerncraft.kerncraft', 'delay': round(rng.uniform(0, 90), 3),
                           'args': ['-m', 'out.yml', '-p', 'LC', '-P', 'LC', '-D', 'N', '400', 'k.c']})
        if rng.random() < 0.25:
            # two generators at the same time, half of the time in step
            ph.append(dict(a, name='b', faults=[], delay=round(rng.choice([0, rng.uniform(0, 0.01), rng.uniform(0, 30)]), 4)))
            if ph[-1]['delay'] < 0.1 and rng.random() < 0.5:
                a['faults'] = []
        spec['phases'] = [ph, [{'name': 'c', 'module': MODULE,
                                'args': self.args(rng, 'out.yml', 'out.yml')}]]
        return spec

    def judge(self, run):
        obs = run.obs[0]
        names = dict((p.pid, (sp, p)) for ph in run.phases for sp, p in ph)
        two = 'b' in run.procs
        start = dict(run.inputs0).get(OUT)
        good = start
        for step, pid, d in obs.seen.get(OUT, ()):
            if d == start:
                good = good or d
                continue
            m = load(d)
            who = '%s (%s)' % (names[pid][1].name, ' '.join(names[pid][0]['args'])) if pid in names else pid
            if m is None:
                if good:
                    what = 'removes' if d is None else 'empties' if not d else 'damages'
                    return [('destroyed', '%s %s the machine file (%d bytes) that was complete' % (who, what, len(d or b'')))]
                if d:
                    return [('torn', '%s leaves an unreadable machine file of %d bytes' % (who, len(d)))]
                continue
            want = ['memory hierarchy', 'benchmarks', 'compiler', 'in-core model', 'cacheline size']
            ref = (None if two else load(good)) or load(start) or load(run.inputs0.get('/work/t.yml'))
            for k in list(ref) + want:
                if k not in m and k != 'transparent hugepage':
                    return [('torn', '%s writes a machine file without %s' % (who, k))]
            b = m['benchmarks']
            if not isinstance(b, dict) and good and not two and \
                    isinstance(load(good)['benchmarks'], dict):
                return [('benchmarks-lost', who)]
            if isinstance(b, dict) and b != (load(start) or {}).get('benchmarks'):
                if sorted(b.get('kernels') or {}) != KERNELS5 or 'measurements' not in b:
                    return [('torn', '%s writes incomplete benchmarks' % who)]
                for lv, per in b['measurements'].items():
                    for t, x in per.items():
                        if not isinstance(x, dict) or 'results' not in x or 'stats' not in x or 'cores' not in x:
                            return [('torn', '%s writes incomplete measurements of %s' % (who, lv))]
            if good and not two and '--no-memory-hierarchy' in names[pid][0]['args']:
                g, now = kept(load(good)), series(m)
                hw = run.w.hw
                for x in g:
                    if x not in now or any(not same_data(norm(p), norm(q)) for p, q in zip(g[x], now[x])):
                        return [('measurement-lost', '%s: %r was in the file and is not any more' % (who, x))]
            good = d
        for ph, sp, p in run.cli():
            who = '%s (%s)' % (p.name, ' '.join(sp['args']))
            o = outcome(p)
            if p.name.startswith('r'):
                ref = H.reference(run.spec, 0, sp)
                if not H.same_report(p, ref):
                    return [('reader', '%s: %s' % (who, H.describe_diff(p, ref)))]
            elif o != ('exit', 0) and not nfired(p):
                before = self.before(obs, run, p)
                src, dst = opts(sp['args'])
                if src and not before.get(src):
                    continue
                return [('cannot-continue', '%s ends %r: %s' % (who, o, (p.tb or stderr(p))[-300:]))]
        return []

    @staticmethod
    def before(obs, run, p):
        d = dict(run.inputs0)
        for step, pid, c in obs.seen.get(OUT, ()):
            if pid != p.pid:
                d[OUT] = c
        return d

    def nontrivial(self, run):
        h = [(pid, hashlib.sha1(d or b'').hexdigest()) for step, pid, d in run.obs[0].seen.get(OUT, ())]
        h.append(sorted((p.name, outcome(p)[0]) for _, _, p in run.cli()))
        h.append([x for x in run.sim.log if x[2] == 'FAULT'])
        return hashlib.sha1(repr(h).encode()).hexdigest()

    def count(self, run):
        return {'bench_measurements': len(run.w.bench_runs),
                'machine_file_versions': len(run.obs[0].seen.get(OUT, ()))}
