"""Properties of result files: --store, --json, picklemerge."""
import io
import copyreg
import itertools
import json as _json
import pickle

from .base import *
from .cache import base_files, random_fault, ALL
import tools


# ------------------------------------------------------------------- reading result stores
class Opaque(object):
    """Instance of a class that is not loaded here, compared by its state."""

    a, s = (), None

    def __new__(cls, *a):
        o = object.__new__(cls)
        o.a = a
        return o

    def __init__(self, *a):
        pass

    def __setstate__(self, s):
        self.s = s

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, protocol):
        return copyreg.__newobj__, (type(self),) + tuple(self.a), getattr(self, 's', None)

    def canon(self):
        return '<%s.%s %s %s>' % (self.M, self.N, canon(self.a), canon(self.s))

    def __repr__(self):
        return self.canon()

    def __hash__(self):
        return hash(self.N)

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.canon() == o.canon()


_cls = {}


class _Un(pickle.Unpickler):
    def find_class(self, module, name):
        if module.split('.')[0] in ('builtins', 'collections', 'sympy', 'numpy', 'copyreg', 'mpmath', '_codecs'):
            return super().find_class(module, name)
        k = (module, name)
        if k not in _cls:
            _cls[k] = type(name, (Opaque,), {'M': module, 'N': name})
        return _cls[k]


def canon(x):
    if isinstance(x, dict):
        return '{%s}' % ', '.join(sorted('%s: %s' % (canon(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return '[%s]' % ', '.join(canon(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return 'set(%s)' % ', '.join(sorted(canon(v) for v in x))
    if isinstance(x, Opaque):
        return x.canon()
    return repr(x)


class _P(pickle._Pickler):
    def save_global(self, obj, name=None):
        if isinstance(obj, type) and issubclass(obj, Opaque):
            self.write(b'c%s\n%s\n' % (obj.M.encode(), obj.N.encode()))
            self.memoize(obj)
        else:
            pickle._Pickler.save_global(self, obj, name)

    def save_type(self, obj):
        self.save_global(obj)
    dispatch = dict(pickle._Pickler.dispatch)
    dispatch[type] = save_type


def grown(rng, data):
    """The store as another version might have left it: same results, more or other details."""
    d = load_store(data)
    if not d:
        return None

    def more(x, depth=0):
        if not isinstance(x, dict):
            return x
        x = dict((k, more(v, depth + 1)) for k, v in x.items())
        if depth == 0 or rng.random() < 0.5:
            x['former detail'] = {'v': rng.randrange(100)}
        if rng.random() < 0.5 and x:
            x.pop(sorted(x, key=str)[0])
        return x
    f = io.BytesIO()
    _P(f, 2).dump(dict((k, more(v)) for k, v in d.items()))
    return f.getvalue()


def load_store(data):
    """{canonical key: canonical value}; None when the file is not a store; {} when empty."""
    if data is None or data == b'':
        return {}
    f = io.BytesIO(data)
    try:
        d = _Un(f).load()
    except Exception:  # noqa
        return None
    if not isinstance(d, dict) or f.read(1):
        return None
    return d


_flat = {}


def flat(data):
    """Results in a store by identity: top-level entries for kerncraft results, three levels for
    stand-alone benchmarks."""
    if data in _flat:
        return _flat[data]
    d = load_store(data)
    out = None
    if d is not None:
        out = {}
        for k, v in d.items():
            if isinstance(k, str) and isinstance(v, dict):
                for c, m in v.items():
                    for n, r in (m.items() if isinstance(m, dict) else [('', m)]):
                        out['%s|%s|%s' % (k, canon(c), n)] = canon(r)
            else:
                out[canon(k)] = canon(v)
    if len(_flat) > 500:
        _flat.clear()
    _flat[data] = out
    return out


def opt(args, name, cwd='/work'):
    for j in range(len(args) - 1):
        if args[j] == name:
            return posixpath.normpath(posixpath.join(cwd, args[j + 1]))
    return None


def lone_results(spec, ph, sp):
    """(outcome, stdout, {key: value}, json bytes) of the process alone with a new store."""
    s, j = opt(sp['args'], '--store', sp.get('cwd', '/work')), opt(sp['args'], '--json', sp.get('cwd', '/work'))
    o, out, f = H.lone_files(spec, ph, sp, [x for x in (s, j) if x])
    return o, out, flat(f.get(s)), f.get(j)


class StoreWatch(Recorder):
    """Content of result files after every change of the file or of the name."""

    def __init__(self, w, keep=None):
        Recorder.__init__(self, w)
        self.paths = set()
        self.hist = {}      # path -> [(step, pid, op, bytes or None)]
        self.first = {}
        w.hooks.append(self.watch)
        w.sim.start_hooks.append(self.start)

    def start(self, p):
        sp = getattr(p, 'user', None)
        if not sp:
            return
        for n in ('--store', '--json'):
            x = opt(sp.get('args', []), n, sp.get('cwd', '/work'))
            if x:
                self.paths.add(x)
        if sp.get('module') == 'kerncraft.picklemerge' and sp.get('args'):
            self.paths.add(posixpath.normpath(posixpath.join('/work', sp['args'][0])))
        for x in self.paths:
            if x not in self.first:
                self.first[x] = self.w.fs.get(x)

    def watch(self, p, op, path, inode, info):
        if op not in ('create', 'truncate', 'write', 'rename', 'unlink'):
            return
        for q in {posixpath.normpath(path)} | ({posixpath.normpath(info)} if op == 'rename' else set()):
            if q in self.paths:
                self.hist.setdefault(q, []).append((self.w.sim.step, p.pid, op, self.w.fs.get(q)))

    def torn(self, run):
        """First moment at which a result file is neither absent/empty-from-the-start nor whole."""
        names = dict((p.pid, p.name) for p in run.sim.procs)
        for path in sorted(self.hist):
            had = bool(self.first.get(path))
            js = path.endswith('.json')
            for step, pid, op, data in self.hist[path]:
                if js:
                    try:
                        ok = not had if not data else isinstance(_json.loads(data.decode()), dict)
                    except ValueError:
                        ok = False
                else:
                    ok = not had if not data else flat(data) is not None
                if not ok:
                    return ('torn-result-file', '%s is not a complete result file after %s by %s (step %d, %s)' % (
                        path, op, names.get(pid), step,
                        'absent' if data is None else '%d bytes' % len(data)))
                had = had or bool(data)
        return None

    def result(self, run):
        t = self.torn(run)
        return [t] if t else []


def store_cli(rng, name, machines, kern, store, models=None, js=None, spread=0.4, sweep=None, heavy=True):
    sp = W.random_cli(rng, name, machines, 'k.c', kern, spread=spread, models=models)
    a = sp['args']
    if sweep and '-D' in a:
        i = a.index('-D')
        lo = int(a[i + 2])
        a[i + 2] = '%d-%d:%d' % (lo, lo + 80 * (sweep - 1), sweep)
        if rng.random() < 0.15:
            a[i + 2] += 'log' + rng.choice(['', '2'])
    if store:
        a[:0] = ['--store', store]
    if js:
        a[:0] = ['--json', js]
    return sp


LIGHT = ['LC', 'LC', 'RooflineFLOP', 'ECMData', 'ECMCPU', 'ECM', 'Benchmark', 'RooflineASM']


def standalone(rng, name, store):
    n = rng.choice([500, 1000])
    return {'name': name, 'module': 'kerncraft.standalone_pheno',
            'args': ['-m', 'm.yml', '--store', store, '-D', '_N', '%d:1e9:lin' % n, '-D', 'M', str(rng.choice([5, 7])),
                     '--flops', '2', '-L', '0:%d:_N' % n, '-R', '_N', '--no-phenoecm', rng.choice(['b1.exe', 'b2.exe'])]}


EXES = {'/work/b1.exe': {'t': ['exe', 'one'], 'mode': 0o755}, '/work/b2.exe': {'t': ['exe', 'two'], 'mode': 0o755}}


def merged(*maps):
    r = {}
    for m in maps:
        r.update(m or {})
    return r


HEAD = '{:^80}'.format(' kerncraft ') + '\n'


class P09(Prop):
    ID = 'P09'
    rule = ('runs adding to a result store (empty, absent or filled; sweeps; JSON export) hit by faults, half of '
            'them at one of the last 40 system calls; file content checked after every change, store contents '
            'compared with those of lone runs')

    def observers(self, spec):
        return (StoreWatch,)

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1)
        spec = {'seed': i, 'policy': W.policy(rng), 'cfg': {'iaca': True}, 'files': base_files(kern), 'phases': [],
                'gap': 1}
        spec['files'].update(EXES)
        st = rng.choice(['res.pickle', '/work/out/res', 'r e s'])
        if st.startswith('/work/out'):
            spec['dirs'] = ['/work/out']
        r = rng.random()
        if r < 0.5:
            spec['phases'].append([store_cli(rng, 'a', ['m.yml', 'n.yml'], kern, st, ['LC', 'RooflineFLOP', 'ECM'],
                                             js=rng.choice([None, 'j.json']))])
        elif r < 0.6:
            spec['files'][posixpath.normpath(posixpath.join('/work', st))] = {'t': ['text', '']}
        if rng.random() < 0.15:
            v = standalone(rng, 'v', st)
        else:
            v = store_cli(rng, 'v', ['m.yml', 'n.yml'], kern, st, LIGHT, js=rng.choice([None, 'j.json', 'j.json']),
                          sweep=rng.choice([None, None, 2, 3]))
        n = H.reference(spec, 0, v).count + (30 if len(spec['phases']) else 25)
        tail = rng.random() < 0.6
        at = n - int(((i * 0.6180339887) % 1.0) * (40 if tail else n))
        v['faults'] = [random_fault(rng, max(1, at))]
        spec['phases'].append([v])
        spec['phases'].append([store_cli(rng, 'z', ['m.yml'], kern, st, ['LC', 'RooflineFLOP'],
                                         js=rng.choice([None, 'j.json']))])
        return spec

    def judge(self, run):
        v = check_reports(run)
        if v:
            return v
        spec = run.spec
        must, may = {}, {}
        first = None
        for ph, sp, p in run.cli():
            s = opt(sp['args'], '--store')
            o, out, res, js = lone_results(spec, ph, sp)
            if o != ('exit', 0):
                return []
            if outcome(p) == ('exit', 0):
                must.update(res)
            else:
                may.update(res)
                # a parameter set was saved when the report goes on to the next one
                if sp['module'].endswith('kerncraft'):
                    k = len(set(sp['args'][j + 1] for j, x in enumerate(sp['args']) if x == '-p'))
                    n = max(0, stdout(p).count(HEAD) - 1) // k * k
                    must.update(list(res.items())[:n])
            got = flat(run.w.fs.get(s))
        return store_diff(got, must, may) + json_diff(run)

    def count(self, run):
        return {'victim_disturbed': sum(1 for _, sp, p in run.cli() if sp.get('faults') and
                                        outcome(p) != ('exit', 0))}


def json_diff(run):
    """The JSON file of the last successful run contains its results as it would alone."""
    last = {}
    for ph, sp, p in run.cli():
        j = opt(sp['args'], '--json', sp.get('cwd', '/work'))
        if j:
            last.setdefault(j, []).append((ph, sp, p))
    for j, l in last.items():
        ph, sp, p = l[-1]
        same = [x for x in l if x[0] == ph]
        if len(same) > 1 or outcome(p) != ('exit', 0):
            continue
        _, _, _, ref = lone_results(run.spec, ph, sp)
        try:
            want, got = _json.loads(ref.decode()), _json.loads((run.w.fs.get(j) or b'').decode())
        except ValueError:
            return [('json-damaged', '%s after %s is not JSON' % (j, p.name))]
        for k in want:
            if k not in got:
                return [('json-missing', '%s lacks a result of %s' % (j, p.name))]
            if got[k] != want[k]:
                return [('json-differs', '%s of %s: %r, alone %r' % (j, p.name, str(got[k])[:150], str(want[k])[:150]))]
    return []


def store_diff(got, must, may):
    if got is None:
        return [('store-damaged', 'the store cannot be read at the end')]
    for k in sorted(must):
        if k not in got:
            return [('result-lost', 'the store has %d entries and lacks %s' % (len(got), k[:300]))]
        if got[k] != must[k]:
            return [('result-differs', 'stored %s, expected %s' % (got[k][:200], must[k][:200]))]
    for k in sorted(got):
        if k not in must and k not in may:
            return [('unexpected-result', k[:300])]
        if k not in must and got[k] != may[k]:
            return [('result-differs', 'stored %s, expected %s' % (got[k][:200], may[k][:200]))]
    return []


class P10(Prop):
    ID = 'P10'
    rule = ('2-5 processes (kerncraft, stand-alone benchmark) add to one result store at the same time, some of '
            'them killed; final store compared with the union of the lone runs\' stores')

    def observers(self, spec):
        return (StoreWatch,)

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1)
        spec = {'seed': i, 'policy': W.policy(rng), 'cfg': {'iaca': True}, 'files': base_files(kern), 'phases': [],
                'gap': 1}
        spec['files'].update(EXES)
        st = rng.choice(['res.pickle', 'res'])
        if rng.random() < 0.4:
            spec['phases'].append([store_cli(rng, 'a', ['m.yml', 'n.yml'], kern, st, ['LC', 'RooflineFLOP', 'ECM'])])
        ph = []
        base = None
        if spec['phases'] and rng.random() < 0.6:     # results of the first run are renewed by one of the others
            base = spec['phases'][0][0]
            spec['phases'].append([{'name': 'e', 'kind': 'edit', 'actions': [
                ['put', '/work/' + base['args'][base['args'].index('-m') + 1], ['machine', {'v': 5, 'clock': 2.2}]]]}])
        alike = rng.random() < 0.2         # many short stand-alone benchmarks, finishing at about the same time
        for k in range(rng.choice([2, 2, 3, 4, 5])):
            r = rng.random()
            if r < (0.9 if alike else 0.2):
                sp = standalone(rng, 'r%d' % k, st)
                if alike and rng.random() < 0.7:
                    sp['args'][-1] = 'b1.exe'
            else:
                sp = store_cli(rng, 'r%d' % k, ['m.yml', 'n.yml'], kern, st, LIGHT,
                               js=rng.choice([None, None, 'j.json', 'j%d.json' % k]),
                               sweep=rng.choice([None, None, 2, 3]))
                if base and rng.random() < (0.2 if base in ph else 0.45):
                    sp['args'] = list(base['args'])
                base = base or sp
            if rng.random() < (0.1 if alike else 0.4):
                sp['delay'] = round(rng.choice([0.05, 0.5]) * rng.random(), 3)
            if k and rng.random() < 0.2:
                n = H.reference(spec, 0, sp).count + 25
                sp['faults'] = [{'at': n - rng.randrange(0, 40), 'kind': rng.choice(['kill', 'int', 'enospc', 'stall']),
                                 'arg': 0}]
            elif alike and rng.random() < 0.5:
                # stopped while it stores its results, until the others are done
                n = H.reference(spec, 0, sp).count + 25
                sp['faults'] = [{'at': n - rng.randrange(0, 30), 'kind': 'stall', 'arg': 100}]
            ph.append(sp)
        spec['phases'].append(ph)
        if rng.random() < 0.3:
            spec['phases'].append([store_cli(rng, 'z', ['m.yml'], kern, st, ['LC', 'RooflineFLOP'])])
        if rng.random() < 0.2:
            # some know the store by another name
            l = rng.choice(['l.pickle', 'mach2/l.pickle'])
            spec['links'] = {'/work/' + l: '/work/' + st if rng.random() < 0.5 else '../' * l.count('/') + st}
            for q in spec['phases']:
                for sp in q:
                    if sp.get('kind') != 'edit' and rng.random() < 0.5:
                        sp['args'][sp['args'].index('--store') + 1] = l
        elif rng.random() < 0.2:
            spec['files']['/work/' + st] = {'t': ['text', ''], 'mode': rng.choice([0o600, 0o664, 0o666])}
        return spec

    def judge(self, run):
        v = check_reports(run)
        if v:
            return v
        for l in run.spec.get('links', {}):
            if not run.w.fs.islink(l):
                return [('link-replaced', '%s is no symbolic link any more' % l)]
        for l, f in run.spec['files'].items():
            if '/res' in l and 'mode' in f:
                n = run.w.fs.lookup(l)
                if n.mode & 0o777 != f['mode']:
                    return [('mode-changed', '%s has the mode %o, had %o' % (l, n.mode & 0o777, f['mode']))]
        must, may, got = {}, {}, None
        for ph, sp, p in run.cli():
            o, out, res, js = lone_results(run.spec, ph, sp)
            if o == ('exit', 0) and sp['module'] == 'kerncraft.standalone_pheno' and len(res or ()) != 1:
                return [('entries', '%s (%s) alone stores %d results' % (p.name, ' '.join(sp['args']), len(res or ())))]
            if o != ('exit', 0):
                return []
            (must if outcome(p) == ('exit', 0) else may).update(res)
            got = flat(run.w.fs.get(opt(sp['args'], '--store')))
        return store_diff(got, must, may) + json_diff(run)


CHANGES = [('-C', ['gcc', 'clang']), ('--compiler-flags', ['-O1', '-O3 -mavx', '-mavx -O3', '-O2 -DX=1']),
           ('-c', ['1', '2', '3', '4']), ('-i', ['OSACA', 'IACA', 'LLVM-MCA']), ('--pointer-increment', ['16', '32', '64']),
           ('-P', ['LC', 'SIM']), ('-m', ['m.yml', 'n.yml', 'mach2/m.yml']), ('--asm-block', ['manual', '0', '1']), ('FILE', ['k.c', 'd/k.c'])]
DEFAULTS = {'-i': 'OSACA', '-P': 'SIM', '-c': '1', '-C': 'gcc'}


def change_one(rng, a):
    """The same run with one setting changed, most often one that makes a difference to its model."""
    m = set(a[j + 1] for j, y in enumerate(a) if y == '-p')
    use = CHANGES
    if rng.random() < 0.8:
        use = [c for c in CHANGES if c[0] in ('-c', '-m', 'FILE') or
               (c[0] in ('-i', '--asm-block', '--pointer-increment', '-C', '--compiler-flags') and m & {'ECMCPU', 'ECM', 'RooflineASM'}) or
               (c[0] == '-P' and m & {'ECMData', 'ECM', 'RooflineFLOP', 'RooflineASM'}) or
               (c[0] in ('-C', '--compiler-flags') and 'Benchmark' in m)]
    o, v = rng.choice(use)
    if o == 'FILE':
        a[-1] = {'k.c': 'd/k.c', 'd/k.c': 'k.c'}[a[-1]]
        return
    for j, y in enumerate(a):
        if y == o and len(v) > 1:
            a[j + 1] = rng.choice([x for x in v if x != a[j + 1]])
            return
        if y.startswith(o + '=') and len(v) > 1:
            a[j] = o + '=' + rng.choice([x for x in v if x != y[len(o) + 1:]])
            return
    if o == '--asm-block' and any(y.startswith(o) for y in a):
        return
    x = rng.choice([x for x in v if x != DEFAULTS.get(o)])
    a[:0] = [o + '=' + x] if o.startswith('--') else [o, x]


def settings(a):
    """Settings of a kerncraft call that decide about its results, constants and models aside."""
    r, it = {}, iter(a)
    for x in it:
        k, eq, v = x.partition('=')
        if k in ('-C', '--compiler-flags', '-c', '-i', '--pointer-increment', '-P', '-m', '--asm-block'):
            r[k] = v if eq else next(it, None)
        elif k in ('-D',):
            next(it), next(it)
        elif k in ('--store', '--json', '-p'):
            next(it)
    r['file'] = a[-1]
    return tuple(sorted(r.items()))


def define_values(text):
    """Values of a constant given as start[-stop[:num[log[base]]]]."""
    a, _, r = text.partition('-')
    if not r:
        return [int(a)]
    b, _, n = r.partition(':')
    a, b = int(a), int(b)
    if not n:
        return list(range(a, b + 1))
    if 'log' in n:
        n = int(n.partition('log')[0])
        return [int(round(a * (b / float(a)) ** (k / (n - 1.0)))) for k in range(n)]
    return [int(round(a + k * (b - a) / (int(n) - 1.0))) for k in range(int(n))]


def parameter_sets(args, names):
    """All (model, constants) a call asks for."""
    given = dict((n, set()) for n in names)
    for j, x in enumerate(args):
        if x == '-D' and args[j + 1] in given:
            given[args[j + 1]].update(define_values(args[j + 2]))
    models = [args[j + 1] for j, x in enumerate(args) if x in ('-p', '--pmodel')]
    return [(m, d) for m in sorted(set(models)) for d in
            itertools.product(*[[(n, v) for v in sorted(given[n])] for n in sorted(names)])]


def with_parameters(args, model, define):
    """The same call for a single parameter set."""
    r, it = [], iter(args[:-1])
    for x in it:
        if x == '-D':
            next(it), next(it)
        elif x in ('-p', '--pmodel'):
            next(it)
        else:
            r.append(x)
    return r + ['-p', model] + [y for n, v in define for y in ('-D', n, str(v))] + args[-1:]


class P11(Prop):
    ID = 'P11'
    rule = ('histories of 2-5 runs (sweeps, several models, failing ones, edits of the machine file in between) adding '
            'to one or two stores and JSON files; contents after every run compared with the model: union of '
            'lone results, the latest wins')

    def gen(self, rng, i, tier):
        kern = rng.choice(W.K1 + ['const', '2d5pt'])
        spec = {'seed': i, 'policy': {'kind': 'serial'}, 'cfg': {'iaca': True}, 'files': base_files(kern), 'phases': [],
                'gap': 1}
        spec['files'].update(EXES)
        spec['files']['/work/d/k.c'] = {'t': ['kernel', {'2d5pt': '2d5pt', 'const': 'const', 'triad': 'sum'}.get(kern, 'triad')]}
        stores = ['res.pickle', '/work/second store']
        ver = 2
        pair = rng.random() < 0.4           # nothing but a run and the same with another setting
        for k in range(2 if pair else rng.choice([2, 3, 3, 4, 5])):
            st = stores[0] if pair or rng.random() < 0.7 else stores[1]
            spec['user_kern'] = kern
            if pair:
                if k:
                    sp = {'name': 'r1', 'module': 'kerncraft.kerncraft', 'args': list(spec['phases'][0][0]['args'])}
                    change_one(rng, sp['args'])
                else:
                    sp = store_cli(rng, 'r0', ['m.yml', 'n.yml'], kern, st, LIGHT)
                spec['phases'].append([sp])
                continue
            if rng.random() < 0.12:
                sp = standalone(rng, 'r%d' % k, st)
            else:
                sp = store_cli(rng, 'r%d' % k, ['m.yml', 'n.yml'], kern, st, LIGHT,
                               js=rng.choice([None, 'j.json', 'j2.json']),
                               sweep=rng.choice([None, 2, 3]) if kern != 'const' else None)
                if rng.random() < 0.3:
                    sp['args'][-1:-1] = ['-p', rng.choice(['LC', 'RooflineFLOP', 'ECMData'])]
                if rng.random() < 0.15 and '-D' in sp['args']:
                    sp['args'][sp['args'].index('-D') + 1] = 'X'
                if rng.random() < 0.1:
                    sp['faults'] = [{'at': rng.randrange(30, 200), 'kind': rng.choice(['cc_fail', 'int', 'eio_w'])}]
                prev = [q[0] for q in spec['phases'] if q[0].get('kind') != 'edit' and
                        q[0]['module'] == 'kerncraft.kerncraft']
                if prev and rng.random() < 0.5:
                    sp['args'] = list(rng.choice(prev)['args'])
                    if rng.random() < 0.6:
                        change_one(rng, sp['args'])
                        if rng.random() < 0.2:
                            change_one(rng, sp['args'])
            spec['phases'].append([sp])
            if rng.random() < 0.2:
                ver += 1
                spec['phases'].append([{'name': 'e%d' % k, 'kind': 'edit', 'actions': [
                    ['put', '/work/m.yml', ['machine', {'v': ver % 7, 'clock': 2.7}]]]}])
        for k, ph in enumerate(spec['phases']):
            if any(x.startswith('--asm-block') for x in ph[0].get('args', ())):
                ph[0]['stdin'] = '.L6\n16\n' + '.L6\n' * 20
                ph[0]['env'] = {'HOME': '/home/u%d' % k}
        first = spec['phases'][0][0]
        if rng.random() < 0.15 and not first.get('faults') and first['module'] == 'kerncraft.kerncraft':
            # results of the same settings are there already
            st = opt(first['args'], '--store')
            data = grown(rng, H.lone_files(spec, 0, first, [st])[2].get(st))
            if data:
                spec['files'][st] = {'t': ['hex', data.hex()]}
        return spec

    def observers(self, spec):
        return (AfterEach,)

    def judge(self, run):
        v = check_reports(run)
        if v:
            return v
        snaps = run.obs[0].snaps
        must, may, whose, version, jm = {}, {}, {}, None, {}
        for ph, sp, p in run.cli():
            st = opt(sp['args'], '--store')
            o, out, res, js = lone_results(run.spec, ph, sp)
            if version != H.files_at(run.spec, ph):
                version, whose = H.files_at(run.spec, ph), {}
            if o == ('exit', 0) and sp['module'] == 'kerncraft.standalone_pheno' and len(res or ()) != 1:
                return [('entries', '%s (%s) alone stores %d results' % (p.name, ' '.join(sp['args']), len(res or ())))]
            if sp['module'] == 'kerncraft.kerncraft':
                for k in sorted(res or ()):
                    s0, v0 = whose.setdefault(k, (settings(sp['args']), res[k]))
                    if s0 != settings(sp['args']) and v0 != res[k]:
                        return [('settings-collide', 'results of runs with %r and %r overwrite each other: %s' % (
                            s0, settings(sp['args']), k[:200]))]
                names = {'2d5pt': ['M', 'N'], 'const': []}.get(run.spec.get('user_kern'), ['N'])
                if o == ('exit', 0):
                    sets = parameter_sets(sp['args'], names)
                    if len(res) != len(sets):
                        return [('entries', '%s (%s) alone stores %d results for %d parameter sets' % (
                            p.name, ' '.join(sp['args']), len(res), len(sets)))]
                    if len(sets) > 1:
                        for model, define in (sets[0], sets[-1]):
                            one = lone_results(run.spec, ph, dict(sp, args=with_parameters(sp['args'], model, define)))
                            for k in sorted(one[2] or ()):
                                if one[0] == ('exit', 0) and res.get(k) != one[2][k]:
                                    return [('sweep-stores', '%s (%s) stores %r, %s %r alone %r' % (
                                        p.name, ' '.join(sp['args']), str(res.get(k))[:150], model, define, one[2][k][:150]))]
            if st not in must:
                must[st] = dict(flat(run.inputs0.get(st)) or ())
            m = must[st]
            if outcome(p) == ('exit', 0):
                m.update(res)
            else:
                jm.pop(st, None)
                # a failing run has saved its finished parameter sets
                k = len(set(sp['args'][j + 1] for j, x in enumerate(sp['args']) if x == '-p')) or 1
                n = max(0, stdout(p).count(HEAD) - 1) // k * k
                if sp.get('faults') and o == ('exit', 0):
                    m.update(list(res.items())[:n])
                elif o != ('exit', 0):
                    m.update(res or {})
            tree = snaps.get(p.pid, {})
            d = store_diff(flat(tree.get(st)), m, {})
            if d:
                # an interrupted run may have saved its last parameter set
                if sp.get('faults') and outcome(p) != ('exit', 0) and o == ('exit', 0):
                    got = flat(tree.get(st)) or {}
                    last = dict((k, res[k]) for k in res if got.get(k) == res[k])
                    d = store_diff(flat(tree.get(st)), dict(m, **last), {})
                    if not d:
                        m.update(last)
            if d:
                return [(d[0][0], 'after %s, %s: %s' % (p.name, st, d[0][1]))]
            j = opt(sp['args'], '--json')
            if j and outcome(p) == ('exit', 0):
                try:
                    want, got = _json.loads(js.decode()), _json.loads((tree.get(j) or b'').decode())
                except ValueError:
                    return [('json-damaged', '%s after %s is not JSON' % (j, p.name))]
                for k in want:
                    if k not in got or got[k] != want[k]:
                        return [('json-differs', '%s after %s: %r, alone %r' % (
                            j, p.name, str(got.get(k))[:150], str(want[k])[:150]))]
                jm.setdefault(st, {}).update(want)
                for k in got:
                    if k in jm[st] and got[k] != jm[st][k]:
                        return [('json-differs', '%s after %s: %r, stored before %r' % (
                            j, p.name, str(got[k])[:150], str(jm[st][k])[:150]))]
                if len(got) != len(load_store(tree.get(st)) or ()):
                    return [('json-content', '%s after %s holds %d results, the store %d' % (
                        j, p.name, len(got), len(load_store(tree.get(st)) or ())))]
        return []

    def nontrivial(self, run):
        return [sp.get('args', sp.get('actions')) for ph in run.phases for sp, p in ph]
    measure = 'distinct histories'


class AfterEach(object):
    """Result files as they are when each process ends."""

    def __init__(self, w):
        self.w, self.snaps = w, {}
        w.sim.end_hooks.append(self.end)

    def end(self, p):
        sp = getattr(p, 'user', None)
        if sp and sp.get('args'):
            self.snaps[p.pid] = dict((x, self.w.fs.get(x)) for x in
                                     [opt(sp['args'], n) for n in ('--store', '--json')] + sp.get('watch', []) if x)

    def result(self, run):
        return ()


# ------------------------------------------------------------------------------------ P12
def model_merge(d, u):
    for k, v in u.items():
        d[k] = model_merge(dict(d[k]) if isinstance(d.get(k), dict) else {}, v) if isinstance(v, dict) else v
    return d


def rand_dict(rng, depth):
    d = {}
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        k = rng.choice(['a', 'b', 'c', 1, 2, ('x', 1), ('x', ('y', 2)), None, 3.5])
        d[k] = rand_dict(rng, depth - 1) if depth and rng.random() < 0.5 else \
            rng.choice([0, 1, 2.5, 'v', None, [1, 2], (3,), True, 'w' * 3000, [], '', [{'a': 1}, {'b': 2}]])
    return d


def to_bytes(t):
    return H.as_bytes(H.file_text(t))


class P12(Prop):
    ID = 'P12'
    budget = {'quick': (1500, 50), 'thorough': (60000, 800)}
    rule = ('picklemerge of 1-4 stores with overlapping nested keys, undisturbed or hit by faults, alone or '
            'together with other merges and analyses writing the destination; result compared with a model')

    def observers(self, spec):
        return (StoreWatch,)

    def gen(self, rng, i, tier):
        spec = {'seed': i, 'policy': W.policy(rng), 'cfg': {'iaca': True}, 'files': base_files('copy'), 'phases': [],
                'gap': 1}
        n = rng.choice([1, 2, 2, 3, 4])
        for k in range(n + 1):
            d = rand_dict(rng, 3)
            if k and rng.random() < 0.1:
                data = pickle.dumps(d)[:-1] if rng.random() < 0.5 else pickle.dumps([1, 2])
            else:
                data = pickle.dumps(d, rng.choice([2, 4]))
            spec['files']['/work/s%d.pickle' % k] = {'t': ['hex', data.hex()]}
        src = ['s%d.pickle' % (k + 1) for k in range(n)]
        mode = rng.random()
        m = {'name': 'm0', 'module': 'kerncraft.picklemerge', 'args': ['s0.pickle'] + src}
        ph = [m]
        if mode < 0.45:
            m['faults'] = [random_fault(rng, rng.randrange(1, 35))]
        elif mode < 0.8:
            if rng.random() < 0.6:
                ph.append({'name': 'm1', 'module': 'kerncraft.picklemerge',
                           'args': ['s0.pickle'] + [rng.choice(src) for _ in range(rng.choice([1, 2]))]})
            else:
                sp = store_cli(rng, 'k', ['m.yml'], 'copy', 's0.pickle', ['LC', 'RooflineFLOP'])
                ph.append(sp)
                m['delay'] = round(rng.random() * rng.choice([0.001, 0.01, 0.05]), 4)
        if rng.random() < 0.25:
            # the same file by another name or from another directory
            spec['files']['/work/s0.pickle']['mode'] = rng.choice([0o600, 0o664, 0o640])
            spec['dirs'] = ['/work/sub']
            spec['links'] = {'/work/sub/l.pickle': rng.choice(['../s0.pickle', '/work/s0.pickle'])}
            for q in ph:
                if q['module'] == 'kerncraft.picklemerge' and rng.random() < 0.7:
                    q['args'][0] = rng.choice(['sub/l.pickle', '/work/s0.pickle', './sub/../s0.pickle', 'sub/l.pickle'])
                    if rng.random() < 0.3:
                        q['cwd'] = '/work/sub'
                        q['args'] = [{'sub/l.pickle': 'l.pickle'}.get(q['args'][0], '../s0.pickle')] + \
                            ['../' + x for x in q['args'][1:]]
        if len(ph) == 1 and rng.random() < 0.15:
            # a source twice, the destination itself, a source that does not exist
            m['args'].insert(rng.randrange(1, len(m['args']) + 1),
                             rng.choice([m['args'][-1], m['args'][0], 'no.pickle']))
        spec['phases'].append(ph)
        spec['phases'].append([{'name': 'm9', 'module': 'kerncraft.picklemerge', 'args': ['s0.pickle', src[-1]]}])
        return spec

    def judge(self, run):
        spec = run.spec
        files = dict((k, to_bytes(f['t'])) for k, f in spec['files'].items())

        def val(name):
            name = posixpath.normpath(posixpath.join('/work', name))
            name = run.spec.get('links', {}).get(name) and '/work/s0.pickle' or name
            return load_store(files[name]) if name in files else None
        cur = [canon(val('s0.pickle'))]
        vals = [val('s0.pickle')]
        for ph in run.phases:
            merges = [(sp, p) for sp, p in ph if sp.get('module') == 'kerncraft.picklemerge']
            others = [(sp, p) for sp, p in ph if sp.get('module') != 'kerncraft.picklemerge']
            steps = []
            for sp, p in merges:
                srcs = [val(posixpath.join(sp.get('cwd', '/work'), a)) for a in sp['args'][1:]]
                bad = any(x is None for x in srcs)
                o = outcome(p)
                if bad and o == ('exit', 0):
                    return [('accepted-garbage', '%s merges a damaged source' % p.name)]
                if not bad and o != ('exit', 0) and not sp.get('faults'):
                    return [('spurious-failure', '%s ends %r %s' % (p.name, o, (p.tb or stderr(p))[-200:]))]
                steps.append(((lambda d, srcs=srcs: [model_merge(d, x) for x in srcs] and d),
                              'must' if o == ('exit', 0) else 'no' if bad else 'may'))
            for sp, p in others:
                if outcome(p) == ('exit', 0):
                    _, _, f = H.lone_files(spec, 0, sp, ['/work/s0.pickle'])
                    add = load_store(f['/work/s0.pickle'])
                    steps.append(((lambda d, add=add: d.update(add) or d), 'must'))
            import itertools
            import copy
            new = []
            for perm in itertools.permutations(steps):
                for pick in itertools.product(*[[True] if w == 'must' else [False] if w == 'no' else [True, False]
                                                for _, w in perm]):
                    for v0 in vals:
                        d = copy.deepcopy(v0)
                        for (f, w), on in zip(perm, pick):
                            if on:
                                d = f(d)
                        new.append(d)
            vals = list(dict((canon(x), x) for x in new).values())
        got = load_store(run.w.fs.get('/work/s0.pickle'))
        if got is None:
            return [('store-damaged', 'the destination cannot be read')]
        if canon(got) not in [canon(x) for x in vals]:
            return [('merge-differs', 'destination is %s, expected %s' % (canon(got)[:300], canon(vals[0])[:300]))]
        if 'links' in spec:
            if not run.w.fs.islink('/work/sub/l.pickle'):
                return [('link-replaced', '/work/sub/l.pickle is no symbolic link any more')]
            n = run.w.fs.lookup('/work/s0.pickle')
            if n.mode & 0o777 != spec['files']['/work/s0.pickle']['mode']:
                return [('mode-changed', 'the destination has the mode %o' % (n.mode & 0o777))]
        for k in files:
            if k.startswith('/work/s') and not k.endswith('s0.pickle') and run.w.fs.get(k) != files[k]:
                return [('source-changed', k)]
        return []

    def nontrivial(self, run):
        h = hashlib.sha1()
        for st, pid, op, path, info in run.sim.log:
            if path and ('pickle' in path or op == 'FAULT'):
                h.update(('%d %s %s\n' % (pid, op, path)).encode())
        return h.hexdigest()
