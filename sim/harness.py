"""Run specifications, reference executions, and the comparison every property uses.

A run is described by plain JSON (the *spec*): files, phases of simulated processes, faults and
scheduling policy.  `execute(spec)` is a pure function of the spec and of the code in /repo.
"""
import copy
import gc
import hashlib
import json
import os

import sympy
import sympy.core.cache

import core
import tools
import vimport
import world
from core import NS, Sim, Fault
from world import World, T0, DAY, outcome, stdout, stderr

INPUT_AGE = 10 * DAY


def file_text(t):
    """Content of a file described in a spec."""
    k = t[0]
    if k == 'machine':
        return world.machine_yaml(**t[1])
    if k == 'kernel':
        return world.KERNELS[t[1]]
    if k == 'text':
        return t[1]
    if k == 'hex':
        return bytes.fromhex(t[1])
    if k == 'exe':
        return tools.EXE + json.dumps(dict(t[2] if len(t) > 2 else {}, d=tools.digest(t[1]))).encode() + b'\n' + b'.' * 600 + b'\nEND\n'
    if k == 'template':
        return bare_machine(**t[1])
    raise ValueError(t)


def bare_machine(**kw):
    """A machine file as a user has it before benchmarking (no benchmarks section)."""
    return world.machine_yaml(**dict(kw, bench=False)) + 'benchmarks: INFORMATION_REQUIRED\n'


def as_bytes(x):
    return x.encode() if isinstance(x, str) else x


class Run(object):
    def __init__(self, spec, sim, w, phases):
        self.spec, self.sim, self.w, self.phases = spec, sim, w, phases
        self.procs = {}
        for ph in phases:
            for sp, p in ph:
                self.procs[p.name] = (sp, p)

    def dispose(self):
        """Free the run's Python modules and file system (they would pile up otherwise)."""
        for p in self.sim.procs:
            b = getattr(p, 'box', None)
            if b is not None:
                b.dispose()
            p.main, p.wait = None, None
        vimport.switch_modules(core.Proc(self.sim, -1, '', None))
        self.obs = []

    def cli(self):
        for i, ph in enumerate(self.phases):
            for sp, p in ph:
                if sp.get('kind', 'cli') == 'cli':
                    yield i, sp, p


def put_files(w, files):
    for path in sorted(files):
        f = files[path]
        w.fs.put(path, as_bytes(file_text(f['t'])), mtime=T0 - f.get('age', INPUT_AGE),
                 mode=f.get('mode', 0o644))


def execute(spec, observers=(), switches=None):
    """Run one spec in a fresh simulated world."""
    sw = switches if switches is not None else spec.get('switches')
    sympy.core.cache.clear_cache()      # what expressions share must not depend on earlier executions
    sim = Sim(spec['seed'], policy=spec.get('policy'), switches=sw,
              max_steps=spec.get('max_steps', 20000), dt=tuple(spec['dt']) if spec.get('dt') else None,
              start_ns=T0 + spec.get('t_off', 0))
    w = World(sim, gran=spec.get('gran', 1), cfg=spec.get('cfg'))
    real = spec.get('real', {})         # files that are reached by symbolic links: path -> actual place
    put_files(w, dict((real.get(k, k), f) for k, f in spec.get('files', {}).items()))
    for path, target in sorted(real.items()):
        w.fs.link(path, target)
    for path, target in sorted(spec.get('links', {}).items()):
        w.fs.link(path, target)
    if spec.get('nolock'):
        w.fs.nolock_prefixes = list(spec['nolock'])
    for d in spec.get('dirs', ()):
        w.fs.mkdirs(d)
    obs = [o(w) for o in observers]
    phases, prev = [], []
    for k, ph in enumerate(spec['phases']):
        cur = []
        for sp in ph:
            kind = sp.get('kind', 'cli')
            delay = int(sp.get('delay', 0) * NS) + (int(spec.get('gap', 2) * NS) if k else 0)
            after = [p.pid for _, p in prev]
            if kind == 'edit':
                p = w.editor(sp['name'], [tuple(a) if a[0] != 'put' else
                                          ('put', a[1], file_text(a[2])) for a in sp['actions']],
                             start_after=after, delay=delay)
            elif kind == 'py':
                p = w.python(sp['name'], sp.get('argv', ['python']), ENTRIES[sp['entry']](sp),
                             cwd=sp.get('cwd', '/work'), env=sp.get('env'),
                             faults=[Fault.from_json(dict(f, pid=0)) for f in sp.get('faults', ())],
                             start_after=after, delay=delay)
            else:
                p = w.cli(sp['name'], sp['module'], sp['args'], cwd=sp.get('cwd', '/work'),
                          env=sp.get('env'), stdin=sp.get('stdin'),
                          faults=[Fault.from_json(dict(f, pid=0)) for f in sp.get('faults', ())],
                          start_after=after, delay=delay)
            p.user = sp
            cur.append((sp, p))
        phases.append(cur)
        if cur:
            prev = cur
    sim.run()
    r = Run(spec, sim, w, phases)
    r.obs = obs
    r.inputs0 = dict((k, as_bytes(file_text(f['t']))) for k, f in spec.get('files', {}).items())
    return r


ENTRIES = {}     # name -> function(spec step) -> entry(box)


# ---------------------------------------------------------------------- reference runs
class Ref(object):
    """What a configuration reports when it is the only thing that ever ran."""
    __slots__ = ('status', 'out', 'err', 'count', 'steps', 'files', 'tb', 'seconds')

    def key(self):
        return (self.status, self.out)


_refs = {}
ref_runs = [0]


def files_at(spec, phase):
    """Input files as they are when *phase* starts (edits of earlier phases applied)."""
    files = dict(spec.get('files', {}))
    cv = dict((spec.get('cfg') or {}).get('compiler_version', {}))
    for ph in spec['phases'][:phase]:
        for sp in ph:
            if sp.get('kind') != 'edit':
                continue
            for a in sp['actions']:
                if a[0] == 'put':
                    files[a[1]] = {'t': a[2]}
                elif a[0] == 'rm':
                    files.pop(a[1], None)
                elif a[0] == 'mv':
                    if a[1] in files:
                        files[a[2]] = files.pop(a[1])
                elif a[0] == 'compiler':
                    cv[a[1]] = a[2]
    return files, cv


def reference(spec, phase, sp, drop=('--store', '--json', '--clean-intermediates')):
    files, cv = files_at(spec, phase)
    args = list(sp['args'])
    out = []
    it = iter(args)
    for a in it:
        if a in ('--store', '--json') and a in drop:
            next(it)
            continue
        if a in drop:
            continue
        out.append(a)
    cfg = dict(spec.get('cfg') or {})
    if cv:
        cfg['compiler_version'] = cv
    files = dict((k, {'t': v['t'], 'mode': v.get('mode', 0o644)}) for k, v in files.items())
    q = {'seed': 0, 'policy': {'kind': 'serial'}, 'cfg': cfg, 'files': files,
         'dirs': spec.get('dirs', ()), 'max_steps': 20000,
         'phases': [[{'name': 'ref', 'module': sp['module'], 'args': out, 'cwd': sp.get('cwd', '/work'),
                      'env': sp.get('env'), 'stdin': sp.get('stdin')}]]}
    key = hashlib.sha1(json.dumps(q, sort_keys=True).encode()).hexdigest()
    r = _refs.get(key)
    if r is None:
        ref_runs[0] += 1
        run = execute(q)
        p = run.phases[0][0][1]
        r = Ref()
        r.status, r.out, r.err, r.count = outcome(p), stdout(p), stderr(p), p.count
        r.steps = run.sim.step
        r.seconds = (run.sim.now - run.sim.t0) / 1e9
        r.tb = p.tb
        run.dispose()
        if len(_refs) > 3000:
            _refs.clear()
        _refs[key] = r
    return r


_lone = {}


def lone_files(spec, phase, sp, paths, drop=('--clean-intermediates',)):
    """Content of *paths* after a lone cold run of a process (they do not exist before)."""
    files, cv = files_at(spec, phase)
    files = dict((k, {'t': v['t'], 'mode': v.get('mode', 0o644)}) for k, v in files.items() if k not in paths)
    q = {'seed': 0, 'policy': {'kind': 'serial'}, 'cfg': spec.get('cfg'), 'files': files,
         'dirs': spec.get('dirs', ()),
         'phases': [[{'name': 'ref', 'module': sp['module'], 'args': [a for a in sp['args'] if a not in drop],
                      'cwd': sp.get('cwd', '/work'), 'env': sp.get('env'), 'stdin': sp.get('stdin')}]]}
    key = hashlib.sha1(json.dumps([q, paths], sort_keys=True).encode()).hexdigest()
    if key not in _lone:
        ref_runs[0] += 1
        run = execute(q)
        p = run.phases[0][0][1]
        _lone[key] = (outcome(p), stdout(p), dict((x, run.w.fs.get(x)) for x in paths))
        run.dispose()
    return _lone[key]


def same_report(p, ref):
    return outcome(p) == ref.status and stdout(p) == ref.out


def describe_diff(p, ref):
    o = outcome(p)
    if o != ref.status:
        tail = (p.tb or stderr(p)).strip().split('\n')[-1][-200:]
        return 'ended with %r (%s), alone it ends with %r' % (o, tail, ref.status)
    a, b = stdout(p).split('\n'), ref.out.split('\n')
    for x, y in zip(a, b):
        if x != y:
            return 'reported %r, alone it reports %r' % (x[:160], y[:160])
    return 'printed %d lines, alone it prints %d' % (len(a), len(b))


def progress_violation(run):
    """Deadlock or no termination, whatever the property."""
    if run.sim.deadlock:
        return ('deadlock', 'blocked for ever: %r' % (run.sim.deadlock,))
    if run.sim.stuck:
        return ('no-progress', '%s computes without end' % run.sim.stuck)
    if run.sim.limit_hit:
        live = [p.name for p in run.sim.procs if p.result and p.result[0] in ('limit', 'killed')]
        return ('no-progress', 'not finished after %d steps: %r' % (run.sim.step, live))
    return None
