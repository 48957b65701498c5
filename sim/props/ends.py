"""How runs end: with a result or with the reason why there is none."""
import re

from .base import *
from . import bench, cache, machine, misc, results

EXPECT = {'enospc': 28, 'eio_w': 5, 'eio_r': 5, 'enolck': 37, 'emfile': 24, 'erofs_ren': 5}
# exceptions that stand for mistakes in the program, not for a reason
INTERNAL = ('AttributeError', 'NameError', 'UnboundLocalError', 'TypeError', 'IndexError', 'KeyError',
            'ImportError', 'ModuleNotFoundError', 'RecursionError', 'StopIteration')
SYSTEM = ('OSError', 'FileNotFoundError', 'PermissionError', 'IsADirectoryError', 'CalledProcessError')


# reasons why an undisturbed run may end without a result: given settings the analyses cannot handle
REASONS = ('zero-size array', 'Not all constants', 'Number of multiplications', 'Unable to split')
ANALYSES = ('P03', 'P06', 'P09', 'P11', 'P15', 'P16', 'P17', 'P22', 'P23')


def needless(run, sp, p, o):
    """Did a run fail although nothing is in its way?"""
    a, src = sp['args'], run.spec['src']
    if src not in ANALYSES or run.spec.get('cfg', {}).get('no_tools') or o == ('exit', 0):
        return False
    if sp.get('module', 'kerncraft.kerncraft') != 'kerncraft.kerncraft' or 'Benchmark' in a:
        return False            # the machine may differ from the described one
    if any(f.fired for _, _, q in run.cli() for f in q.faults):
        return False
    text = str(o) + stderr(p) + stdout(p)
    if any(x in text for x in REASONS):
        return False
    if '--asm-block=7' in a or 'auto' in [y for x, y in zip(a, a[1:]) if x == '--pointer-increment'] and src == 'P15':
        return False
    return True


class P20(Prop):
    ID = 'P20'
    budget = {'quick': (900, 60), 'thorough': (40000, 840)}
    rule = ('workloads of the other checks (analyses, benchmarks, stores, merges, machine files, installations), '
            'most with a fault at some system call, a failing or a missing program; the way every process ends is '
            'compared with what was injected')
    SOURCES = [(cache.P03, 6), (results.P09, 3), (results.P12, 2), (machine.P14, 2), (misc.P18, 2), (bench.P16, 2),
               (bench.P19, 2), (cache.P22, 2), (cache.P08, 1), (misc.P15, 1), (cache.P23, 1), (cache.P06, 3), (results.P11, 2), (bench.P17, 1)]

    def gen(self, rng, i, tier):
        names = [c for c, n in self.SOURCES for _ in range(n)]
        c = rng.choice(names)
        spec = c().gen(rng, i, tier)
        spec['src'] = c.ID
        cli = [sp for ph in spec['phases'] for sp in ph if sp.get('kind', 'cli') == 'cli']
        if not any(sp.get('faults') for sp in cli) and rng.random() < 0.7:
            sp = rng.choice(cli)
            f = cache.random_fault(rng, 1 + int(rng.choice([40, 150, 400]) * rng.random()))
            if f['kind'] in ('kill', 'okill'):
                f['kind'] = 'int'
                f.pop('arg', None)
            sp['faults'] = [f]
        if c not in (misc.P18, results.P12) and rng.random() < 0.08:
            spec.setdefault('cfg', {})['no_tools'] = rng.choice(
                [['gcc'], ['clang'], ['gcc', 'clang'], ['likwid-perfctr'], ['likwid-bench'], ['likwid-topology'],
                 ['llvm-mca']])
        return spec

    def judge(self, run):
        v = []
        for ph, sp, p in run.cli():
            o = outcome(p)
            if not o or o[0] in ('killed', 'limit'):
                continue
            fired = set(f.kind for f in p.faults if f.fired) - {'stall', 'short'}
            if 'kill' in fired or 'okill' in fired:
                continue
            if needless(run, sp, p, o):
                v.append(('needless-failure', '%s %s ends with %r: %s' % (
                    p.name, ' '.join(sp['args'])[:200], o, (p.tb or stderr(p)).strip()[-300:])))
            what = '%s %s, hit by %s, ' % (p.name, ' '.join(sp['args'])[:200], sorted(fired) or 'nothing')
            if o[0] == 'exit':
                if o[1] not in (0, None) and not (stderr(p).strip() or stdout(p).strip()):
                    v.append(('silent-failure', what + 'ends with status %r and says nothing' % (o[1],)))
                continue
            kind, text = o[1], str(o[2]) if len(o) > 2 else ''
            tail = '%s: %s; %s' % (kind, text[:150], (p.tb or '').strip()[-300:])
            if kind == 'KeyboardInterrupt':
                if 'int' not in fired:
                    v.append(('wrong-reason', what + 'ends with KeyboardInterrupt'))
                continue
            if kind == 'CalledProcessError' and fired & {'cc_fail', 'cc_die'}:
                continue
            m = re.search(r'\[Errno (\d+)\]', text)
            if m and int(m.group(1)) in [EXPECT.get(k) for k in fired]:
                continue
            if run.spec['src'] == 'P12' and kind in ('AssertionError', 'UnpicklingError', 'EOFError'):
                continue            # unsuitable sources
            if 'net' in fired and kind in ('URLError', 'HTTPError', 'ConnectionResetError', 'BadZipFile'):
                continue
            if kind not in INTERNAL + SYSTEM and not fired:
                continue            # whatever else it is: an undisturbed run says it
            if run.spec.get('cfg', {}).get('no_tools') and kind in ('FileNotFoundError', 'OSError'):
                continue
            if kind == 'FileNotFoundError' and 'temporary directory' in text and fired:
                continue
            if not fired and run.spec['src'] == 'P14' and any(
                    q is not p and outcome(q) != ('exit', 0) for _, _, q in run.cli()):
                continue            # continues an incomplete file
            # is that how it ends when nothing at all happens?
            ref = None if not fired else \
                H.reference(run.spec, ph, sp, drop=())
            if ref and ref.status[:2] == o[:2]:
                continue
            v.append(('internal-error' if kind in INTERNAL else 'wrong-reason', what + 'ends with ' + tail))
        return v

    def count(self, run):
        return {'from ' + run.spec['src']: 1}
