import hashlib
import random

import core
import harness as H
import workload as W
from core import NS
from world import outcome, stdout, stderr, T0, DAY, PKG


class Prop(object):
    ID = None
    level = 'exploration'
    budget = {'quick': (400, 50), 'thorough': (20000, 800)}
    det_runs = 1
    shrink_s = 60
    progress = True
    rule = ''
    measure = 'hash of the sequence of (process, call, path) events on shared files'

    def prepare(self, tier):
        pass

    def warm(self):
        """Import the heavy third-party modules once, before forking."""
        fs = dict((p, {'t': t}) for p, t in W.MACHINES.items())
        fs['/work/k.c'] = {'t': ['kernel', 'copy']}
        for args in (['-m', 'm.yml', '-p', 'ECM', '-D', 'N', '200', 'k.c'],
                     ['-m', 'm.yml', '-p', 'LC', '-D', 'N', '200', 'k.c'],
                     ['-m', 'm.yml', '-p', 'Benchmark', '-D', 'N', '200', 'k.c']):
            try:
                H.execute({'seed': 0, 'files': fs, 'policy': {'kind': 'serial'}, 'cfg': {'iaca': True},
                           'phases': [[{'name': 'w', 'module': 'kerncraft.kerncraft', 'args': args}]]}
                          ).dispose()
            except core.HarnessError:
                pass

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def judge(self, run):
        return []

    def observers(self, spec):
        return ()

    def valid(self, spec):
        return True

    def nontrivial(self, run):
        """Key that tells executions apart, or None when the run exercised nothing."""
        if not any(f.get('name') for f in [{'name': 1}]):
            return None
        h = hashlib.sha1()
        for st, pid, op, path, info in run.sim.log:
            if path and ('_kerncraft' in path or op == 'FAULT'):
                h.update(('%d %s %s\n' % (pid, op, path)).encode('utf-8', 'replace'))
        return h.hexdigest()

    def count(self, run):
        return {}

    def sample(self, seed, tier):
        try:
            return self.gen(random.Random('%s/%s/%d' % (self.ID, seed, 0)), 0, tier)
        except Exception as e:  # noqa
            return {'error': repr(e)}

    def extra(self, tier, seed, secs, ok):
        return [], {}


def check_reports(run, need=None):
    """Every process that is not the target of a fault reports what it would alone; one that
    is and still ends successfully does so too."""
    v = []
    for ph, sp, p in run.cli():
        faulty = bool(sp.get('faults'))
        o = outcome(p)
        if faulty and o != ('exit', 0):
            continue
        if need is not None and not need(ph, sp, p):
            continue
        ref = H.reference(run.spec, ph, sp)
        if not H.same_report(p, ref):
            kind = 'wrong-report' if o == ('exit', 0) else 'spurious-failure'
            v.append((kind, '%s %s: %s' % (p.name, ' '.join(sp['args']), H.describe_diff(p, ref))))
    return v


# ---------------------------------------------------------------------- file-system history
import posixpath


class Recorder(object):
    """Records every state-changing or reading file-system event of a run."""

    def __init__(self, w, keep=None):
        self.w, self.ev, self.keep = w, [], keep
        self.dead = {}
        w.hooks.append(self.hook)

    def hook(self, p, op, path, inode, info):
        if path.startswith(PKG) or path.startswith('/sim/') or path.startswith('/proc') \
                or path.startswith('/sys/'):
            return
        self.ev.append((self.w.sim.step, p.pid, op, posixpath.normpath(path),
                        inode.ino if inode is not None else 0, info, p.orphan, p.in_program))

    def result(self, run):
        return ()


def in_cache(path):
    """Part of a directory of intermediates (not a lock file)?"""
    return '_kerncraft/' in path and not path.endswith('.lock')


def productions(rec):
    """Publications of intermediate files: [(path, pid, begin step, end step, how)].

    An intermediate comes into being either by being written under its final name or by being
    renamed onto it."""
    out, open_w, begun = [], {}, {}
    for step, pid, op, path, ino, info, orphan, prog in rec.ev:
        if op in ('create', 'truncate'):
            if in_cache(path):
                begun[ino] = (step, pid)
                open_w.setdefault((pid, ino), [path, step])
        elif op == 'write' and in_cache(path):
            open_w.setdefault((pid, ino), [path, step])
        elif op == 'close' and info:
            o = open_w.pop((pid, ino), None)
            if o:
                out.append([o[0], pid, o[1], step, 'write', ino, orphan])
        elif op == 'rename':
            src = ino
            if in_cache(path) or (isinstance(info, str) and in_cache(info)):
                b = begun.get(src, (step, pid))
                out.append([posixpath.normpath(info), pid, b[0], step, 'rename', src, orphan])
    return out


def finals(prods):
    """Drop temporaries: files that were later renamed to their final name."""
    moved = set()
    for path, pid, b, e, how, ino, orphan in prods:
        if how == 'rename':
            moved.add(ino)
    return [q for q in prods if q[4] == 'rename' or q[5] not in moved]


def leftovers(run):
    """Temporary files that remain although every run ended undisturbed."""
    if any(f.fired for _, _, q in run.cli() for f in q.faults) or any(
            not outcome(q) or outcome(q)[0] == 'killed' for _, _, q in run.cli()):
        return []
    left = [x[0] for x in run.w.fs.tree('/tmp')]
    return [('leftovers', 'temporary files remain: %s' % ', '.join(left[:4]))] if left else []
