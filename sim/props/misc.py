"""Remembered pointer increments, installation of IACA, reproducibility of reports."""
import json
import os
import re
import subprocess
import sys
import tempfile
import time

from .base import *

from .cache import base_files
from .results import flat, canon, load_store
import tools
import world

CACHE = '/home/sim/.kerncraft/increment_cache'
LINE = re.compile(r'^([0-9a-f]{32})\s+(-?\d+)(?:\s.*)?$')


class Marks(object):
    """Marked assembly every process left behind, and the cache file after every process."""

    def __init__(self, w):
        self.w, self.marks, self.cache = w, {}, {}
        self.blocks, self.clash = {}, None
        w.sim.end_hooks.append(self.end)
        w.hooks.append(self.hook)

    def hook(self, p, op, path, inode, info):
        if op in ('rename', 'close'):
            for q in (path, info if op == 'rename' else None):
                if isinstance(q, str) and 'kernel-marked' in q and q.endswith('.s'):
                    text = bytes(self.w.fs.get(q) or b'')
                    m = re.search(br'pointer_increment=(\S+) ([0-9a-f]{32})', text)
                    b = re.search(br'OSACA START MARKER(.*?)\n[^\n]*OSACA END MARKER', text, re.S)
                    if b and m:
                        b = re.sub(br'pointer_increment=\S+ [0-9a-f]{32}', b'', b.group(1))
                        if self.blocks.setdefault(m.group(2), b) != b:
                            self.clash = m.group(2).decode()
                    if m:
                        # the last one a process has written or read is the one it uses
                        self.marks.setdefault(p.pid, {})[q] = (m.group(1).decode(), m.group(2).decode())

    def end(self, p):
        self.cache[p.pid] = bytes(self.w.fs.get(CACHE) or b'')

    def result(self, run):
        return ()


class P15(Prop):
    ID = 'P15'
    budget = {'quick': (700, 40), 'thorough': (30000, 800)}
    rule = ('2-6 runs of kernels whose stride cannot be detected, started concurrently or after each other, the user '
            'typing different increments, with kills and I/O errors; increments used compared with those typed')
    measure = 'distinct sequences of typed, stored and used increments'

    def observers(self, spec):
        return (Marks,)

    def gen(self, rng, i, tier):
        kern = rng.choice(['copy', 'scale', 'triad', 'sum'])
        other = rng.choice(['copy', 'scale', 'triad', 'sum', kern])
        files = base_files(kern)
        files['/work/d/k.c'] = {'t': ['kernel', kern]}
        files['/work/o.c'] = {'t': ['kernel', other]}
        spec = {'seed': i, 'policy': W.policy(rng), 'cfg': {'iaca': True}, 'gap': 1, 'files': files, 'phases': []}
        r = rng.random()
        if r < 0.35:
            t = rng.choice(['', '# strides\n', '\n\n', 'no such line\n', '0' * 32 + ' x\n', 'f' * 32 + '\n'])
            t += rng.choice(['', 'a' * 32 + ' 16\n', 'b' * 32 + ' 24 #<comment>\n', 'c' * 32 + ' 40', 'd' * 32 + ' 48 # c'])
            files[CACHE] = {'t': ['text', t]}
        n = rng.choice([2, 2, 3, 3, 4, 5])
        vals = rng.sample([8, 16, 24, 32, 40, 64, 80, 96, 128, 160, 256, 512, 1024, 2048], n)
        vals = [v if rng.random() < 0.8 else -v for v in vals]
        ps = []
        for j in range(n):
            k = rng.choice(['k.c', 'k.c', 'd/k.c', 'd/k.c', 'o.c'])
            o = rng.choice(['auto_with_manual_fallback'] * 6 + ['auto', 'manual'])
            kn = {'o.c': other}.get(k, kern)
            a = ['-m', rng.choice(['m.yml', 'm.yml', 'n.yml']), '-p', rng.choice(['ECMCPU', 'ECMCPU', 'ECM', 'RooflineASM'])]
            a += W.consts(kn, rng, 400) + ['--pointer-increment', o, '--compiler-flags=-O3 -mstride' + rng.choice(['', '', '', 'r10', 'r11']) +
                  (' -mvary' + rng.choice(['disp8', 'disp640', 'disp-32', 'op', 'base', 'reg']) if rng.random() < 0.3 else '')]
            if rng.random() < 0.15:
                a += ['-C', 'clang']
            ps.append({'name': 'p%d' % j, 'module': 'kerncraft.kerncraft', 'args': a + [k],
                       'stdin': (rng.choice(['', '', 'x\n', '\n']) if o != 'manual' else '') + '%d\n' % vals[j], 'typed': vals[j]})
        k = 0
        while k < n:
            m = rng.choice([1, 1, 2, 3])
            ph = ps[k:k + m]
            for p in ph[1:]:
                if rng.random() < 0.5:
                    p['delay'] = round(rng.random() * 0.8, 3)
            spec['phases'].append(ph)
            k += m
        if rng.random() < 0.35:
            # entries of blocks whose hashes look nearly the same, or of the very same block
            h = self.asks(spec, rng.choice(ps))
            if h:
                flip = lambda k: h[:k] + '%x' % (int(h[k], 16) ^ rng.randrange(1, 16)) + h[k + 1:]
                t = files.get(CACHE, {'t': ['text', '']})['t'][1]
                if t and not t.endswith('\n'):
                    t += '\n'
                for _ in range(rng.choice([1, 2])):
                    t += rng.choice([
                        '%s 56\n' % flip(31), '%s 56\n' % flip(0), '%s 56\n' % flip(rng.randrange(32)), '%s 56\n' % h[::-1],
                        '%s 56 #%s 72\n' % (flip(2), h), '%s 56 # %s\n' % ('e' * 32, h), '#%s 56\n' % h, '%s 56\n' % h.upper()
                        if h.upper() != h else '', '%s 56 88\n' % h, '%s -56 #x\n' % h, '%s 56\n' % h])
                files[CACHE] = {'t': ['text', t]}
        if rng.random() < 0.6:
            v = rng.choice(ps)
            c = self.steps(spec, v)
            f = {'at': 0, 'kind': rng.choice(['kill', 'kill', 'int', 'enospc', 'enospc', 'eio_w', 'short', 'erofs_ren', 'stall'])}
            w = c if rng.random() < 0.7 else None
            f['at'] = max(1, w + rng.randrange(-1, 9)) if w else rng.randrange(1, 160)
            if f['kind'] == 'kill':
                f['arg'] = rng.choice([0, 0, 0.2, 0.29, 0.3, 0.31, 0.5])
            elif f['kind'] in ('enospc', 'eio_w'):
                f['arg'] = rng.choice([0, 33, 34, 35, 36, 40])
            elif f['kind'] == 'short':
                f['arg'] = rng.choice([1, 34, 35])
            elif f['kind'] == 'stall':
                f['arg'] = 0
            v['faults'] = [f]
        return spec

    def asks(self, spec, sp):
        """Hash of the block the increment of which is asked for."""
        files = dict((k, v) for k, v in spec['files'].items() if k != CACHE)
        m = re.search(r'^hash:  ([0-9a-f]{32})$', H.reference(dict(spec, files=files, phases=[[sp]]), 0, sp).out, re.M)
        return m and m.group(1)

    def steps(self, spec, sp):
        """System call at which a lone run starts to store what was typed."""
        files = dict((k, v) for k, v in spec['files'].items() if k != CACHE)
        key = repr((sorted(files.items()), sp['args']))
        if key not in self._steps:
            q = {'seed': 0, 'policy': {'kind': 'serial'}, 'cfg': spec['cfg'], 'files': files,
                 'phases': [[dict(sp, faults=[], delay=0)]]}
            hit = []

            class Watch(object):
                def __init__(self, w):
                    w.hooks.append(self.hook)

                def hook(self, p, op, path, inode, info):
                    if 'increment_cache' in path and op in ('create', 'write') and not hit:
                        hit.append(p.count)
            run = H.execute(q, observers=(Watch,))
            run.dispose()
            self._steps[key] = hit[0] if hit else None
        return self._steps[key]

    _steps = {}

    def judge(self, run):
        obs = run.obs[0]
        if obs.clash:
            return [('same-name', 'two different blocks are both known as %s' % obs.clash)]
        entries = {}                    # hash -> values that may be remembered
        sure = {}                       # hash -> values certainly stored in earlier phases
        t0 = bytes(run.inputs0.get(CACHE, b'')).decode()
        given = []
        for l in t0.split('\n'):
            m = LINE.match(l)
            if m:
                given.append((m.group(1), m.group(2)))
        asked = {}
        for h, v in given:
            entries.setdefault(h, set()).add(v)
            sure.setdefault(h, set()).add(v)
        for ph, sp, p in run.cli():
            asked[p.name] = re.findall(r'^hash:  ([0-9a-f]{32})$', stdout(p), re.M)
            for h in asked[p.name]:
                entries.setdefault(h, set()).add(str(sp['typed']))
        last = None
        for ph, sp, p in run.cli():
            if ph != last:
                sure_now, last = dict((h, set(v)) for h, v in sure.items()), ph
            who = '%s (%s)' % (p.name, ' '.join(sp['args']))
            o = outcome(p)
            fired = any(f.fired for f in p.faults)
            auto = sp['args'][sp['args'].index('--pointer-increment') + 1]
            for path, (inc, h) in sorted(obs.marks.get(p.pid, {}).items()):
                if h in asked[p.name]:
                    if inc != str(sp['typed']):
                        return [('not-as-typed', '%s uses %s for %s, the user typed %s' % (who, inc, h, sp['typed']))]
                elif inc not in entries.get(h, ()):
                    return [('wrong-increment', '%s uses %s for block %s; ever typed for it: %s' % (
                        who, inc, h, sorted(entries.get(h, ())) or 'nothing'))]
                if h in sure_now and inc not in sure_now[h] and auto != 'manual' and \
                        inc not in entries.get(h, ()):
                    return [('forgotten', '%s uses %s for %s' % (who, inc, h))]
            for h in asked[p.name]:
                if auto != 'manual' and h in sure_now:
                    return [('asked-again', '%s asks for block %s, which is stored as %s' % (
                        who, h, sorted(sure_now[h])))]
            if o != ('exit', 0) and not fired:
                m = re.search(r'increment_cache:\s+([0-9a-f]{32})', stdout(p) + stderr(p) + str(o[-1]))
                if auto == 'auto' and m:
                    if m.group(1) in sure_now:
                        return [('forgotten', '%s does not find %s' % (who, m.group(1)))]
                    continue
                return [('failed', '%s ends %r: %s' % (who, o, (p.tb or stderr(p))[-300:]))]
            if o == ('exit', 0):
                for h in asked[p.name]:
                    sure.setdefault(h, set()).add(str(sp['typed']))
        end = bytes(run.w.fs.get(CACHE) or b'').decode('utf-8', 'replace')
        lines = [m.groups() for m in map(LINE.match, end.split('\n')) if m]
        for h, vs in sure.items():
            for v in vs:
                if (h, v) not in lines:
                    return [('entry-lost', 'the user typed %s for %s, which is not in %r' % (v, h, end[-300:]))]
        for h, v in given:
            if (h, v) not in lines:
                return [('entry-lost', '%s %s was in the file before, now %r' % (h, v, end[-300:]))]
        for h, v in lines:
            if (h, v) not in given and v not in entries.get(h, ()):
                return [('wrong-entry', '%s %s is in the file, typed was %s' % (h, v, sorted(entries.get(h, ()))))]
        return []

    def nontrivial(self, run):
        obs = run.obs[0]
        h = [(p.name, outcome(p)[0], sorted(obs.marks.get(p.pid, {}).items()), hashlib.sha1(obs.cache.get(p.pid, b'')).hexdigest())
             for _, _, p in run.cli()]
        return hashlib.sha1(repr(h).encode()).hexdigest() if any(x[2] for x in h) else None

    def count(self, run):
        return {'prompts': sum(len(re.findall(r'^hash:  ', stdout(p), re.M)) for _, _, p in run.cli()),
                'marked_blocks': sum(map(len, run.obs[0].marks.values()))}


# ---- installation of IACA ------------------------------------------------------------------
LICENCE = '--I-accept-the-Intel-What-If-Pre-Release-License-Agreement-and-please-take-my-soul'
PLACES = ('/home/sim/.kerncraft/iaca/lin64', PKG + '/iaca/lin64')
USED = ('iaca2.2', 'iaca2.3', 'iaca3.0')


class Installations(object):
    """After every call: does any place hold something that is taken for an installation?"""

    def __init__(self, w):
        self.w, self.bad, self.old, self.checks = w, [], {}, 0
        self.state, self.order = {}, []
        w.hooks.append(self.hook)
        w.sim.end_hooks.append(self.end)

    def start(self):
        for b in PLACES:
            if self.taken(b):
                self.old[b] = self.used(b)

    def exists(self, path):
        try:
            return self.w.fs.lookup(path) is not None
        except OSError:
            return False

    def taken(self, b):
        return all(self.exists(b + '/bin/' + u) for u in USED)

    def used(self, b):
        r = []
        for u in USED:
            n = self.w.fs.lookup(b + '/bin/' + u)
            r.append((bytes(n.data), n.mode & 0o111 == 0o111) if n.kind == 'f' else None)
        return r

    def complete(self, b):
        """None or what is missing."""
        if b in self.old and self.used(b) == self.old[b]:
            return None
        for v in ('2.1', '2.2', '2.3', '3.0'):
            for name, text in world.iaca_files(v, 'lin64').items():
                if not name.startswith('iaca-lin64/') or '/.' in name:
                    continue
                f = '%s/v%s/%s' % (b, v, name[len('iaca-lin64/'):])
                try:
                    n = self.w.fs.lookup(f)
                except OSError:
                    n = None
                if n is None or n.kind != 'f':
                    return f + ' is missing'
                if name.endswith('.sh'):
                    text = text.replace('realpath', 'readlink -f', 1).replace('`pwd`', '`dirname $0`').replace(
                        'path=$(cd "$(dirname "$0")"; pwd)', 'script=`readlink -f $0`\n\tpath=`dirname "$script"`')
                if bytes(n.data) != text.encode():
                    return '%s is %r' % (f, bytes(n.data)[:80])
                if name.rpartition('/')[2] in ('iaca', 'iaca.sh') and n.mode & 0o111 != 0o111:
                    return f + ' is not executable'
        for u in USED + ('iaca2.1',):
            v = u[4:]
            t = '%s/v%s/%s' % (b, v, 'iaca' if v == '3.0' else 'bin/iaca.sh')
            try:
                if self.w.fs.lookup(b + '/bin/' + u) is not self.w.fs.lookup(t):
                    return b + '/bin/' + u + ' is not ' + t
            except OSError:
                return b + '/bin/' + u + ' is missing'
        return None

    def hook(self, p, op, path, inode, info):
        if '/iaca/' in path and op not in ('open', 'read') and not self.bad:
            for b in PLACES:
                if self.taken(b):
                    self.checks += 1
                    c = self.complete(b)
                    if c:
                        self.bad.append('after %s %s of %s: %s' % (op, path, p.name, c))

    def end(self, p):
        self.order.append(p.pid)
        self.state[p.pid] = [(b, self.taken(b), self.complete(b) if self.taken(b) else None,
                              self.taken(b) and b in self.old and self.used(b) == self.old[b]) for b in PLACES]

    def result(self, run):
        return ()


class P18(Prop):
    ID = 'P18'
    budget = {'quick': (700, 35), 'thorough': (30000, 600)}
    rule = ('1-4 calls of iaca_get, alone or two at a time, with and without --force, on empty, installed or damaged '
            'locations, with kills, I/O errors and failing or truncated downloads; the installation compared with the '
            'archives after every call')
    measure = 'distinct (fault, position, resulting states) sequences'

    def observers(self, spec):
        def make(w):
            o = Installations(w)
            o.start()
            return o
        return (make,)

    def gen(self, rng, i, tier):
        files = dict((p, {'t': t}) for p, t in W.MACHINES.items())
        files['/work/k.c'] = {'t': ['kernel', 'copy']}
        cfg = {'iaca_archives': True}
        if rng.random() < 0.3:
            cfg['pkg_writable'] = True
        if rng.random() < 0.5:
            cfg['ro_errno'] = 13
        r = rng.random()
        left = None
        if r < 0.25:
            cfg['iaca'] = True
        elif r < 0.45:
            left = rng.choice(PLACES) if cfg.get('pkg_writable') else PLACES[0]
            have = ['/bin/iaca2.2', '/bin/iaca2.3', '/bin/iaca3.0']
            del have[rng.randrange(3)]      # at least one of those required is missing
            for f in rng.sample(have + ['/bin/iaca2.1', '/v2.1/bin/iaca', '/v2.2/bin/iaca.sh'], rng.choice([1, 2, 3, 4])):
                files[left + f] = {'t': ['text', rng.choice(['', '#!sim iaca\n'])], 'mode': rng.choice([0o644, 0o755])}
        spec = {'seed': i, 'policy': W.policy(rng), 'cfg': cfg, 'gap': 1, 'files': files, 'phases': []}
        for k in range(rng.choice([1, 1, 2, 2, 3])):
            ph = []
            for j in range(2 if rng.random() < 0.2 else 1):
                a = [LICENCE]
                if rng.random() < 0.4:
                    a.insert(rng.choice([0, 1]), '--force')
                if rng.random() < 0.06:
                    a.remove(LICENCE)
                p = {'name': 'i%d%d' % (k, j), 'module': 'kerncraft.iaca_get', 'args': a}
                if j and rng.random() < 0.7:
                    p['delay'] = round(rng.random() * 6, 3)
                if rng.random() < 0.75:
                    kind = rng.choice(['kill', 'kill', 'kill', 'int', 'enospc', 'eio_w', 'short', 'net', 'net', 'erofs_ren',
                                       'emfile'])
                    f = {'at': rng.randrange(1, 330), 'kind': kind}
                    if kind == 'net':
                        f.update(at=rng.randrange(1, 260), arg=rng.choice([0, 1, 0.3, 0.7, 0.97, 0.999]))
                    elif kind == 'erofs_ren':
                        f['at'] = rng.randrange(200, 400)
                    elif kind == 'kill':
                        f['arg'] = rng.choice([0, 0, 0.5])
                    elif kind in ('enospc', 'eio_w', 'short'):
                        f['arg'] = rng.choice([1, 20, 60])
                    p['faults'] = [f]
                ph.append(p)
            spec['phases'].append(ph)
        last = {'name': 'last', 'module': 'kerncraft.iaca_get', 'args': [LICENCE]}
        if left or rng.random() < 0.2:
            last['args'].append('--force')
        spec['phases'].append([last])
        if rng.random() < 0.4:
            spec['phases'].append([{'name': 'use', 'module': 'kerncraft.kerncraft', 'args': [
                '-m', 'm.yml', '-p', 'ECMCPU', '-D', 'N', '400', '-i', 'IACA', 'k.c']}])
        return spec

    def judge(self, run):
        obs = run.obs[0]
        if obs.bad:
            return [('incomplete-installation', obs.bad[0])]
        spec = run.spec
        left = [b for b in PLACES if any(f.startswith(b) for f in spec['files'])]
        open_places = [b for b in PLACES if b == PLACES[0] or spec['cfg'].get('pkg_writable')]
        before = [(b, b in obs.old, None, b in obs.old) for b in PLACES]
        for k, ph in enumerate(run.phases):
            good = 0
            for sp, p in ph:
                if sp['module'] != 'kerncraft.iaca_get':
                    if outcome(p) != ('exit', 0):
                        return [('unusable', '%s: %r %s' % (p.name, outcome(p), (p.tb or stderr(p))[-300:]))]
                    continue
                o, st = outcome(p), obs.state[p.pid]
                force, fired = '--force' in sp['args'], any(f.fired for f in p.faults)
                had = [b for b, t, _, _ in before if t]
                who = '%s (%s)' % (p.name, ' '.join(x[:10] for x in sp['args']))
                if o == ('exit', 0):
                    good += 1
                    if not any(t for _, t, _, _ in st) and len(ph) == 1:
                        return [('not-installed', who + ' succeeded without an installation')]
                if len(ph) > 1:
                    continue
                if LICENCE not in sp['args']:
                    if o == ('exit', 0) and (force or not had):
                        return [('no-licence', who + ' succeeded')]
                    if st != before:
                        return [('changed', who + ' has changed the installation')]
                elif o == ('exit', 0) and force and st[PLACES.index(had[0] if had else PLACES[0])][3]:
                    return [('not-replaced', who + ' kept the old installation')]
                elif o != ('exit', 0) and not fired:
                    if not had and not force and all(b in left for b in open_places):
                        continue        # damaged ones are not replaced without --force
                    return [('failed', '%s ends %r: %s' % (who, o, (p.tb or stderr(p))[-400:]))]
                if not force and had and [x for x in before if x[1]] != [x for x in st if x[1] and x[0] in had]:
                    return [('changed', '%s: %r, %r before' % (who, st, before))]
                if fired and had and o[0] not in ('killed', 'exit') and not any(
                        f.kind == 'erofs_ren' or f.kind == 'int' for f in p.faults) and not any(x[1] for x in st):
                    return [('lost', who + ' failed and left no installation')]
            if len(ph) > 1 and good and not any(obs.taken(b) for b in PLACES) and k == len(run.phases) - 1:
                return [('not-installed', 'no installation after %d successes' % good)]
            before = obs.state[max((p.pid for _, p in ph), key=obs.order.index)]
        return leftovers(run)

    def nontrivial(self, run):
        obs = run.obs[0]
        h = [(p.name, outcome(p)[0], obs.state.get(p.pid), [(f.kind, f.fired and p.count) for f in p.faults])
             for _, _, p in run.cli()]
        return hashlib.sha1(repr(h).encode()).hexdigest()

    def count(self, run):
        return {'installation_checks': run.obs[0].checks,
                'installed': sum(1 for _, sp, p in run.cli() if outcome(p) == ('exit', 0))}


# ---- reproducibility of reports ------------------------------------------------------------
KERN, SIZES = W.KERN, W.SIZES


class P24(Prop):
    ID = 'P24'
    budget = {'quick': (400, 40), 'thorough': (20000, 800)}
    rule = ('one run of kerncraft (all analytic models, ranges of constants, verbose output, stores) repeated at another '
            'time, with other process ids, directory orders, time stamps and environments, and in 8 interpreters with '
            'different hash seeds; everything written is compared')
    measure = 'distinct outputs compared'
    progress = True

    def gen(self, rng, i, tier):
        files = dict((p, {'t': t}) for p, t in W.MACHINES.items())
        a = ['-m', rng.choice(['m.yml', 'n.yml', 'mach2/m.yml'])]
        if rng.random() < 0.65:
            kern = rng.choice(sorted(KERN))
            text, names, dim = KERN[kern]
            files['/work/k.c'] = {'t': ['text', text]}
        else:
            kern = rng.choice(W.K1 + ['2d5pt'])
            files['/work/k.c'] = {'t': ['kernel', kern]}
            names, dim = (('M', 'N'), 2) if kern == '2d5pt' else (('N',), 1)
        desc = rng.random() < 0.15
        if desc:
            text, names, dim = W.DESC[rng.choice(sorted(W.DESC))]
            files['/work/k.c'] = {'t': ['text', text]}
            a.append('--kernel-description')
        models = rng.sample(['LC', 'ECMData', 'RooflineFLOP', 'ECMCPU', 'ECM', 'RooflineASM', 'Benchmark'],
                            rng.choice([1, 1, 2, 3]))
        if desc:
            models = rng.sample(['LC', 'ECMData', 'RooflineFLOP'], rng.choice([1, 2, 3]))
        for m in models:
            a += ['-p', m]
        if 'Benchmark' in models:
            a.append('--no-phenoecm')
        default = 'Benchmark' not in models and rng.random() < 0.25      # -D . (for all constants not given)
        if default:
            v = rng.choice(SIZES[dim])
            a += ['-D', '.', rng.choice(['%d', '%d-%d:2']).replace('%d-', '%d-' % v).replace('%d', str(v + rng.choice([0, 16])))]
        for n in rng.sample(names, len(names)):
            if default and rng.random() < 0.7:
                continue
            v = rng.choice(SIZES[dim])
            if 'Benchmark' not in models and rng.random() < 0.2:
                a += ['-D', n, '%d-%d:%d' % (v, v * 2, rng.choice([2, 3]))]
            else:
                a += ['-D', n, str(v)]
        if rng.random() < 0.5:
            a += ['-P', rng.choice(['LC', 'LC', 'SIM'])]
        if rng.random() < 0.4:
            a += [rng.choice(['-v', '-v', '-vv'])]
        if rng.random() < 0.3:
            a += ['-C', rng.choice(['gcc', 'clang'])]
        if rng.random() < 0.3:
            a += ['-c', rng.choice(['2', '3'])]
        if rng.random() < 0.3:
            a += ['-u', rng.choice(['cy/CL', 'It/s', 'FLOP/s', 'cy/It'])]
        if rng.random() < 0.6:
            a += ['--store', 's.pickle']
        if rng.random() < 0.3:
            a += ['--json', 's.json']
        if rng.random() < 0.3:
            a += ['-i', rng.choice(['OSACA', 'IACA', 'LLVM-MCA'])]
        return {'seed': i, 'policy': {'kind': 'serial'}, 'cfg': {'iaca': True}, 'files': files,
                'phases': [[{'name': 'p', 'module': 'kerncraft.kerncraft', 'args': a + ['k.c']}]]}

    @staticmethod
    def tokens(text):
        return '\n'.join(sorted(re.split(r'[\s,:;()\[\]{}]+', text)))

    def outputs(self, run):
        _, sp, p = next(iter(run.cli()))
        if outcome(p)[0] == 'exc':      # which of several reasons is found first may vary
            return {'end': repr(outcome(p)[:2])}
        r = {'end': repr(outcome(p)), 'out': stdout(p), 'err': stderr(p)}
        if any(a.startswith('-v') for a in sp['args']):     # sets and dictionaries are printed in any order
            r['out'] = self.tokens(r['out'])
        fs = run.w.fs
        for path in sorted(self.paths(fs)):
            if path.endswith('.lock') or path in run.inputs0:
                continue
            d = bytes(fs.get(path) or b'')
            if path.endswith('.pickle') and '_kerncraft' not in path:
                f = flat(d)
                r[path] = self.tokens(repr(sorted(f.items()))) if f is not None else 'damaged'
            elif path.endswith('.json'):
                try:
                    r[path] = self.tokens(json.dumps(json.loads(d.decode()), sort_keys=True))
                except ValueError:
                    r[path] = 'damaged'
            elif path.endswith(('.lzma', '.pickle')):
                r[path] = 'binary'
            else:
                r[path] = d.decode('latin-1')
        return r

    def paths(self, fs):
        return [p for p, kind, _ in fs.tree('/') if kind == 'f' and p.startswith(('/work', '/home', '/tmp'))]

    def observe(self, spec):
        run = H.execute(spec)
        r = self.outputs(run)
        run.dispose()
        return r

    def differ(self, a, b, how):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                x, y = (a.get(k) or 'nothing').split('\n'), (b.get(k) or 'nothing').split('\n')
                for u, v in zip(x + [''], y + ['']):
                    if u != v:
                        return [('differs', '%s: %s is %r, %s %r' % (how[0], k, u[:200], how[1], v[:200]))]
                return [('differs', '%s: %s has %d lines, %s %d' % (how[0], k, len(x), how[1], len(y)))]
        return []

    def judge(self, run):
        a = self.outputs(run)
        rng = random.Random('v%d' % run.spec['seed'])
        s = dict(run.spec, seed=run.spec['seed'] + 10 ** 6, t_off=rng.randrange(10 ** 17), gran=rng.choice([1, 1000, 10 ** 9]),
                 cfg=dict(run.spec['cfg'], listing=rng.randrange(10 ** 6), pid_base=rng.randrange(100, 30000)))
        s['phases'] = [[dict(s['phases'][0][0], env={'FOO': 'bar', 'LC_ALL': 'C', 'COLUMNS': '37', 'OMP_NUM_THREADS': '3',
                                                     'USER': 'other'})]]
        return self.differ(a, self.observe(s), ('first', 'at another time'))

    def nontrivial(self, run):
        r = self.outputs(run)
        return hashlib.sha1(repr(sorted(r.items())).encode()).hexdigest() if "'exit', 0" in r['end'] else None

    def interpreters(self, seed, tier, idx, secs, hashes):
        ps = []
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        for h in hashes:
            out = tempfile.TemporaryFile('w+')
            env = dict(os.environ, PYTHONHASHSEED=str(h), VERIF_REEXEC='1')
            ps.append((h, out, subprocess.Popen([sys.executable, os.path.join(here, 'hashrun.py'), str(seed), tier, idx,
                                                 str(secs)], stdout=out, stderr=subprocess.DEVNULL, env=env)))
        res = {}
        for h, out, q in ps:
            try:
                q.wait(secs + 120)
            except subprocess.TimeoutExpired:
                q.kill()
                q.wait()
            out.seek(0)
            for l in out:
                try:
                    i, r = json.loads(l)
                except ValueError:
                    continue
                res.setdefault(i, {})[h] = r
            out.close()
        return res

    def compare(self, res):
        for h in sorted(res):
            if 'harness' in res[h]:
                continue
            for g in sorted(res):
                if g > h and 'harness' not in res[g]:
                    d = self.differ(res[h], res[g], ('hash seed %s' % h, 'with hash seed %s' % g))
                    if d:
                        return d[0], [h, g]
            break
        return None

    def extra(self, tier, seed, secs, ok):
        if not ok:
            return [], {}
        hashes = [0, 1, 2, 3, 5, 8, 1234, 987654321]
        secs = 25 if tier == 'quick' else 600
        off = 10 ** 6
        res = self.interpreters(seed, tier, '%d:%d' % (off, off + 10 ** 5), secs, hashes)
        n = harness = 0
        for i in sorted(res):
            n += len(res[i]) > 1
            harness += sum('harness' in r for r in res[i].values())
            c = self.compare(res[i])
            if c:
                import run as R
                spec = self.gen(R.rng_for(self, seed, i), i, tier)
                return [(i, dict(spec, external=c[1]), c[0], {'note': 'interpreters with hash seeds %r' % c[1]})], {}
        return [], {'interpreters': len(hashes), 'hash_seeds': hashes, 'runs_compared_between_interpreters': n,
                    'interpreter_harness_errors': harness}

    def replay_external(self, d):
        spec = dict(d['spec'])
        hashes = spec.pop('external')
        with tempfile.NamedTemporaryFile('w', suffix='.json') as f:
            json.dump(spec, f)
            f.flush()
            res = self.interpreters(0, 'quick', '@' + f.name, 100, hashes)
        c = self.compare(res.get(0, {}))
        if c:
            print('%s: %s' % c[0])
            print('VIOLATION property=%s replay=%s' % (self.ID, 'given file'))
            return 1
        print('not reproduced')
        return 0
