#!/usr/bin/env python3
"""Entry point of every registered check: seeded search, shrinking, replay, evidence."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
WANT = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONWARNINGS': 'ignore',
        'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'MPLBACKEND': 'Agg', 'TZ': 'UTC', 'VERIF_REEXEC': '1'}
if __name__ == '__main__' and os.environ.get('VERIF_REEXEC') != '1':
    env = dict(os.environ)
    for k, v in WANT.items():
        env.setdefault(k, v) if k == 'PYTHONHASHSEED' else env.__setitem__(k, v)
    os.execve(PY if os.path.exists(PY) else sys.executable, [PY] + sys.argv, env)

sys.path.insert(0, HERE)
import argparse
import copy
import gc
import hashlib
import json
import multiprocessing as mp
import random
import shutil
import signal
import tempfile
import time
import traceback

ROOT = os.path.dirname(HERE)
REAL = ['kerncraft package (every module the workload imports, from /repo working tree)',
        'argparse, pickle, json, lzma/compress_pickle, shutil, tempfile, pathlib, subprocess callers',
        'sympy, numpy, pycparser, pycachesim (C), ruamel.yaml', 'OSACA assembly parser and markers']
STUB = ['file system and file locks (in-memory model of POSIX/flock semantics)',
        'gcc/clang/icc, likwid-perfctr, likwid-bench, likwid-topology, llvm-mca, iaca (digest-based stand-ins)',
        'clock, entropy, pid, signals, network, process creation',
        'OSACA instruction database and report text']


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def rng_for(prop, seed, i):
    return random.Random('%s/%s/%d' % (prop.ID, seed, i))


class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def addmap(self, k, m):
        d = self.setdefault(k, {})
        for a, b in m.items():
            d[a] = d.get(a, 0) + b


def run_once(prop, spec):
    """Execute and judge.  Returns (run, [(signature, detail)])."""
    import harness as H
    run = H.execute(spec, prop.observers(spec))
    v = []
    for o in run.obs:
        v += list(o.result(run))
    if prop.progress:
        pv = H.progress_violation(run)
        if pv:
            v.append(pv)
    if not v or not any(x[0] in ('deadlock', 'no-progress') for x in v):
        v += list(prop.judge(run))
    return run, v


def worker(prop, wid, nw, n, deadline, seed, tier, conn, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import core
    import harness as H
    st = Stats()
    known = set(k['signature'] for k in load_known()
                if k.get('status') == 'known' and k['property'] == prop.ID)
    seen = set()
    i = wid
    while i < n and time.time() < deadline and not stop.is_set():
        rng = rng_for(prop, seed, i)
        try:
            spec = prop.gen(rng, i, tier)
            if spec is None:
                st.add('skipped')
                i += nw
                continue
            run, viol = run_once(prop, spec)
            if i < nw * prop.det_runs:
                h1 = run.sim.log_hash()
                r2 = H.execute(spec, prop.observers(spec))
                st.add('determinism_pairs')
                if r2.sim.log_hash() != h1:
                    d = [k for k, (x, y) in enumerate(zip(run.sim.log, r2.sim.log)) if x != y]
                    where = ['%r' % (l[d[0]],) for l in (run.sim.log, r2.sim.log)] if d else ['length']
                    r3 = H.execute(spec, prop.observers(spec))
                    print('NOTE: run %d differs from its repetition (event %s of %d/%d: %s), a third execution equals the %s' % (
                        i, d[:1], len(run.sim.log), len(r2.sim.log), ' | '.join(where)[:400],
                        {h1: 'first', r2.sim.log_hash(): 'second'}.get(r3.sim.log_hash())), file=sys.stderr, flush=True)
                    if r3.sim.log_hash() not in (h1, r2.sim.log_hash()):
                        conn.send(('error', 'seed %d: executions of one spec differ' % i))
                    st.add('nondeterministic')
                    r3.dispose()
                r2.dispose()
        except core.HarnessError as e:
            st.add('harness_errors')
            st.setdefault('harness_msgs', [])
            if len(st['harness_msgs']) < 3:
                st['harness_msgs'].append('i=%d %s' % (i, str(e)[-300:]))
            i += nw
            continue
        except Exception as e:  # noqa
            st.add('harness_errors')
            st.setdefault('harness_msgs', [])
            if len(st['harness_msgs']) < 3:
                st['harness_msgs'].append('i=%d %s' % (i, traceback.format_exc()[-700:]))
            i += nw
            continue
        sim = run.sim
        st.add('runs')
        st.add('steps', sim.step)
        st.add('sim_ns', sim.now - sim.t0)
        st.add('procs', len(sim.procs))
        st.add('preemptions', len(sim.switches))
        st.addmap('faults', sim.faults_fired)
        st.addmap('probes', sim.probes)
        st.addmap('prop', prop.count(run) or {})
        key = prop.nontrivial(run)
        if key is not None:
            seen.add(hashlib.sha1(repr(key).encode()).digest()[:10])
        hit = [x for x in viol if x[0] in known]
        new = [x for x in viol if x[0] not in known]
        for x in hit:
            st.addmap('known', {x[0]: 1})
        log_hash = sim.log_hash() if new else None
        run.dispose()
        del run, sim
        if new:
            try:
                small, info = shrink(prop, spec, new[0][0], time.time() + prop.shrink_s)
            except Exception as e:  # noqa
                small, info = spec, {'shrink_error': repr(e)}
            conn.send(('violation', i, small, new[0], info))
            st['violations'] = st.get('violations', 0) + 1
            stop.set()
            break
        i += nw
    st['refs'] = H.ref_runs[0]
    conn.send(('done', dict(st), seen))
    conn.close()


# ------------------------------------------------------------------------ shrinking
def still(prop, spec, sig, tries):
    import core
    tries[0] += 1
    try:
        run, v = run_once(prop, spec)
    except core.HarnessError:
        return None
    except Exception:  # noqa
        return None
    sw, log = list(run.sim.switches), run.sim.log_hash()
    ok = [x for x in v if x[0] == sig]
    run.dispose()
    return (sw, ok[0], log) if ok else None


def shrink(prop, spec, sig, until):
    tries = [0]
    best = copy.deepcopy(spec)
    r = still(prop, best, sig, tries)
    if r is None:
        return spec, {'note': 'not reproducible on re-execution', 'executions': tries[0]}

    def attempt(cand):
        nonlocal best, r
        if time.time() > until:
            return False
        x = still(prop, cand, sig, tries)
        if x is None:
            return False
        best, r = cand, x
        return True

    changed = True
    while changed and time.time() < until:
        changed = False
        for pi in range(len(best['phases']) - 1, -1, -1):
            for qi in range(len(best['phases'][pi]) - 1, -1, -1):
                if sum(len(p) for p in best['phases']) <= 1:
                    break
                c = copy.deepcopy(best)
                del c['phases'][pi][qi]
                if not c['phases'][pi]:
                    del c['phases'][pi]
                if prop.valid(c) and attempt(c):
                    changed = True
                    break
            if changed:
                break
        if changed:
            continue
        for pi, ph in enumerate(best['phases']):
            for qi, sp in enumerate(ph):
                for fi in range(len(sp.get('faults', ())) - 1, -1, -1):
                    c = copy.deepcopy(best)
                    del c['phases'][pi][qi]['faults'][fi]
                    if attempt(c):
                        changed = True
                        break
                if not changed and sp.get('delay'):
                    c = copy.deepcopy(best)
                    c['phases'][pi][qi].pop('delay')
                    changed = attempt(c)
                if changed:
                    break
            if changed:
                break
    # schedule: explicit switch list, then remove context switches
    c = copy.deepcopy(best)
    c['policy'], c['switches'] = {'kind': 'serial'}, []
    if not attempt(c):
        c['switches'] = [list(x) for x in r[0]]
        if attempt(c):
            n = 2
            while len(best['switches']) > 1 and time.time() < until:
                sw = best['switches']
                size = max(1, len(sw) // n)
                done = False
                for k in range(0, len(sw), size):
                    c = copy.deepcopy(best)
                    c['switches'] = sw[:k] + sw[k + size:]
                    if attempt(c):
                        done = True
                        n = max(2, n - 1)
                        break
                    if time.time() > until:
                        break
                if not done:
                    if size == 1:
                        break
                    n = min(len(sw), n * 2)
    return best, {'executions': tries[0], 'detail': r[1][1], 'log_hash': r[2]}


# ------------------------------------------------------------------------ main
def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', '-p')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--secs', type=float)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '8')))
    ap.add_argument('--log', action='store_true', help='with --replay: print the event log')
    a = ap.parse_args(argv)
    import core  # noqa
    import props
    if a.replay:
        return replay(a, props)
    prop = props.get(a.property)
    t0 = time.time()
    n, secs = prop.budget[a.tier]
    n, secs = a.runs or n, a.secs or secs
    out_dir = os.path.join(ROOT, 'evidence')
    os.makedirs(out_dir, exist_ok=True)
    prop.prepare(a.tier)
    prop.warm()
    gc.collect()
    gc.freeze()
    ctx = mp.get_context('fork')
    stop = ctx.Event()
    ws = []
    deadline = t0 + secs
    for w in range(a.workers):
        r, s = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(prop, w, a.workers, n, deadline, a.seed, a.tier, s, stop))
        p.start()
        s.close()
        ws.append((p, r))
    tot, seen, viols, errors = Stats(), set(), [], []
    hard_end = deadline + 150
    for p, r in ws:
        try:
            while True:
                if not r.poll(max(0.1, hard_end - time.time())):
                    errors.append('worker did not answer')
                    break
                m = r.recv()
                if m[0] == 'violation':
                    viols.append(m[1:])
                elif m[0] == 'error':
                    errors.append(m[1])
                else:
                    for k, v in m[1].items():
                        if isinstance(v, dict):
                            tot.addmap(k, v)
                        elif isinstance(v, list):
                            tot.setdefault(k, []).extend(v)
                        else:
                            tot.add(k, v)
                    seen |= m[2]
                    break
        except EOFError:
            errors.append('worker died')
    for p, r in ws:
        p.join(5)
        if p.is_alive():
            p.kill()
            p.join()
    extra_viol, extra = prop.extra(a.tier, a.seed, max(5.0, deadline - time.time()), not viols)
    viols += extra_viol
    wall = time.time() - t0
    runs = tot.get('runs', 0)
    replay_paths = []
    viols.sort(key=lambda v: v[0])
    for i, spec, v, info in viols[:1]:
        path = os.path.join(out_dir, '%s-replay-%s-%d.json' % (prop.ID, a.seed, i))
        with open(path, 'w') as f:
            json.dump({'property': prop.ID, 'signature': v[0], 'detail': info.get('detail', v[1]),
                       'run': i, 'seed': a.seed, 'shrink': info, 'spec': spec}, f, indent=1)
        replay_paths.append((path, v, info))
    known = tot.get('known', {})
    cov = {
        'evaluations': runs, 'distinct_nontrivial': len(seen), 'rule': prop.rule,
        'samples': [json.dumps(prop.sample(a.seed, a.tier))[:1500]],
        'seeds': 'i=0..%d derived from VERIF_SEED=%d' % (n - 1, a.seed),
        'simulated_runs_per_hour': round(runs / wall * 3600) if wall else 0,
        'seeds_per_hour': round(runs / wall * 3600) if wall else 0,
        'reference_runs': tot.get('refs', 0),
        'simulated_seconds': round(tot.get('sim_ns', 0) / 1e9, 1),
        'simulated_processes': tot.get('procs', 0), 'scheduler_steps': tot.get('steps', 0),
        'context_switches_chosen': tot.get('preemptions', 0),
        'faults_injected': tot.get('faults', {}), 'probes': tot.get('probes', {}),
        'property_counters': tot.get('prop', {}),
        'determinism_pairs_checked': tot.get('determinism_pairs', 0),
        'harness_errors': tot.get('harness_errors', 0),
        'harness_messages': tot.get('harness_msgs', [])[:5], 'worker_errors': errors[:5],
        'known_findings_hit': known, 'components_real': REAL, 'components_stub': STUB,
        'distinct_measure': prop.measure,
    }
    cov.update(extra)
    ev = {'property': prop.ID, 'tier': a.tier, 'seed': a.seed, 'level': prop.level, 'coverage': cov,
          'wall_s': round(wall, 1), 'violations': len(viols)}
    tmp = os.path.join(out_dir, '.%s.json.%d' % (prop.ID, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(out_dir, prop.ID + '.json'))
    for k in load_known():
        if k.get('status') == 'known' and k['property'] == prop.ID:
            print('KNOWN-FINDING: property=%s %s' % (prop.ID, k['what']))
    print('%s %s: %d runs, %d distinct, %.0f s, faults %s, %s' % (
        prop.ID, a.tier, runs, len(seen), wall, tot.get('faults', {}), tot.get('prop', {})))
    for m in tot.get('harness_msgs', [])[:3]:
        print('harness: ' + m)
    for path, v, info in replay_paths:
        print('%s: %s' % (v[0], info.get('detail', v[1])))
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
    if viols:
        return 1
    if errors or runs == 0 or tot.get('harness_errors', 0) > 0.2 * max(1, runs):
        msgs = errors or tot.get('harness_msgs', ['no runs'])
        print('no answer (%d): %s' % (len(msgs), str(msgs[0])[-1500:]))
        return 2
    return 0


def replay(a, props):
    with open(a.replay) as f:
        d = json.load(f)
    prop = props.get(d['property'])
    prop.prepare('quick')
    if d['spec'].get('external'):
        return prop.replay_external(d)
    run, v = run_once(prop, d['spec'])
    if a.log:
        for e in run.sim.log:
            print(*e)
    print('log', run.sim.log_hash(), 'recorded', d.get('shrink', {}).get('log_hash'))
    for sig, detail in v:
        print('%s: %s' % (sig, detail))
    if any(x[0] == d['signature'] for x in v):
        print('VIOLATION property=%s replay=%s' % (prop.ID, a.replay))
        return 1
    print('not reproduced')
    return 0


if __name__ == '__main__':
    sys.exit(main())
