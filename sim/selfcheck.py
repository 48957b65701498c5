#!/usr/bin/env python3
"""setup_cmd: nothing is compiled; verifies that the simulator can load /repo's working tree.

Without --setup: checks that every event log is reproduced exactly in other processes."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    if '--setup' in sys.argv:
        for m in ('sympy', 'numpy', 'pycparser', 'ruamel.yaml', 'cachesim', 'osaca', 'compress_pickle'):
            __import__(m)
        os.makedirs(os.path.join(os.path.dirname(HERE), 'evidence'), exist_ok=True)
        print('setup ok')
        return 0
    code = ("import sys; sys.path.insert(0, %r); import run, props, harness as H\n"
            "for pid in sys.argv[1:]:\n"
            "    p = props.get(pid)\n"
            "    p.prepare('quick')\n"
            "    for i in range(3):\n"
            "        try:\n"
            "            s = p.gen(run.rng_for(p, 1, i), i, 'quick')\n"
            "            r, v = run.run_once(p, s)\n"
            "            print(pid, i, r.sim.log_hash()); r.dispose()\n"
            "        except Exception as e:\n"
            "            print(pid, i, repr(e)[:100])\n" % HERE)
    sys.path.insert(0, HERE)
    import props
    ids = sys.argv[1:] or sorted(props.ids())
    outs = []
    for hs in ('0', '0', '0'):
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE='1', VERIF_REEXEC='1',
                   LANG='C.UTF-8', LC_ALL='C.UTF-8', MPLBACKEND='Agg', TZ='UTC', PYTHONWARNINGS='ignore')
        outs.append(subprocess.run([PY, '-c', code] + ids, env=env, capture_output=True, text=True))
    bad = 0
    for a, b, c in zip(*(o.stdout.split('\n') for o in outs)):
        if a and not (a == b == c):
            bad += 1
            print('DIFFERS', a, b, c)
    print('%d logs compared in 3 processes, %d differ' % (len(outs[0].stdout.split('\n')) - 1, bad))
    if outs[0].returncode:
        print(outs[0].stderr[-2000:])
    return 1 if bad or outs[0].returncode else 0


if __name__ == '__main__':
    sys.exit(main())
