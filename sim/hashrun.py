"""Executes run descriptions of P24 in an interpreter with its own hash seed; prints one line per run."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    import run as R
    import props
    seed, tier, idx, secs = int(sys.argv[1]), sys.argv[2], sys.argv[3], float(sys.argv[4])
    p = props.get('P24')
    p.prepare(tier)
    until = time.time() + secs
    if idx.startswith('@'):
        with open(idx[1:]) as f:
            specs = [(0, json.load(f))]
    else:
        a, b = map(int, idx.split(':'))
        specs = ((i, p.gen(R.rng_for(p, seed, i), i, tier)) for i in range(a, b))
    for i, spec in specs:
        if time.time() > until:
            break
        try:
            r = p.observe(spec)
        except Exception as e:  # noqa
            r = {'harness': repr(e)[:300]}
        print(json.dumps([i, r], sort_keys=True), flush=True)


main()
