"""Entry point of the runtime contract evaluation (runs under the repository's own interpreter)."""
import argparse
import json
import os
import sys
import warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.filterwarnings('ignore')
import numpy as np
np.seterr(all='ignore')
from rt import core


def load():
    import importlib
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith('o_') and f.endswith('.py'):
            importlib.import_module('rt.'+f[:-3])


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop', nargs='?')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--tier', default='quick')
    p.add_argument('--shard', type=int, default=0)
    p.add_argument('--nshard', type=int, default=1)
    p.add_argument('--wall', type=float, default=60)
    p.add_argument('--factor', type=float, default=1)
    p.add_argument('--start', type=int, default=0)
    p.add_argument('--out')
    p.add_argument('--replay')
    p.add_argument('--only')
    a = p.parse_args()
    load()
    if a.replay:
        r = json.load(open(a.replay))
        r = r.get('failure', r)
        f = [g for q in core.ORACLES.values() for n, g, _, _ in q if n == r['oracle']][0]
        c, err = core.run_case(r['oracle'], f, r['seed'], r['index'])
        print(json.dumps(dict(inputs=c.inputs, failed=err), indent=1, default=str))
        return 1 if err else 0
    if a.only:
        core.ORACLES[a.prop] = [o for o in core.ORACLES[a.prop] if o[0] == a.only]
    r = core.run(a.prop, a.seed, a.tier, a.shard, a.nshard, a.wall, a.factor, a.start)
    s = json.dumps(r, default=str)
    if a.out:
        open(a.out, 'w').write(s)
    else:
        print(json.dumps(r, indent=1, default=str))
    return 0


if __name__ == '__main__':
    sys.exit(main())
