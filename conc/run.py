import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('MPLBACKEND', 'Agg')


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--shard', type=int, default=0)
    p.add_argument('--tier', default='quick')
    p.add_argument('--budget', type=float, default=60)
    p.add_argument('--case')
    p.add_argument('--out')
    p.add_argument('--hints')
    a = p.parse_args()
    from conc.common import Ctx, HINTS
    if a.hints:
        HINTS[:] = json.load(open(a.hints))
    m = importlib.import_module('conc.' + a.prop.lower())
    ctx = Ctx(a.prop, a.seed, a.shard, a.tier, a.budget, a.case)
    m.run(ctx)
    r = ctx.result()
    r['rule'] = m.RULE
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(r, f)
    else:
        print(json.dumps(r, indent=1))
    if a.case:
        sys.exit(1 if r['violations'] else 0)


main()
