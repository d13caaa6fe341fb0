import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=work)
    t.start()
    t.join()


def work():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--tier', default='quick')
    p.add_argument('--budget', type=float, default=400)
    p.add_argument('--out')
    p.add_argument('-v', action='store_true')
    a = p.parse_args()
    import resource
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    lim = 8 << 30 if hard == resource.RLIM_INFINITY else min(8 << 30, hard)
    resource.setrlimit(resource.RLIMIT_AS, (lim, hard))
    from pyvc import prove, smt
    if a.tier == 'thorough':
        smt.CROSS[0] = True
    P = prove.Proof(a.prop.upper(), os.environ.get('RFSED_SRC', '/repo/src'), a.budget)
    P.tier = a.tier
    m = importlib.import_module('props.' + a.prop.lower())
    m.run(P)
    s = P.summary()
    if a.out:
        tmp = a.out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(s, f)
        os.rename(tmp, a.out)
    if a.v or not a.out:
        print('obligations', s['obligations'], 'discharged', s['discharged'], 'wall', s['wall_s'], s['times'])
        for f in s['failed']:
            print('FAILED', f['obligation'], f['status'], 'WITNESS' if f.get('witness') else '', (f['detail'] or '')[:300])
            if a.v:
                print('    ', (f['goal'] or '')[:1500], f.get('witness'))
        for u in s['unsupported']:
            print('UNSUPPORTED', u)
        if hasattr(P, 'lasttb') and a.v:
            print(P.lasttb[-2500:])
        print(s['functions'], s['contracts'], s['assumptions'], s['vacuity'], s['stats'], s['library'])


main()
