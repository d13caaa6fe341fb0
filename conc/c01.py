from conc.common import *
from conc.hkcommon import *

RULE = ('one H-K stack of a random receiver-function set on a random grid, every node and every echoed entry compared with the '
        'executable specification; non-trivial: distinct random inputs')
ORDER = ['rf', 'preonset', 'H', 'K', 'Vp', 'w1', 'w2', 'w3', 'layer', 'stack']
KEYS = ['RF', 'RFStack', 'time', 'staname', 'comp', 'Vp', 'layer', 'stack', 'AvgSlow', 'H', 'K']


def draw(rng):
    none = rng.maybe(.4)
    H, K = grids(rng, *rng.pick((15, 60), (0.5, 8), (1, 30)))
    w = wts(rng, none)
    return {'rf': make_rf(rng), 'preonset': preonset(rng), 'H': H, 'K': K,
            'Vp': None if none and rng.maybe(.5) else rng.pick(6.5, rng.uniform(5.5, 7.5), rng.uniform(2, 5), 6),
            'w1': w[0], 'w2': w[1], 'w3': w[2], 'layer': None if none and rng.maybe(.5) else rng.pick('Moho', 'Sed', 'LAB'),
            'stack': rng.pick(True, False, None) if none else rng.pick(True, False)}


def gen(ctx, rng, again):
    a = again(rng, draw(rng))
    ctx.inputs(**{k: describe(v) if k == 'rf' else v for k, v in a.items()})
    return [a[k] for k in ORDER]


def run(ctx):
    from rfsed.hkZhu import hk
    literals('hkZhu')
    again = Again()

    def one(rng, i):
        a = gen(ctx, rng, again)
        if i % 7 == 3:
            r = hk(*a[:-1])          # the stacking choice left out altogether
            a = a[:-1] + [None]
        else:
            r = hk(*a)
        want = S.hk(*a)
        bad = same_surface('stackvalues', r['stackvalues'], lambda: S.hk(*a)['stackvalues'])
        return bad + same_keys('hk', r, want, KEYS)
    ctx.loop('hk', 25, 400, one)
