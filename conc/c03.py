from conc.common import *
from conc.hkcommon import *

RULE = ('one sequential H-K stack of two random receiver-function sets, both surfaces and every echoed entry compared with the '
        'executable specification (second stage conditioned on the reported first-stage optimum); non-trivial: distinct random inputs')
ORDER = ['rfSed', 'rfMoho', 'preonset', 'HSed', 'KSed', 'VpSed', 'w1S', 'w2S', 'w3S', 'HMoho', 'KMoho', 'VpMoho', 'w1M', 'w2M', 'w3M', 'g', 'stack']
KEYS = ['RFSed', 'RFSedStack', 'RFMoho', 'RFMohoStack', 'time', 'stack', 'comp', 'AvgSlow', 'VpSed', 'VpMoho', 'HSed', 'KSed',
        'HMoho', 'KMoho', 'staname']


def draw(rng):
    none = rng.maybe(.4)
    npts, delta = rng.randint(60, 220), rng.pick(0.1, 0.05, 0.25, 0.2, rng.uniform(.05, .4))
    s, m = make_rf(rng, npts=npts, delta=delta), make_rf(rng, npts=npts, delta=delta)
    HS, KS = grids(rng, 0, rng.pick(15, 30))
    HM, KM = grids(rng, *rng.pick((15, 60), (1, 30)))
    w = wts(rng, none) + [weight(rng) for _ in range(3)]
    return {'rfSed': s, 'rfMoho': m, 'preonset': preonset(rng), 'HSed': HS, 'KSed': KS,
            'VpSed': None if none and rng.maybe(.5) else rng.pick(3.0, rng.uniform(1.8, 4.5), 2), 'w1S': w[0], 'w2S': w[1], 'w3S': w[2],
            'HMoho': HM, 'KMoho': KM, 'VpMoho': rng.pick(6.9, rng.uniform(5.5, 7.5), 6), 'w1M': w[3], 'w2M': w[4], 'w3M': w[5],
            'g': [75., 10., 15., 2.5], 'stack': rng.pick(True, False, None) if none else rng.pick(True, False)}


PAIRS = ['preonset', 'HSed', 'KSed', 'VpSed', 'w1S', 'w3M', 'HMoho', 'KMoho', 'VpMoho', 'stack', 'w2S', ('rfSed', 'rfMoho')]


def choose(rng, again):
    return again(rng, draw(rng), [p if isinstance(p, tuple) else (p,) for p in PAIRS])


def gen(ctx, rng, again):
    a = choose(rng, again)
    ctx.inputs(**{k: describe(v) if k in ('rfSed', 'rfMoho') else v for k, v in a.items()})
    return [a[k] for k in ORDER]


def run(ctx):
    from rfsed.hkSeqYeck import hkSeq
    literals('hkSeqYeck')
    again = Again()

    def one(rng, i):
        a = gen(ctx, rng, again)
        if i % 7 == 3:
            r = hkSeq(*a[:-2])
            a = a[:-1] + [None]
        else:
            r = hkSeq(*a)
        b = r['bestmodelSed']
        bad = same_surface('stackvalueSed', r['stackvalueSed'], lambda: S.hkSeq(b, *a)['stackvalueSed'])
        bad += same_surface('stackvalueMoho', r['stackvalueMoho'], lambda: S.hkSeq(b, *a)['stackvalueMoho'])
        return bad + same_keys('hkSeq', r, S.hkSeq(b, *a), KEYS) + is_best('bestmodelSed', r['stackvalueSed'], b)
    ctx.loop('hkSeq', 20, 400, one)
