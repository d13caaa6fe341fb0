from conc.common import *
from conc.hkcommon import *

RULE = ('one reverberation-corrected stack of a random filtered receiver function, every node and entry compared with the executable '
        'specification; non-trivial: distinct random inputs')
ORDER = ['flt', 'rayp', 'H', 'K', 'VpMoho', 'VpSed', 'VsSed', 'w1', 'w2', 'w3']
KEYS = ['FltRF', 'time', 'tlag', 'Pdelay', 'rayp', 'VpMoho', 'VpSed', 'HMoho', 'KMoho', 'SedThick']


def draw(rng):
    n, dt = rng.randint(60, 400), rng.pick(0.1, 0.05, 0.25, rng.uniform(.04, .3))
    d = rng.normal(n)
    if rng.maybe(.15):
        d = -np.abs(d)
    lag = rng.pick(rng.randint(1, 40) * dt, rng.randint(1, 40) * dt, 0, 0.0, rng.uniform(0, 4))
    flt = {'filteredrf': d, 'time': dt * np.arange(n) - preonset(rng), 'tlag': lag, 'rf': rng.normal(n), 'autoc': rng.normal(n),
           'resonancefilter': rng.normal(n), 'r': rng.random(), 'staname': 'ST', 'delta': dt}
    none = rng.maybe(.4)
    H, K = grids(rng, *rng.pick((15, 60), (1, 30)))
    w = wts(rng, none)
    return {'flt': flt, 'rayp': rng.pick(0.04, rng.uniform(.0, .08), 0), 'H': H, 'K': K,
            'VpMoho': None if none and rng.maybe(.5) else rng.pick(6.9, rng.uniform(5.5, 7.5), 7),
            'VpSed': None if none and rng.maybe(.5) else rng.pick(2.5, rng.uniform(1.8, 4.5), 3),
            'VsSed': rng.pick(1.4, rng.uniform(.4, 2), 1, rng.uniform(*rng.pick((.4, 2), (.4, 5)))), 'w1': w[0], 'w2': w[1], 'w3': w[2]}


def gen(ctx, rng, again):
    a = again(rng, draw(rng))
    ctx.inputs(**a)
    return [a[k] for k in ORDER]


def run(ctx):
    from rfsed.hkYu import hkYu
    literals('hkYu')
    again = Again()

    def one(rng, i):
        a = gen(ctx, rng, again)
        r = hkYu(*a)
        w = S.hkYu(*a)
        bad = same_surface('stackvaluesSubSed', r['stackvaluesSubSed'], lambda: S.hkYu(*a)['stackvaluesSubSed'])
        bad += same_keys('hkYu', r, w, KEYS)
        bm = r['bestmodelSubSed']
        bad += is_best('bestmodelSubSed', r['stackvaluesSubSed'], bm)
        if not (r['SubSedThick'] == bm[0] and r['SubSedVpVs'] == bm[1]):
            bad.append(('SubSedThick', 'reported %r, %r for best model %r' % (r['SubSedThick'], r['SubSedVpVs'], bm)))
        return bad
    ctx.loop('hkYu', 30, 600, one)
