import copy
from conc.fitcommon import *
from conc.hkcommon import weight, same_keys

RULE = ('one waveform fit of random receiver functions over a small grid; every row is compared with the executable specification '
        '(layered model, synthetic through the repository\'s forward modelling, window, criteria, combined score); non-trivial: distinct random inputs')


def run(ctx):
    from rfsed.WaveformFitting import WaveformFitting
    literals('WaveformFitting')

    def one(rng, i):
        a = draw(rng)
        w = [.4, .4, .2] if rng.maybe(.3) else [weight(rng) for _ in range(3)]
        ctx.inputs(weights=w, **report(a))
        return abstractly(rng, lambda: judged(copy.deepcopy(a), w))

    def judged(a, w):
        r = WaveformFitting(*([a[k] for k in ORDER] + w + ['/nowhere', 'png']))
        bad = same_rows('WaveformFitting solutions', r['WaveformSolutions'], lambda a: F.fit(*([a[k] for k in ORDER] + w)), a,
                        ['correlation', 'error', 'phase fit', 'score', 'depth', 'Vp/Vs'])
        return bad + same_keys('WaveformFitting', r, {'HSed': a['HSed'], 'VpSed': a['VpSed'], 'VpCrust': a['VpCrust'], 'rayp': a['rayp'], 'KMoho': a['KMoho'],
                                                      'HMoho': a['HMoho'], 'gaussian': a['gaussian'], 'wtCorr': w[0], 'wtRMSE': w[1], 'wtPG': w[2]},
                               ['HSed', 'VpSed', 'VpCrust', 'rayp', 'KMoho', 'HMoho', 'gaussian', 'wtCorr', 'wtRMSE', 'wtPG'])
    ctx.loop('WaveformFitting', 5, 600, one)
