from conc.common import *
from conc.hkcommon import *
from conc import c06
from spec import reverb as R

RULE = ('one synthetic analysis of a random receiver function, compared with the executable specification and with the data analysis '
        'of the same receiver function; non-trivial: distinct random inputs')


def base(rng):
    n, dt = rng.randint(60, 400), rng.pick(0.1, 0.05, 0.25, 0.025, rng.uniform(.04, .3))
    t = dt * np.arange(n) - preonset(rng)
    d = rng.normal(n)
    return rng.pick(d, d, -np.abs(d)), t


def draw(rng):
    d, t = base(rng)
    none = rng.maybe(.4)
    H, K = grids(rng, *rng.pick((15, 60), (1, 30)))
    w = wts(rng, none)
    return {'d': d, 't': t, 'rayp': rng.pick(0.04, rng.uniform(.0, .08), 0), 'H': H, 'K': K,
            'Vp': None if none and rng.maybe(.5) else rng.pick(6.9, rng.uniform(5.5, 7.5), 7), 'w1': w[0], 'w2': w[1], 'w3': w[2],
            'layer': None if none and rng.maybe(.5) else rng.pick('Moho', 'Sed')}


def drawseq(rng):
    d, t = base(rng)
    none = rng.maybe(.4)
    HS, KS = grids(rng, 0, 15)
    HM, KM = grids(rng, *rng.pick((15, 60), (1, 30)))
    w = wts(rng, none) + [weight(rng) for _ in range(3)]
    return {'dS': d, 'dM': rng.pick(rng.normal(len(d)), -np.abs(d)), 't': t, 'rayp': rng.pick(0.04, rng.uniform(.0, .08), 0), 'HS': HS, 'KS': KS,
            'VpSed': None if none and rng.maybe(.5) else rng.pick(3.0, rng.uniform(1.8, 4.5), 2, rng.uniform(1.8, 8)), 'w1S': w[0], 'w2S': w[1], 'w3S': w[2],
            'HM': HM, 'KM': KM, 'VpMoho': rng.pick(6.9, rng.uniform(5.5, 7.5), 7), 'w1M': w[3], 'w2M': w[4], 'w3M': w[5]}


def run(ctx):
    from rfsed.SynthAnalysis import hkSynth, hkSeqSynth, ResonanceFilt
    from rfsed.hkZhu import hk
    literals('SynthAnalysis')
    again, againS = Again(), Again()

    def one(rng, i):
        n = again(rng, draw(rng), ['rayp', 'H', 'K', 'Vp', 'w1', 'w2', 'w3', 'layer', ('d', 't')] if False else [('rayp',), ('H',), ('K',), ('Vp',), ('w1',), ('w2',), ('layer',), ('d', 't')])
        ctx.inputs(**n)
        a = [n[k] for k in ('d', 't', 'rayp', 'H', 'K', 'Vp', 'w1', 'w2', 'w3', 'layer')]
        r = hkSynth(*a)
        w = S.hkSynth(*a)
        return (same_surface('stackvalues', r['stackvalues'], lambda: S.hkSynth(*a)['stackvalues'])
                + same_keys('hkSynth', r, w, ['SynthRF', 'time', 'Vp', 'layer', 'rayp', 'H', 'K']) + is_best('bestmodel', r['stackvalues'], r['bestmodel']))
    ctx.loop('hkSynth', 15, 300, one, .3)

    def seq(rng, i):
        n = againS(rng, drawseq(rng), [('rayp',), ('HS',), ('KM',), ('HM',), ('VpSed',), ('w1S',), ('w3M',), ('dS', 'dM', 't')])
        ctx.inputs(**n)
        a = [n[k] for k in ('dS', 'dM', 't', 'rayp', 'HS', 'KS', 'VpSed', 'w1S', 'w2S', 'w3S', 'HM', 'KM', 'VpMoho', 'w1M', 'w2M', 'w3M')]
        if i % 5 == 2:
            r = hkSeqSynth(*(a + [rng.pick(None, [75., 10., 15., 2.5]), rng.pick(None, True, False)]))
        else:
            r = hkSeqSynth(*a)
        b = r['bestmodelSed']
        w = S.hkSeqSynth(b, *a)
        bad = same_surface('stackvalueSed', r['stackvalueSed'], lambda: S.hkSeqSynth(b, *a)['stackvalueSed'])
        bad += same_surface('stackvalueMoho', r['stackvalueMoho'], lambda: S.hkSeqSynth(b, *a)['stackvalueMoho'])
        bad += same_keys('hkSeqSynth', r, w, ['SynthRFSed', 'SynthRFMoho', 'time', 'RayP', 'VpSed', 'VpMoho', 'HSed', 'KSed', 'HMoho', 'KMoho'])
        return bad + is_best('bestmodelSed', r['stackvalueSed'], b) + is_best('bestmodelMoho', r['stackvalueMoho'], r['bestmodelMoho'])
    ctx.loop('hkSeqSynth', 12, 300, seq, .3)

    def agree(rng, i):
        rf = make_rf(rng, n=1)
        pre = preonset(rng)
        H, K = grids(rng)
        w = wts(rng, True)
        V, lay = rng.pick(None, 6.9, rng.uniform(5.5, 7.5)), rng.pick(None, 'Sed')
        ctx.inputs(rf=describe(rf), preonset=pre, H=H, K=K, w=w, Vp=V, layer=lay)
        r = hk(rf, pre, H, K, V, *w, lay)
        s = hkSynth(rf[0].data, r['time'], rf[0].stats.slowness * S.DEG_PER_KM, H, K, V, *w, lay)
        bad = [] if close(r['stackvalues'], s['stackvalues'], atol=1e-9 * (1 + np.max(np.abs(rf[0].data)))) else [
            ('hkSynth vs hk', 'largest difference %r' % np.max(np.abs(r['stackvalues'] - s['stackvalues'])))]
        if r['Vp'] != s['Vp'] or r['layer'] != s['layer']:
            bad.append(('defaults', 'hk %r %r, hkSynth %r %r' % (r['Vp'], r['layer'], s['Vp'], s['layer'])))
        return bad
    ctx.loop('agreement with hk', 8, 100, agree, .2)
    c06.synthetic(ctx, .2)
