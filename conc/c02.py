from conc.common import *
from conc.hkcommon import *
from conc import c01, c03, c04, c05

RULE = ('one H-K analysis; the reported best model is compared with the first maximum of the surface returned with it; '
        'cases include ties, constant and all-negative surfaces; non-trivial: distinct random inputs')


def flat(rng, *rfs):
    """make ties, zero or negative surfaces likely"""
    k = rng.pick('as is', 'as is', 'zero', 'constant', 'coarse', 'negative')
    s = rng.pick(1, 1, 1, 1e-5, 1e-7)
    for d in rfs:
        if k == 'zero':
            d[:] = 0
        elif k == 'constant':
            d[:] = rng.pick(-1., 1.)
        elif k == 'coarse':
            d[:] = np.sign(d)
        elif k == 'negative':
            d[:] = -np.abs(d) - 1
    if s != 1:
        for d in rfs:
            if d.dtype.kind == 'f':
                d *= s
    return k


def run(ctx):
    from rfsed.hkZhu import hk
    from rfsed.hkSeqYeck import hkSeq
    from rfsed.hkYu import hkYu
    from rfsed.SynthAnalysis import hkSynth, hkSeqSynth
    literals('hkZhu', 'hkSeqYeck', 'hkYu', 'SynthAnalysis')

    def weights(rng, a, *ks):
        if rng.maybe(.5):
            for k in ks:
                a[k] = rng.pick(0, .5, 1)

    def one(rng, i):
        a = c01.draw(rng)
        weights(rng, a, 'w1', 'w2', 'w3')
        k = flat(rng, *[t.data for t in a['rf']])
        ctx.inputs(kind=k, **{q: describe(v) if q == 'rf' else v for q, v in a.items()})
        r = hk(*[a[q] for q in c01.ORDER])
        return is_best('hk bestmodel', r['stackvalues'], r['bestmodel'])
    ctx.loop('hk', 12, 200, one, .2)

    def seq(rng, i):
        a = c03.draw(rng)
        weights(rng, a, 'w1S', 'w2S', 'w3S', 'w1M', 'w2M', 'w3M')
        k = flat(rng, *[t.data for t in list(a['rfSed']) + list(a['rfMoho'])])
        ctx.inputs(kind=k, **{q: describe(v) if q[:2] == 'rf' else v for q, v in a.items()})
        r = hkSeq(*[a[q] for q in c03.ORDER])
        return (is_best('hkSeq bestmodelSed', r['stackvalueSed'], r['bestmodelSed'])
                + is_best('hkSeq bestmodelMoho', r['stackvalueMoho'], r['bestmodelMoho']))
    ctx.loop('hkSeq', 12, 200, seq, .2)

    def yu(rng, i):
        a = c04.draw(rng)
        weights(rng, a, 'w1', 'w2', 'w3')
        k = flat(rng, a['flt']['filteredrf'])
        ctx.inputs(kind=k, **a)
        r = hkYu(*[a[q] for q in c04.ORDER])
        return is_best('hkYu bestmodelSubSed', r['stackvaluesSubSed'], r['bestmodelSubSed'])
    ctx.loop('hkYu', 12, 200, yu, .2)

    def syn(rng, i):
        a = c05.draw(rng)
        weights(rng, a, 'w1', 'w2', 'w3')
        k = flat(rng, a['d'])
        ctx.inputs(kind=k, **a)
        r = hkSynth(*[a[q] for q in ('d', 't', 'rayp', 'H', 'K', 'Vp', 'w1', 'w2', 'w3', 'layer')])
        return is_best('hkSynth bestmodel', r['stackvalues'], r['bestmodel'])
    ctx.loop('hkSynth', 12, 200, syn, .2)

    def sseq(rng, i):
        a = c05.drawseq(rng)
        weights(rng, a, 'w1S', 'w2S', 'w3S', 'w1M', 'w2M', 'w3M')
        k = flat(rng, a['dS'], a['dM'])
        ctx.inputs(kind=k, **a)
        r = hkSeqSynth(*[a[q] for q in ('dS', 'dM', 't', 'rayp', 'HS', 'KS', 'VpSed', 'w1S', 'w2S', 'w3S', 'HM', 'KM', 'VpMoho', 'w1M', 'w2M', 'w3M')])
        return (is_best('hkSeqSynth bestmodelSed', r['stackvalueSed'], r['bestmodelSed'])
                + is_best('hkSeqSynth bestmodelMoho', r['stackvalueMoho'], r['bestmodelMoho']))
    ctx.loop('hkSeqSynth', 12, 200, sseq, .2)
