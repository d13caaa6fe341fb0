from pyvc.prove import *
from props import c07
from props.draw import figures, same_figures


def compare(P, name, mod, fn, args, spec):
    m = len(P.st.eff)
    P.call(mod, fn, args)
    got = figures(P, P.st.eff[m:])
    m = len(P.st.eff)
    P.call('spec.plots', fn, spec)
    want = figures(P, P.st.eff[m:])
    same_figures(P, name, got, want)
    P.cover(fn + ' preconditions')


def result(P, rf, H, K, d, rows):
    r = dict({x: v for x, v in d.items() if x not in ('wtCorr', 'wtRMSE', 'wtPG', 'preonset')}, rfstream=rf, HMoho=H, KMoho=K, WaveformSolutions=rows)
    r.update({x: RR('fit.' + x) for x in ('wtCorr', 'wtRMSE', 'wtPG')})
    r.update(savepath=tm.var('fit.savepath', 'S'), format=tm.var('fit.format', 'S'))
    return r


def sequential(P):
    rf, H, K, d, (n, nH, nK, npts) = c07.inputs(P)
    rows = P.array2('rows', tm.mul(nH, nK), CI(6))
    r = P.dct(result(P, rf, H, K, d, rows))
    before = P.snapshot()
    a = [r, d['wtCorr'], d['wtRMSE'], d['wtPG'], tm.var('savepath', 'S'), tm.var('format', 'S')]
    compare(P, 'PlotWaveformFitting', 'rfsed.WaveformFitting', 'PlotWaveformFitting', a, a)
    P.unchanged('inputs', before)


def candidates(P, nH, nK):
    """per depth a list of candidates [correlation, error, phase fit, depth, Vp/Vs]"""
    one = lambda i, j: Tup([tm.uf('candidate.%d' % c, [i, j], 'R') for c in range(5)])
    return P.lst('results', nH, lambda i: Rope([('sym', nK, lambda j: one(i, j))]))


def parallel(P, none):
    rf, H, K, d, (n, nH, nK, npts) = c07.inputs(P)
    p = P.call('rfsed.WaveformFittingMultiproc', 'WaveformPara', [rf, d['preonset'], d['HSed'], d['VpSed'], d['VpCrust'], d['rayp'], K, H, d['gaussian']])
    res = candidates(P, nH, nK)
    before = P.snapshot()
    w = [P.opt(d[x], x) if none else d[x] for x in ('wtCorr', 'wtRMSE', 'wtPG')]
    if none:
        w = [None, None, None]
    a = [res, p] + w + [tm.var('savepath', 'S'), tm.var('format', 'S')]
    compare(P, 'plotbestmodel' + (' (weights omitted)' if none else ''), 'rfsed.WaveformFittingMultiproc', 'plotbestmodel', a, a)
    P.unchanged('inputs', before)


def sequential_frame(P):
    rf, H, K, d, (n, nH, nK, npts) = c07.inputs(P)
    r = P.dct(result(P, rf, H, K, d, P.array2('rows', tm.mul(nH, nK), CI(6))))
    before = P.snapshot()
    P.call('rfsed.WaveformFitting', 'PlotWaveformFitting', [r, d['wtCorr'], d['wtRMSE'], d['wtPG'], tm.var('savepath', 'S'), tm.var('format', 'S')])
    P.unchanged('PlotWaveformFitting', before)


def parallel_frame(P):
    rf, H, K, d, (n, nH, nK, npts) = c07.inputs(P)
    p = P.call('rfsed.WaveformFittingMultiproc', 'WaveformPara', [rf, d['preonset'], d['HSed'], d['VpSed'], d['VpCrust'], d['rayp'], K, H, d['gaussian']])
    res = candidates(P, nH, nK)
    before = P.snapshot()
    P.call('rfsed.WaveformFittingMultiproc', 'plotbestmodel', [res, p] + [d[x] for x in ('wtCorr', 'wtRMSE', 'wtPG')] + [tm.var('savepath', 'S'), tm.var('format', 'S')])
    P.unchanged('plotbestmodel', before)

def run(P):
    P.assumptions.update(['matplotlib draws what its calls say; drawing calls do not change their arguments'])
    P.section('sequential plot', sequential)
    P.section('parallel plot', parallel, False)
    P.section('parallel plot, weights omitted', parallel, True)
