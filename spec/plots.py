"""Contracts of the plotting functions: the figures they have to draw (executable, see spec/hk.py).

Only the parts named in the property are drawn here: surface, marker, limits, receiver functions, predicted times, file."""
import numpy as np
import matplotlib.pyplot as plt
from spec.hk import t_ps, t_ppps, t_ppss, DEG_PER_KM, dflt
from spec.fit import radial, combined, synthetic

GAINS = [75., 10., 15., 2.5]


def shown(rows, clip):
    """the stack values, negative ones as zero when their removal is requested"""
    if clip:
        return np.where(rows[:, 2] <= 0, 0., rows[:, 2])
    return rows[:, 2]


def surface(rows, values, best, H, K):
    plt.figure()
    ax = plt.subplot(1)
    plt.tricontourf(rows[:, 0], rows[:, 1], values)
    ax.plot(best[0], best[1])
    ax.set_xlim(min(H), max(H))
    ax.set_ylim(min(K), max(K))


def marks(ax, centre, times):
    for x in times:
        ax.plot([x, x], [centre, centre])


def mean_panel(t, d, gain, times):
    """the mean (or only) receiver function at 180 degrees"""
    ax = plt.subplot(2)
    ax.plot(t, d * gain + 180)
    marks(ax, 180, times)


def onset_axis(tr):
    return np.arange(len(tr.data)) * tr.stats.delta + (tr.stats.starttime - tr.stats.onset)


def trace_panels(rf, g, times):
    """every receiver function at its back-azimuth and at its distance"""
    ax = plt.subplot(2)
    for tr in rf:
        ax.plot(onset_axis(tr), tr.data * g[0] + tr.stats.back_azimuth)
        marks(ax, tr.stats.back_azimuth, times(tr.stats.slowness * DEG_PER_KM))
    ax = plt.subplot(3)
    for tr in rf:
        ax.plot(onset_axis(tr), tr.data * g[2] + tr.stats.distance)
        marks(ax, tr.stats.distance, times(tr.stats.slowness * DEG_PER_KM))


def one_layer(p, b, V):
    return [t_ps(p, b[0], b[1], V), t_ppps(p, b[0], b[1], V), t_ppss(p, b[0], b[1], V)]


def two_layers(p, b1, V1, b, V):
    return [t_ps(p, b1[0], b1[1], V1) + t_ps(p, b[0], b[1], V), t_ppps(p, b1[0], b1[1], V1) + t_ppps(p, b[0], b[1], V),
            t_ppss(p, b1[0], b1[1], V1) + t_ppss(p, b[0], b[1], V)]


def save(name, fmt):
    plt.savefig('%s.%s' % (name, fmt), format=fmt)
    plt.close('all')


def plothk(r, savepath, g, rmneg, format):
    fmt, g = dflt(format, 'pdf'), dflt(g, GAINS)
    b = r['bestmodel']
    surface(r['stackvalues'], shown(r['stackvalues'], dflt(rmneg, True)), b, r['H'], r['K'])
    if r['stack']:
        mean_panel(r['time'], r['RFStack'], g[0], one_layer(r['AvgSlow'] * DEG_PER_KM, b, r['Vp']))
    else:
        trace_panels(r['RF'], g, lambda p: one_layer(p, b, r['Vp']))
    save('%s/%s_%s_%s' % (savepath, r['staname'], r['comp'], r['layer']), fmt)


def plotSeqhk(r, savepath, g, rmneg, format):
    fmt, g, clip = dflt(format, 'pdf'), dflt(g, GAINS), dflt(rmneg, True)
    b1, b2, V1, V2 = r['bestmodelSed'], r['bestmodelMoho'], r['VpSed'], r['VpMoho']
    p = r['AvgSlow'] * DEG_PER_KM
    surface(r['stackvalueSed'], shown(r['stackvalueSed'], clip), b1, r['HSed'], r['KSed'])
    if r['stack']:
        mean_panel(r['time'], r['RFSedStack'], g[0], one_layer(p, b1, V1))
    else:
        trace_panels(r['RFSed'], g, lambda p: one_layer(p, b1, V1))
    save('%s/%s_%s_%s' % (savepath, r['staname'], r['comp'], 'Sediment'), fmt)
    surface(r['stackvalueMoho'], shown(r['stackvalueMoho'], clip), b2, r['HMoho'], r['KMoho'])
    if r['stack']:
        mean_panel(r['time'], r['RFMohoStack'], g[0], two_layers(p, b1, V1, b2, V2))
    else:
        trace_panels(r['RFMoho'], g, lambda p: two_layers(p, b1, V1, b2, V2))
    save('%s/%s_%s_%s' % (savepath, r['staname'], r['comp'], 'Moho'), fmt)


def plothkYu(r, savepath, g, rmneg, format):
    fmt, g = dflt(format, 'pdf'), dflt(g, GAINS)
    b, rows = r['bestmodelSubSed'], r['stackvaluesSubSed']
    surface(rows, shown(rows, dflt(rmneg, False)), b, r['HMoho'], r['KMoho'])
    a = one_layer(r['rayp'], b, r['VpMoho'])
    mean_panel(r['time'], r['FltRF'], g[0], [a[0] + r['Pdelay'], a[1] + r['tlag'] - r['Pdelay'], a[2] + r['tlag']])
    save('%s/%s_%s' % (savepath, 'FilteredRF_HKYu', 'SubSediment'), fmt)


def plothkSynth(r, savepath, g, rmneg, format):
    fmt, g = dflt(format, 'pdf'), dflt(g, GAINS)
    b, rows = r['bestmodel'], r['stackvalues']
    surface(rows, shown(rows, dflt(rmneg, False)), b, r['H'], r['K'])
    mean_panel(r['time'], r['SynthRF'], g[0], one_layer(r['rayp'], b, r['Vp']))
    save('%s/%s_%s' % (savepath, 'SynthRF', r['layer']), fmt)


def plothkSeqSynth(r, savepath, g, rmneg, format):
    fmt, g, clip = dflt(format, 'pdf'), dflt(g, GAINS), dflt(rmneg, False)
    b1, b2, V1, V2 = r['bestmodelSed'], r['bestmodelMoho'], r['VpSed'], r['VpMoho']
    p = r['RayP']
    surface(r['stackvalueSed'], shown(r['stackvalueSed'], clip), b1, r['HSed'], r['KSed'])
    mean_panel(r['time'], r['SynthRFSed'], g[0] / 2, one_layer(p, b1, V1))
    save('%s/%s_%s' % (savepath, 'SynthRF_SeqHK', 'Sediment'), fmt)
    surface(r['stackvalueMoho'], shown(r['stackvalueMoho'], clip), b2, r['HMoho'], r['KMoho'])
    mean_panel(r['time'], r['SynthRFMoho'], g[0], two_layers(p, b1, V1, b2, V2))
    save('%s/%s_%s' % (savepath, 'SynthRF_SeqHK', 'Moho'), fmt)


# ------------------------------------------------------------------ waveform fits
LABELS = ['Correlation Coefficient', 'Root-mean-square Error', 'Phase Goodness of Fit', 'Overall Goodness of Fit']


def fit_figure(corr, rmse, pg, H, K, weights, k):
    """criterion k at every candidate, and the optimal candidate"""
    gof = combined(corr, rmse, pg, weights[0], weights[1], weights[2])
    v = [corr, rmse, pg, gof][k]
    b = np.argmin(v) if k == 1 else np.argmax(v)
    return v, [H[b], K[b]]


def fit_figures(rows, depth, weights, m, preonset, limits, savepath, format):
    """rows: correlation, error, phase fit, ...; depth: the column of the depths, Vp/Vs in the next"""
    rf = m['rfstream']
    D = radial(rf)
    t = onset_axis(rf[0])
    for k in range(4):
        v, b = fit_figure(rows[:, 0], rows[:, 1], rows[:, 2], rows[:, depth], rows[:, depth + 1], weights, k)
        plt.figure()
        ax = plt.subplot(1)
        plt.tricontourf(rows[:, depth], rows[:, depth + 1], v)
        ax.plot(b[0], b[1])
        ax.set_xlim(limits[0], limits[1])
        ax.set_ylim(limits[2], limits[3])
        S = synthetic(len(D), rf[0].stats.delta, preonset, m['HSed'], m['VpSed'], m['VpCrust'], m['rayp'], b[0], b[1], m['gaussian'])
        ax = plt.subplot(2)
        ax.plot(t, D)
        ax.plot(rf[0].stats.delta * np.arange(len(D)) - preonset, S)
        plt.savefig('%s/%s_%s.%s' % (savepath, rf[0].stats.station, LABELS[k], format), format=format)
        plt.close('all')


def PlotWaveformFitting(r, w1, w2, w3, savepath, format):
    rf, H, K = r['rfstream'], r['HMoho'], r['KMoho']
    fit_figures(r['WaveformSolutions'], 4, [w1, w2, w3], r, np.abs(onset_axis(rf[0])[0]), [H[0], H[-1], K[0], K[-1]], savepath, format)


def plotbestmodel(results, params, w1, w2, w3, savepath, format):
    m = params[0]
    H, K = m['HMoho'], m['KMoho']
    rows = np.array([[c[0], c[1], c[2], c[3], c[4]] for one in results for c in one])
    fit_figures(rows, 3, [dflt(w1, 0.4), dflt(w2, 0.4), dflt(w3, 0.2)], m, m['preonset'], [min(H), max(H), min(K), max(K)], savepath, format)
