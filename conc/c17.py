import copy
from conc.fitcommon import *
from conc.figs import Figures, surface, saved_as, near

RULE = ('one waveform-fit plot of random candidate scores (including ties and negative values) with weights equal to or different from those of '
        'the fit; every saved figure is compared with the optimal candidates, the mean receiver function and the synthetic of the marked candidate; '
        'non-trivial: distinct random inputs')

LABELS = ['Correlation', 'error', 'Phase', 'Overall']


def weights(rng, none):
    return [None if none and rng.maybe(.4) else rng.pick(rng.uniform(0, 1), rng.uniform(0, 1), .4, .2, 0, 1, rng.uniform(0, 4)) for _ in range(3)]


def candidates(rng, a):
    """rows corr, rmse, pg, H, K for every candidate"""
    K, H = a['KMoho'], a['HMoho']
    kind = rng.pick('any', 'any', 'any', 'ties', 'negative', 'close', 'small')
    b = [rng.uniform(.2, 1), rng.uniform(.2, 2), rng.uniform(1, 10)]
    rows = []
    for k in K:
        for h in H:
            c = [rng.uniform(-1, 1), rng.uniform(.01, 2), rng.uniform(0, 10)]
            if kind == 'ties':
                c = [rng.pick(.25, .5), rng.pick(.5, 1.), rng.pick(1., 4.)]
            elif kind == 'close':
                c = [x + rng.pick(1e-3, 1e-5, 1e-6) * rng.uniform(-1, 1) for x in b]
            elif kind == 'negative':
                c[0] = -abs(c[0]) - .01
            if kind == 'small':
                c[1] *= 1e-5
            rows.append(c + [h, k])
    return np.array(rows)


def best(rows, w):
    """per criterion the values and the optimal candidates"""
    c, e, p = rows[:, 0], rows[:, 1], rows[:, 2]
    with np.errstate(all='ignore'):
        g = F.combined(c, e, p, *w)
    if not np.isfinite(g).all() or abs(max(c)) < 1e-9:
        raise Skip
    out = []
    for v, s in ((c, 1), (e, -1), (p, 1), (g, 1)):
        m = np.max(s * v)
        out.append((v, rows[s * v >= m - 1e-10 * (1 + abs(m)), 3:5]))
    return out


def figures(name, figs, rows, w, a, pre, t0):
    bad = []
    D = F.radial(a['rf'])
    n, delta = len(D), a['rf'][0].stats.delta
    syn = {}
    for k, (f, (v, opt)) in enumerate(zip(figs, best(rows, w))):
        label = '%s figure %d' % (name, k + 1)
        order = np.lexsort((rows[:, 4], rows[:, 3]))
        s = [x for x in f['axes'] if x['surfaces']]
        if len(s) == 1 and len(s[0]['surfaces']) == 1 and len(s[0]['surfaces'][0][0]) == len(rows):
            x = s[0]['surfaces'][0]
            o = np.lexsort((x[1], x[0]))
            s[0]['surfaces'][0] = [q[o] for q in x]
        r = surface(label, f, rows[order, 3], rows[order, 4], v[order], opt, a['HMoho'], a['KMoho'])
        if r:
            bad += r
            continue
        m = s[0]['markers'][0]
        H, K = float(m[0][0]), float(m[1][0])
        ax = [x for x in f['axes'] if x['waves'] and not x['surfaces']]
        if len(ax) != 1 or len(ax[0]['waves']) != 2:
            bad.append((label, 'waveforms drawn: %s' % [len(x['waves']) for x in f['axes']]))
            continue
        if LABELS[k].lower() not in ax[0]['title'].lower() + f['file'].lower():
            bad.append((label, 'titled %r, saved as %r' % (ax[0]['title'], f['file'])))
        if (H, K) not in syn:
            syn[H, K] = F.synthetic(n, delta, pre, a['HSed'], a['VpSed'], a['VpCrust'], a['rayp'], H, K, a['gaussian'])
        S = syn[H, K]
        t = delta * np.arange(n)
        want = [(t + t0, D), (t - pre, S)]
        sc = [max(np.max(np.abs(q)), 1e-12) for q in (D, S)]
        ok = False
        for g in (ax[0]['waves'], ax[0]['waves'][::-1]):
            ok = ok or all(near(x, u, 1e-7) and np.shape(y) == np.shape(z) and np.max(np.abs(y - z)) < 1e-6 * q for (x, y), (u, z), q in zip(g, want, sc))
        if not ok:
            b2 = wobble(a)
            S2 = F.synthetic(n, delta, pre, b2['HSed'], b2['VpSed'], b2['VpCrust'], b2['rayp'], H, K, b2['gaussian'])
            if np.max(np.abs(S2 - S)) > 1e-8 * sc[1]:
                raise Skip
            bad.append((label, 'the waveforms drawn are not the mean radial receiver function and the synthetic of H=%r, K=%r' % (H, K)))
    return bad


def result(a, rows, w):
    with np.errstate(all='ignore'):
        g = F.combined(rows[:, 0], rows[:, 1], rows[:, 2], *w)
    return {'WaveformSolutions': np.column_stack([rows[:, :3], g, rows[:, 3:]]), 'rfstream': a['rf'], 'HSed': a['HSed'], 'VpSed': a['VpSed'],
            'VpCrust': a['VpCrust'], 'rayp': a['rayp'], 'KMoho': a['KMoho'], 'HMoho': a['HMoho'], 'gaussian': a['gaussian'],
            'wtCorr': w[0], 'wtRMSE': w[1], 'wtPG': w[2], 'savepath': '/elsewhere', 'format': 'eps'}


def nested(a, rows):
    nH = len(a['HMoho'])
    return [[rows[j * nH + i].tolist() for j in range(len(a['KMoho']))] for i in range(nH)]


def fit_inputs(rng):
    a = draw(rng, (count(rng, 4, 4, 12), count(rng, 3, 3, 9)))
    while np.ptp(a['HMoho']) < .1 or np.ptp(a['KMoho']) < .01:      # no surface to contour
        a['HMoho'] = np.array([rng.uniform(20, 60) for _ in range(rng.randint(2, 4))])
        a['KMoho'] = np.array([rng.uniform(1.6, 2.1) for _ in range(rng.randint(2, 3))])
    a['HMoho'], a['KMoho'] = np.sort(a['HMoho']), np.sort(a['KMoho'])
    return a


def run(ctx):
    from rfsed.WaveformFitting import PlotWaveformFitting
    from rfsed.WaveformFittingMultiproc import plotbestmodel, WaveformPara
    literals('WaveformFitting', 'WaveformFittingMultiproc')
    where = '/nowhere/fit'

    def seq(rng, i):
        a = fit_inputs(rng)
        rows, w = candidates(rng, a), weights(rng, False)
        w0 = rng.pick(w, weights(rng, False), [.4, .4, .2])
        fmt = rng.pick('png', 'pdf', 'jpg')
        ctx.inputs(rows=rows, weights=w, fitted=w0, **report(a))
        best(rows, w)
        return abstractly(rng, lambda: plotted(copy.deepcopy(a), rows, w0, w, fmt))

    def plotted(a, rows, w0, w, fmt):
        with Figures() as G:
            PlotWaveformFitting(result(a, rows, w0), w[0], w[1], w[2], where, fmt)
        pre = abs(a['rf'][0].stats.starttime - a['rf'][0].stats.onset)
        t0 = a['rf'][0].stats.starttime - a['rf'][0].stats.onset
        return saved_as('PlotWaveformFitting', G.saved, 4, where, fmt) or figures('PlotWaveformFitting', G.saved, rows, w, a, pre, t0)
    ctx.loop('PlotWaveformFitting', 4, 300, seq, .5)

    def par(rng, i):
        a = fit_inputs(rng)
        rows, w = candidates(rng, a), weights(rng, True)
        full = [d if x is None else x for x, d in zip(w, (.4, .4, .2))]
        fmt = rng.pick('png', 'pdf', 'jpg')
        ctx.inputs(rows=rows, weights=w, **report(a))
        best(rows, full)
        return abstractly(rng, lambda: plotted2(copy.deepcopy(a), rows, w, full, fmt))

    def plotted2(a, rows, w, full, fmt):
        P = WaveformPara(*[a[k] for k in ORDER])
        with Figures() as G:
            plotbestmodel(nested(a, rows), P, w[0], w[1], w[2], where, fmt)
        t0 = a['rf'][0].stats.starttime - a['rf'][0].stats.onset
        return saved_as('plotbestmodel', G.saved, 4, where, fmt) or figures('plotbestmodel', G.saved, rows, full, a, abs(a['preonset']), t0)
    ctx.loop('plotbestmodel', 4, 300, par, .5)
