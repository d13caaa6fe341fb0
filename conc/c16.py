from conc.common import *
from conc.hkcommon import *
from conc import c01, c03, c04, c05
from conc.figs import Figures, surface, saved_as, near
from spec import hk as S

RULE = ('one plot of an H-K result (from an analysis of random receiver functions); every saved figure is compared with the surface, best model, '
        'grids, receiver functions and predicted phase times; non-trivial: distinct random inputs')


def tracks(name, f, sets):
    """sets: per waveform axis a list of (centre, time axis, data, three phase times)"""
    waves = [a for a in f['axes'] if a['waves'] and not a['surfaces']]
    if len(waves) != len(sets):
        return [(name, '%d waveform panels, specified %d' % (len(waves), len(sets)))]
    bad = []
    for ax, want in zip(waves, sets):
        got = sorted((float(x[0]), float((y[0] + y[1]) / 2)) for x, y in ax['ticks'])
        spec = sorted((float(t), float(c)) for c, _, _, ts in want for t in ts)
        miss = [s for s in spec if not any(near(s, g, 1e-8) for g in got)]
        extra = [g for g in got if not any(near(s, g, 1e-8) for s in spec)]
        if miss or extra or len(got) != len(spec):
            bad.append((name + ' phase times', 'marks (time, centre) %s, specified %s' % (extra[:4] or got[:4], miss[:4] or spec[:4])))
        if len(ax['waves']) != len(want):
            bad.append((name + ' receiver functions', '%d drawn, specified %d' % (len(ax['waves']), len(want))))
        for (x, y), (c, t, d, _) in zip(ax['waves'], want):
            if not near(x, t):
                bad.append((name + ' time axis', 'drawn from %r, specified from %r' % (x[0], t[0])))
                continue
            a, d = y - c, np.asarray(d)
            g = float(np.dot(a, d) / np.dot(d, d)) if np.dot(d, d) > 0 else 1.
            if g <= 0 or not np.allclose(a, g * d, rtol=1e-7, atol=1e-8 * (1 + abs(c))):
                bad.append((name + ' receiver functions', 'samples drawn at %r are not a positive multiple of the data' % c))
    return bad


def drawn(tr):
    b = tr.stats.starttime - tr.stats.onset
    return b + tr.stats.delta * np.arange(len(tr.data))


def panels(rf, phases):
    return [[(tr.stats[c], drawn(tr), tr.data.copy(), phases(tr.stats.slowness * S.DEG_PER_KM)) for tr in rf] for c in ('back_azimuth', 'distance')]


def shown(z, clip):
    z = np.asarray(z)
    return np.where(z <= 0, 0., z) if clip else z


def options(rng, clip_default, none):
    """-> positional/keyword arguments, whether negatives are removed, format"""
    kw, clip = {}, clip_default
    if rng.maybe(.7):
        kw['rmneg'] = rng.pick(True, False, None)
        clip = none if kw['rmneg'] is None else kw['rmneg']
    fmt = 'jpg'
    if rng.maybe(.7):
        fmt = kw['format'] = rng.pick('pdf', 'png', 'jpg', None)
    if rng.maybe(.5):
        kw['g'] = rng.pick(None, [rng.uniform(1, 90), rng.uniform(1, 15), rng.uniform(1, 30), rng.uniform(.5, 5)])
    return kw, clip, fmt


def finite(panels):
    for p in panels:
        for x in p:
            if not np.isfinite(np.asarray(x[3], dtype=float)).all():
                raise Skip
    return panels


def one_figure(name, fig, rows, best, H, K, panels, clip):
    bad = surface(name, fig, rows[:, 0], rows[:, 1], shown(rows[:, 2], clip), [best[:2]], H, K)
    return bad + tracks(name, fig, finite(panels))


def ph1(p, b, V):
    return [S.t_ps(p, b[0], b[1], V), S.t_ppps(p, b[0], b[1], V), S.t_ppss(p, b[0], b[1], V)]


def ph2(p, b1, V1, b, V):
    return [x + y for x, y in zip(ph1(p, b1, V1), ph1(p, b, V))]


def stacked(t, d, ts):
    return [[(180., np.asarray(t), np.asarray(d), ts)]]


def twice(rng):
    """the same result plotted once or twice with different options"""
    return rng.pick(1, 1, 2)


def run(ctx):
    from rfsed.hkZhu import hk, plothk
    from rfsed.hkSeqYeck import hkSeq, plotSeqhk
    from rfsed.hkYu import hkYu, plothkYu
    from rfsed.SynthAnalysis import hkSynth, hkSeqSynth, plothkSynth, plothkSeqSynth
    literals('hkZhu', 'hkSeqYeck', 'hkYu', 'SynthAnalysis')
    where = '/nowhere/plots'
    again = {f: Again(.4) for f in ('hk', 'seq', 'yu', 'syn', 'synseq')}        # several results for the same receiver functions

    def draw(rng, f, m, rf):
        a = m(rng)
        ks = [(k,) for k in a if k not in rf and k != 'stack'] + [tuple(rf)]
        return again[f](rng, a, ks + [tuple(k[0] for k in ks[:-1])] * 3)

    def check(rng, name, plot, r, spec, clip, none, n=1):
        bad = []
        for _ in range(twice(rng)):
            kw, cl, fmt = options(rng, clip, none)
            want = spec(cl)
            ctx.cur.setdefault('options', []).append(kw)
            with Figures() as F:
                plot(r, where, **kw)
            bad += saved_as(name, F.saved, n, where, fmt)
            if not bad:
                for f, (label, *w) in zip(F.saved, want):
                    bad += one_figure(name + label, f, *w)
        return bad

    def one(rng, i):
        a = draw(rng, 'hk', c01.draw, ['rf'])
        a['layer'] = rng.pick('Moho', 'Sed', None)
        ctx.inputs(**{k: describe(v) if k == 'rf' else v for k, v in a.items()})
        r = hk(*[a[k] for k in c01.ORDER])
        rows, b, V = np.array(r['stackvalues']), np.array(r['bestmodel']), r['Vp']
        if a['stack']:
            p = stacked(r['time'], np.array(r['RFStack']), ph1(r['AvgSlow'] * S.DEG_PER_KM, b, V))
        else:
            p = panels(a['rf'], lambda q: ph1(q, b, V))
        return check(rng, 'plothk', plothk, r, lambda cl: [('', rows, b, a['H'], a['K'], p, cl)], True, True)
    ctx.loop('plothk', 5, 200, one, .2)

    def seq(rng, i):
        a = draw(rng, 'seq', c03.draw, ['rfSed', 'rfMoho'])
        ctx.inputs(**{k: describe(v) if k[:2] == 'rf' else v for k, v in a.items()})
        r = hkSeq(*[a[k] for k in c03.ORDER])
        s, m, b1, b2 = np.array(r['stackvalueSed']), np.array(r['stackvalueMoho']), np.array(r['bestmodelSed']), np.array(r['bestmodelMoho'])
        V1, V2 = r['VpSed'], r['VpMoho']
        if a['stack']:
            p = r['AvgSlow'] * S.DEG_PER_KM
            pS = stacked(r['time'], np.array(r['RFSedStack']), ph1(p, b1, V1))
            pM = stacked(r['time'], np.array(r['RFMohoStack']), ph2(p, b1, V1, b2, V2))
        else:
            pS = panels(a['rfSed'], lambda q: ph1(q, b1, V1))
            pM = panels(a['rfMoho'], lambda q: ph2(q, b1, V1, b2, V2))
        return check(rng, 'plotSeqhk', plotSeqhk, r, lambda cl: [(' sediment', s, b1, a['HSed'], a['KSed'], pS, cl),
                                                                   (' Moho', m, b2, a['HMoho'], a['KMoho'], pM, cl)], True, True, 2)
    ctx.loop('plotSeqhk', 5, 200, seq, .3)

    def yu(rng, i):
        a = draw(rng, 'yu', c04.draw, ['flt'])
        ctx.inputs(**a)
        r = hkYu(*[a[k] for k in c04.ORDER])
        rows, b = np.array(r['stackvaluesSubSed']), np.array(r['bestmodelSubSed'])
        x = ph1(r['rayp'], b, r['VpMoho'])
        ts = [x[0] + r['Pdelay'], x[1] + r['tlag'] - r['Pdelay'], x[2] + r['tlag']]
        p = stacked(r['time'], np.array(r['FltRF']), ts)
        return check(rng, 'plothkYu', plothkYu, r, lambda cl: [('', rows, b, a['H'], a['K'], p, cl)], True, False)
    ctx.loop('plothkYu', 5, 200, yu, .15)

    def syn(rng, i):
        n = draw(rng, 'syn', c05.draw, ['d', 't'])
        n['layer'] = rng.pick('Moho', 'Sed', None)
        ctx.inputs(**n)
        r = hkSynth(*[n[k] for k in ('d', 't', 'rayp', 'H', 'K', 'Vp', 'w1', 'w2', 'w3', 'layer')])
        rows, b = np.array(r['stackvalues']), np.array(r['bestmodel'])
        p = stacked(n['t'], n['d'], ph1(n['rayp'], b, r['Vp']))
        return check(rng, 'plothkSynth', plothkSynth, r, lambda cl: [('', rows, b, n['H'], n['K'], p, cl)], False, False)
    ctx.loop('plothkSynth', 5, 200, syn, .15)

    def synseq(rng, i):
        n = draw(rng, 'synseq', c05.drawseq, ['dS', 'dM', 't'])
        ctx.inputs(**n)
        r = hkSeqSynth(*[n[k] for k in ('dS', 'dM', 't', 'rayp', 'HS', 'KS', 'VpSed', 'w1S', 'w2S', 'w3S', 'HM', 'KM', 'VpMoho', 'w1M', 'w2M', 'w3M')])
        s, m, b1, b2 = np.array(r['stackvalueSed']), np.array(r['stackvalueMoho']), np.array(r['bestmodelSed']), np.array(r['bestmodelMoho'])
        pS = stacked(n['t'], n['dS'], ph1(n['rayp'], b1, r['VpSed']))
        pM = stacked(n['t'], n['dM'], ph2(n['rayp'], b1, r['VpSed'], b2, r['VpMoho']))
        return check(rng, 'plothkSeqSynth', plothkSeqSynth, r, lambda cl: [(' sediment', s, b1, n['HS'], n['KS'], pS, cl),
                                                                             (' Moho', m, b2, n['HM'], n['KM'], pM, cl)], False, False, 2)
    ctx.loop('plothkSeqSynth', 5, 200, synseq, .2)
