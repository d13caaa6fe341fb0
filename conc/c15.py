import copy
from conc.common import *
from conc.hkcommon import *
from conc import c01, c03, c04, c05, c16, c17, fitcommon
from conc.c11 import medium
from conc.figs import Figures

RULE = ('one call or one analyse/plot/analyse history on random inputs: every argument is copied before and compared bit for bit afterwards, '
        'a repeated analysis must give the same result; non-trivial: distinct random inputs')

TIMES = tuple(a + b for a in ('tps', 'tppps', 'tpsps') for b in ('', 'Sed', 'Moho'))


class Frame:
    def __init__(self, name, *args, allow=()):
        self.name, self.args, self.allow = name, args, allow
        self.before = [snap(a) for a in args]

    def check(self):
        out = []
        for i, (a, b) in enumerate(zip(self.args, self.before)):
            d = diff(b, snap(a), 'argument %d' % i, self.allow)
            if d:
                out.append((self.name, d))
        return out


def header_additions(bad):
    """new header entries made by an analysis are not changes of existing ones"""
    return [b for b in bad if not (': None -> ' in b[1] and '.stats.' in b[1])]


def equal(name, a, b):
    return [] if snap(a) == snap(b) else [(name, 'a repeated analysis of the same objects gives another result')]


def run(ctx):
    from rfsed.hkZhu import hk, plothk
    from rfsed.hkSeqYeck import hkSeq, plotSeqhk
    from rfsed.hkYu import hkYu, plothkYu
    from rfsed.SynthAnalysis import hkSynth, hkSeqSynth, plothkSynth, plothkSeqSynth, plotfiltSynthrf
    from rfsed.SynthAnalysis import ResonanceFilt as filtS
    from rfsed.ReverbFilter import ResonanceFilt, plotfiltrf
    from rfsed.WaveformFitting import WaveformFitting, PlotWaveformFitting
    from rfsed import WaveformFittingMultiproc as M
    import rfsed.synrf as R
    import obspy
    literals('hkZhu', 'hkSeqYeck', 'hkYu', 'SynthAnalysis', 'ReverbFilter', 'WaveformFitting', 'WaveformFittingMultiproc', 'synrf')

    def history(rng, name, f, args, plot, kw, deep=True):
        """analyse, plot, analyse again"""
        F = Frame(name, *args)
        r = f(*args)
        bad = header_additions(F.check())
        if bad or plot is None:
            return bad
        one = snap(r)
        for _ in range(c16.twice(rng)):
            kw = dict(kw, rmneg=rng.pick(True, False, None)) if 'rmneg' in kw else kw
            G = Frame(plot.__name__, r, *args, allow=TIMES)
            with Figures():
                plot(r, '/nowhere', **kw)
            bad += G.check()
        if bad:
            return bad
        if deep:
            bad += [] if same_but_times(one, snap(f(*args))) else [(name, 'analysing again after plotting gives another result')]
        return bad

    def same_but_times(a, b):
        return diff(a, b, '', TIMES) is None

    def plotted(rng, p, every=3):
        return rng.maybe(1. / every)

    def zhu(rng, i):
        a = c01.draw(rng)
        a['layer'] = rng.pick('Moho', 'Sed', None)
        ctx.inputs(**{k: describe(v) if k == 'rf' else v for k, v in a.items()})
        pl = i % 4 == 1
        return history(rng, 'hk', hk, [a[k] for k in c01.ORDER], plothk if pl else None, {'rmneg': True})
    ctx.loop('hk', 8, 300, zhu, .12)

    def seq(rng, i):
        a = c03.draw(rng)
        ctx.inputs(**{k: describe(v) if k[:2] == 'rf' else v for k, v in a.items()})
        return history(rng, 'hkSeq', hkSeq, [a[k] for k in c03.ORDER], plotSeqhk if i % 4 == 1 else None, {'rmneg': True})
    ctx.loop('hkSeq', 8, 300, seq, .14)

    def yu(rng, i):
        a = c04.draw(rng)
        ctx.inputs(**a)
        return history(rng, 'hkYu', hkYu, [a[k] for k in c04.ORDER], plothkYu if i % 4 == 1 else None, {'rmneg': True})
    ctx.loop('hkYu', 8, 300, yu, .1)

    def syn(rng, i):
        n = c05.draw(rng)
        n['layer'] = rng.pick('Moho', 'Sed', None)
        ctx.inputs(**n)
        return history(rng, 'hkSynth', hkSynth, [n[k] for k in ('d', 't', 'rayp', 'H', 'K', 'Vp', 'w1', 'w2', 'w3', 'layer')],
                       plothkSynth if i % 4 == 1 else None, {'rmneg': True})
    ctx.loop('hkSynth', 8, 300, syn, .1)

    def synseq(rng, i):
        n = c05.drawseq(rng)
        ctx.inputs(**n)
        return history(rng, 'hkSeqSynth', hkSeqSynth, [n[k] for k in ('dS', 'dM', 't', 'rayp', 'HS', 'KS', 'VpSed', 'w1S', 'w2S', 'w3S', 'HM', 'KM', 'VpMoho',
                                                                     'w1M', 'w2M', 'w3M')], plothkSeqSynth if i % 4 == 1 else None, {'rmneg': True})
    ctx.loop('hkSeqSynth', 8, 300, synseq, .12)

    def flt(rng, i):
        rf = make_rf(rng, npts=rng.randint(60, 200))
        for tr in rf:
            tr.data = tr.data + 1e-3 * rng.normal(len(tr.data))
        ctx.inputs(rf=describe(rf))
        if i % 2:
            d = np.array(rf[0].data)
            t = rf[0].stats.delta * np.arange(len(d)) - 5
            return history(rng, 'ResonanceFilt (synthetic)', filtS, [d, t], plotfiltSynthrf if i % 4 == 1 else None, {})
        return history(rng, 'ResonanceFilt', ResonanceFilt, [rf, 5], plotfiltrf if i % 4 == 2 else None, {})
    ctx.loop('resonance filters', 8, 300, flt, .1)

    def deconv(rng, i):
        n = rng.pick(rng.randint(8, 120), rng.randint(8, 120), 16, 64, 128)
        u, w, dt = rng.normal(n), rng.normal(n), .1
        kind = rng.pick('iter', 'water', 'deconvolve', 'RFTrace', 'fwd', 'synrf')
        ctx.inputs(kind=kind, u=u, w=w)
        if kind == 'iter':
            return history(rng, kind, lambda u, w: R.deconv_iterative(u, w, dt, preonset=2, itmax=8), [u, w], None, {})
        if kind == 'water':
            return history(rng, kind, lambda u, w: R.deconv_waterlevel(u, w, dt, preonset=2, normalize=rng.pick(True, False)), [u, w], None, {})
        if kind == 'deconvolve':
            return history(rng, kind, lambda u, w: R.deconvolve(u, w, dt, method=rng.pick('iter', 'water')), [u, w], None, {})
        if kind == 'RFTrace':
            ut, wt = obspy.Trace(data=u, header={'delta': dt}), obspy.Trace(data=w, header={'delta': dt})
            for t in (ut, wt):
                for k in rng.sample(['gaussian', 'preonset', 'rms', 'iter', 'itmax', 'minderr', 'nt', 'phase', 'wlevel', 'normalize', 'rf_type', 'onset'], rng.randint(0, 4)):
                    t.stats[k] = rng.uniform(1, 9)
            return history(rng, kind, lambda u, w: R.RFTrace.deconvolve(u, w, method=rng.pick('iter', 'water')), [ut, wt], None, {})
        a, b, r, h, p = medium(rng, rng.randint(2, 4))
        if kind == 'fwd':
            return history(rng, kind, lambda *x: R.fwd_seis(p, dt, 64, 1, *x), [a, b, r, h], None, {})
        ps = [.02, .03]

        def whole(depth, a, b, r, ps):
            s = R.synrf(depth, a, b, r, ps, dt=dt, npts=64, ipha=1)
            s.run_fwd()
            s.filter(freqmin=.05, freqmax=1.25, order=2, zerophase=True)
            return s.run_deconvolution(pre_filt=[.05, 1.25], preonset=2, gaussian=2.)
        return history(rng, kind, whole, [np.cumsum(h), a, b, r, ps], None, {})
    ctx.loop('deconvolution and forward modelling', 20, 500, deconv, .08)

    def fit(rng, i):
        a = fitcommon.draw(rng, (2, 1))
        ctx.inputs(**fitcommon.report(a))
        part = rng.maybe(.5)
        return fitcommon.abstractly(rng, lambda: fitted(copy.deepcopy(a), i, part))

    def fitted(a, i, part):
        args = [a[k] for k in fitcommon.ORDER]
        if i % 2:
            F = Frame('parallel fit', *args)
            p = M.WaveformPara(*args)
            G = Frame('parallel fit', p)
            if part:
                M.WaveformFit_multiproc(((a['HMoho'][0],), p))
            else:
                M.run_waveformfitting(2, a['HMoho'], p)
            return header_additions(F.check() + G.check())
        F = Frame('WaveformFitting', *args)
        WaveformFitting(*(args + [.4, .4, .2, '/nowhere', 'png']))
        return header_additions(F.check())
    ctx.loop('waveform fit', 3, 100, fit, .12)

    def fitplot(rng, i):
        a = c17.fit_inputs(rng)
        rows, w = c17.candidates(rng, a), c17.weights(rng, False)
        ctx.inputs(rows=rows, weights=w, **fitcommon.report(a))
        c17.best(rows, w)
        w2 = c17.weights(rng, False)
        return fitcommon.abstractly(rng, lambda: drawn(copy.deepcopy(a), rows.copy(), i, w, w2))

    def drawn(a, rows, i, w, w2):
        if i % 2:
            p, n = M.WaveformPara(*[a[k] for k in fitcommon.ORDER]), c17.nested(a, rows)
            F = Frame('plotbestmodel', n, p)
            with Figures():
                M.plotbestmodel(n, p, *(w + ['/nowhere', 'png']))
        else:
            r = c17.result(a, rows, w2)
            F = Frame('PlotWaveformFitting', r)
            with Figures():
                PlotWaveformFitting(r, *(w + ['/nowhere', 'png']))
        return F.check()
    ctx.loop('waveform fit plots', 4, 100, fitplot, .12)
