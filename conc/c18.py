from conc.common import *
from conc.c11 import medium, rel
from spec import syn as S
from scipy.signal import butter, sosfilt, zpk2sos, iirfilter

RULE = ('one synthetic receiver-function calculation through the class, compared trace by trace with the composition of its parts; '
        'non-trivial: distinct random models')


def bandpass(d, dt, f1, f2, corners, zero):
    import obspy
    t = obspy.Trace(data=np.array(d), header={'delta': dt})
    t.filter('bandpass', freqmin=f1, freqmax=f2, corners=corners, zerophase=zero)
    return t.data


def run(ctx):
    import rfsed.synrf as R
    literals('synrf')

    def one(rng, i):
        n = count(rng, *rng.pick((1, 2), (3, 5)), 12)
        a, b, r, h, p = medium(rng, n)
        depth = np.cumsum(h)
        if rng.maybe(.3):
            depth = list(depth)
        th = np.array([depth[0]] + [depth[k] - depth[k - 1] for k in range(1, n)])
        npts, dt = rng.pick(64, 100, 50, 128, 90, count(rng, 30, 128, 300)), rng.pick(.1, .05, .25, .2)
        pmax = .95 / max(a)
        ps = [rng.uniform(0, pmax) for _ in range(count(rng, *rng.pick((1, 2), (2, 4)), 12))]
        if rng.maybe(.3):
            ps = sorted(ps, reverse=True)
        form = rng.pick('list', 'array', 'float')
        rayp = {'list': list(ps), 'array': np.array(ps), 'float': ps[0]}[form]
        if form == 'float':
            ps = ps[:1]
        ip = rng.pick(1, 1, 0, -1)
        if min(ps) < .02 * pmax:
            raise Skip       # an incident S wave has no vertical component at normal incidence
        ny = .5 / dt
        fl = {'freqmin': rng.uniform(.02, .2) * ny, 'freqmax': rng.uniform(.4, .9) * ny, 'order': rng.pick(1, 2, 3, 4), 'zerophase': rng.pick(True, False)}
        pre = rng.pick(None, [rng.uniform(.02, .2) * ny, rng.uniform(.4, .9) * ny], 'default' if ny > 2.2 else None)
        kw = {}
        if rng.maybe(.7):
            kw['preonset'] = rng.pick(10, 5, 2.5, 0)
        if rng.maybe(.7):
            kw['gaussian'] = rng.pick(2., 1.25, 3.)
        met = rng.pick(None, 'iter', 'water')
        if met:
            kw['method'] = met
        if met == 'water' and rng.maybe(.5):
            kw['wlevel'] = rng.pick(rng.uniform(.01, .3), rng.uniform(.01, .3), rng.uniform(.5, 2))
        if met != 'water' and rng.maybe(.6):
            kw['itmax'] = rng.randint(1, 12)
            if rng.maybe(.5):
                kw['minderr'] = rng.pick(0., 0, .1, 1e-3)
        if met == 'water' and rng.maybe(.3):
            kw['normalize'] = True
        ctx.inputs(depth=depth, vp=a, vs=b, rho=r, rayp=rayp, npts=npts, dt=dt, ipha=ip, filter=fl, pre_filt=pre, kw=kw)
        s = R.synrf(depth, a, b, r, rayp, dt=dt, npts=npts, ipha=ip)
        bad = []
        if not close(s.thickness, th):
            bad.append(('thickness', '%r, specified %r' % (s.thickness, th)))
        s.run_fwd()
        if rng.maybe(.25):
            if rng.maybe(.5):
                s.filter(**fl)
            s.run_fwd()         # computed again: still one seismogram per ray parameter
        if len(s.rstream) != len(ps) or len(s.zstream) != len(ps):
            return bad + [('run_fwd', '%d/%d traces for %d ray parameters' % (len(s.rstream), len(s.zstream), len(ps)))]
        ref = []
        for k, q in enumerate(ps):
            ur, uz = R.fwd_seis(q, dt, npts, ip, a, b, r, th)
            ref.append([np.array(ur), np.array(uz)])
            if not closes(s.rstream[k].data, ur, 1e-9) or not closes(s.zstream[k].data, uz, 1e-9):
                bad.append(('run_fwd', 'seismograms of ray parameter %d' % k))
            if abs(s.rstream[k].stats.delta - dt) > 1e-12 or abs(s.zstream[k].stats.delta - dt) > 1e-12:
                bad.append(('run_fwd', 'sampling interval'))
            if s.rstream[k].stats.npts != npts:
                bad.append(('run_fwd', 'length %d' % s.rstream[k].stats.npts))
        if bad:
            return bad
        raw = [[float(np.max(np.abs(x))) for x in y] for y in ref]
        if rng.maybe(.6):
            f = dict(fl)
            for k in rng.pick([], ['order'], ['zerophase'], ['order', 'zerophase']):
                del f[k]
            s.filter(**f)
            f = dict({'order': 2, 'zerophase': True}, **f)
            for x in ref:
                for j in (0, 1):
                    x[j] = bandpass(x[j], dt, f['freqmin'], f['freqmax'], f['order'], f['zerophase'])
        if pre == 'default':
            rf = s.run_deconvolution(**kw)
            pf = [.05, 2]
        else:
            rf = s.run_deconvolution(pre_filt=pre, **kw)
            pf = pre
        if pf is not None:
            for x in ref:
                for j in (0, 1):
                    x[j] = bandpass(x[j], dt, pf[0], pf[1], 2, True)
        if pf is None and rng.maybe(.4):
            rf = s.run_deconvolution(pre_filt=None, **kw)       # deconvolved again
        if len(rf) != len(ps):
            return bad + [('run_deconvolution', '%d receiver functions for %d ray parameters' % (len(rf), len(ps)))]
        k2 = dict({'preonset': 10, 'gaussian': 2.}, **{k: v for k, v in kw.items() if k != 'method'})
        for k in range(len(ps)):
            if not closes(s.rstream[k].data, ref[k][0], 1e-7, raw[k][0]) or not closes(s.zstream[k].data, ref[k][1], 1e-7, raw[k][1]):
                bad.append(('filter', 'seismograms %d are not the requested band-pass of the synthetic ones' % k))
            u, w = s.rstream[k].data, s.zstream[k].data
            d = R.deconv_waterlevel(u, w, dt, **k2) if kw.get('method') == 'water' else R.deconv_iterative(u, w, dt, **k2)
            if not closes(rf[k].data, d[0], 1e-8):
                bad.append(('run_deconvolution', 'receiver function %d is not the deconvolution of vertical %d from radial %d' % (k, k, k)))
            for q, v in k2.items():
                if rf[k].stats.get(q) != v:
                    bad.append(('header', '%s of receiver function %d is %r, asked for %r' % (q, k, rf[k].stats.get(q), v)))
            if not close(np.atleast_1d(rf[k].stats.rms), np.atleast_1d(d[1])):
                bad.append(('header', 'rms of receiver function %d' % k))
        return bad
    ctx.loop('class synrf', 25, 1500, one, .87)

    def thick(rng, i):
        n = count(rng, 1, 6, 40)
        d = np.array([rng.pick(rng.uniform(-5, 90), float(rng.randint(0, 60))) for _ in range(n)])
        if rng.maybe(.4):
            d = np.sort(d)
        elif rng.maybe(.2):
            d = d.astype(int)
        if rng.maybe(.4):
            d = list(d)
        ctx.inputs(depth=d)
        z = np.ones(n)
        t = R.synrf(d, z * 5, z * 3, z, .05, dt=.1).thickness
        w = [d[0]] + [d[k] - d[k - 1] for k in range(1, n)]
        if np.shape(t) != (n,) or not closes(t, w, 1e-12):
            return [('thickness', '%r, specified %r' % (list(t), w))]
        return []
    ctx.loop('layer thicknesses', 30, 300, thick, .05)

    def bad_rayp(rng, i):
        v = rng.pick('0.05', (0.05,), None, 5)
        ctx.inputs(rayp=v)
        try:
            R.synrf(np.array([2., 30.]), np.array([3., 8.]), np.array([1.5, 4.5]), np.array([2., 3.3]), v, dt=.1)
        except TypeError:
            return []
        return [('rayp', 'kind of ray parameter not rejected')]
    ctx.loop('rejected ray parameters', 4, 8, bad_rayp, .02)
