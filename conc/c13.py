from conc.common import *
from spec import syn as S

RULE = ('one water-level deconvolution of random traces compared with the executable specification, directly and through the '
        'dispatching functions; non-trivial: distinct random inputs')


def traces(rng, n):
    w = rng.normal(n)
    if rng.maybe(.5):
        w = w * np.exp(-np.arange(n) / rng.uniform(2, n))
    k = rng.pick('noise', 'convolved', 'convolved', 'same', 'spike')
    if k == 'noise':
        u = rng.normal(n)
    elif k == 'same':
        u = w * rng.uniform(.2, 2)
    elif k == 'spike':
        u = np.roll(w, rng.randint(0, n - 1)) * rng.uniform(-1, 1)
    else:
        r = np.zeros(n)
        for _ in range(rng.randint(1, 5)):
            r[rng.randint(0, n - 1)] += rng.uniform(-1, 1)
        u = np.convolve(r, w)[:n] + rng.pick(0, .05) * rng.normal(n)
    if rng.maybe(.06):
        u, w = np.round(u * rng.pick(3, 100)).astype(int), np.round(w * rng.pick(3, 100)).astype(int)
        if not w.any():
            raise Skip
    return u, w


def amplitude(u, w, dt, full):
    """largest entry of the trace before it is cut: the scale of its rounding errors"""
    n = len(u) + S.next_pow_2(len(u))
    z = np.zeros(n - len(u))
    return max(float(np.max(np.abs(S.waterlevel(np.concatenate([u, z])[:S.next_pow_2(len(u))], np.concatenate([w, z])[:S.next_pow_2(len(u))], dt,
                                                full['preonset'], full['wlevel'], full['gaussian'], full['normalize'])[0]))), 0.)


def run(ctx):
    import rfsed.synrf as R
    import obspy
    literals('synrf')
    again = Again()

    def one(rng, i):
        n = rng.pick(count(rng, 8, 200, 1500), 64, 128, 100, rng.randint(3, 20))
        u, w = traces(rng, n)
        a = {'n': n, 'uw': (u, w), 'dt': rng.pick(.1, .05, .025, rng.uniform(.01, .5), 1.), 'preonset': rng.pick(10, 5, 0, rng.uniform(0, 20), rng.uniform(-10, 0)),
             'wlevel': 0. if rng.maybe(.05) else rng.pick(.05, .01, rng.uniform(0.001, .9), .5, 1., rng.uniform(1, 4)), 'gaussian': rng.pick(2., 1.25, rng.uniform(.3, 8), 5), 'normalize': rng.pick(True, False)}
        a = again(rng, a, [('n', 'uw'), ('dt',), ('preonset',), ('wlevel',), ('gaussian',), ('normalize',)])
        u, w = a['uw']
        ctx.inputs(**a)
        kw = dict(preonset=a['preonset'], wlevel=a['wlevel'], gaussian=a['gaussian'], normalize=a['normalize'])
        full = dict(preonset=10., wlevel=.05, gaussian=2., normalize=False)
        if i % 4 == 1:
            for k in rng.sample(sorted(kw), rng.randint(1, 4)):
                del kw[k]
        full.update(kw)
        rf, rms = S.waterlevel(u, w, a['dt'], full['preonset'], full['wlevel'], full['gaussian'], full['normalize'])
        size = amplitude(u, w, a['dt'], full)
        P = np.abs(np.fft.fft(w, S.next_pow_2(n))) ** 2
        if np.min(np.abs(P / np.max(P) - full['wlevel'])) < (1e-9 if full['wlevel'] else 1e-4) or np.sum(u ** 2) == 0:
            raise Skip
        via = rng.pick('direct', 'direct', 'deconvolve', 'RFTrace')
        bad = []
        if via == 'direct':
            g = R.deconv_waterlevel(u, w, a['dt'], **kw)
        elif via == 'deconvolve':
            g = R.deconvolve(u, w, a['dt'], method=rng.pick('water', 'WATER', 'Water'), **kw)
        else:
            ut, wt = obspy.Trace(data=u.copy(), header={'delta': a['dt']}), obspy.Trace(data=w.copy(), header={'delta': a['dt']})
            a['dt'] = ut.stats.delta
            t = R.RFTrace.deconvolve(ut, wt, method=rng.pick('water', 'WATER', 'Water'), **kw)
            g = (t.data, t.stats.rms)
            if t.stats.delta != ut.stats.delta or not (t.stats.iter != t.stats.iter):
                bad.append(('header', 'delta %r iter %r' % (t.stats.delta, t.stats.iter)))
            for k, v in kw.items():
                if t.stats.get(k) != v:
                    bad.append(('header', '%s is %r, asked for %r' % (k, t.stats.get(k), v)))
        if not closes(g[0], rf, 1e-7, size):
            bad.append(('receiver function (%s)' % via, 'differs from the regularised spectral division by up to %r' % (np.max(np.abs(g[0] - rf)) if np.shape(g[0]) == rf.shape else 'shape')))
        if abs(g[1] - rms) > 1e-7 * (1e-6 + abs(rms)):
            bad.append(('misfit (%s)' % via, '%r, specified %r' % (g[1], rms)))
        return bad
    ctx.loop('deconv_waterlevel', 60, 3000, one, .8)

    def wrong(rng, i):
        n = rng.randint(4, 40)
        ctx.inputs(n=n)
        for f in (lambda: R.deconv_waterlevel(rng.normal(n), rng.normal(n + 1), .1), lambda: R.deconvolve(rng.normal(n), rng.normal(n), .1, method='other'),
                  lambda: R.RFTrace.deconvolve(obspy.Trace(rng.normal(n)), obspy.Trace(rng.normal(n)), method='x')):
            try:
                f()
            except R.ValueError:
                continue
            return [('rejection', 'wrong input accepted')]
        return []
    ctx.loop('rejected inputs', 4, 20, wrong, .05)
