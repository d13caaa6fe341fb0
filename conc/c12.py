from conc.common import *
from conc.c13 import traces
from spec import syn as S

RULE = ('one iterative deconvolution of random traces; the history, the stopping rule and the returned trace are compared with a step by '
        'step replay of the specification; non-trivial: distinct random inputs')


def replay(u, w, dt, pre, a, itmax, minderr, P, given_it):
    """follow the specified iteration; yields the trace, the misfits and the amplitude before the cut; ties broken towards the given history are reported as ambiguous"""
    nt = len(u)
    n = S.next_pow_2(nt)
    G = S.gauss_response(dt, n, a)
    u0, w0 = np.zeros(n), np.zeros(n)
    u0[:nt], w0[:nt] = u, w
    uf, wf = S.lowpass(u0, n, G, dt), S.lowpass(w0, n, G, dt)
    W = np.fft.fft(w0, n)
    p = np.zeros(n)
    r = uf
    pw = np.sum(uf ** 2)
    ms, amb = [], False
    last, derr = 1., 100 * pw + minderr
    while abs(derr) > minderr and len(ms) < itmax:
        c = np.abs(S.correlation(r, wf, n))
        if P:
            c = c[:n // 2 - 1]
        i, amp = S.spike(r, wf, n, dt, P)
        s = np.sort(c)
        if len(s) > 1 and s[-1] - s[-2] < 1e-9 * s[-1] or len(s) and s[-1] < 1e-10 * np.sqrt(np.sum(r ** 2) * np.sum(wf ** 2)):
            amb = True
        p[i] += amp
        r = uf - S.predicted(p, n, G, W, dt)
        m = np.sum(r ** 2) / pw
        derr = 100 * (last - m)
        if abs(abs(derr) - minderr) < 1e-9 * (1e-3 + minderr):
            amb = True
        last = m
        ms.append(m)
    full = S.lowpass(p, n, G, dt)
    return S.delay(full, n, dt, pre)[:nt], np.array(ms), float(np.max(np.abs(full))), amb


def run(ctx):
    import rfsed.synrf as R
    import obspy
    literals('synrf')
    again = Again()

    def one(rng, i):
        n = rng.pick(count(rng, 8, 150, 700, .03), 64, 128, 100, rng.randint(5, 20))
        u, w = traces(rng, n)
        a = {'n': n, 'uw': (u, w), 'dt': rng.pick(.1, .05, .025, rng.uniform(.01, .5), 1.), 'preonset': rng.pick(10, 5, 0, rng.uniform(0, 20), rng.uniform(-10, 0), 'quarter'),
             'gaussian': rng.pick(2., 1.25, rng.uniform(.3, 8), 5), 'itmax': rng.pick(400, rng.randint(1, 60), 1, 2, 30), 'minderr': rng.pick(.001, rng.uniform(0, 1), 0., 10., 1e-6),
             'phase': rng.pick('P', 'P', 'S')}
        a = again(rng, a, [('n', 'uw'), ('dt',), ('preonset',), ('itmax',), ('gaussian',), ('minderr',), ('phase',)])
        u, w = a['uw']
        if np.max(np.abs(u)) < 1e-6 * np.max(np.abs(w)):
            raise Skip       # nothing to fit: misfits are 0/0
        if a['preonset'] == 'quarter':
            a['preonset'] = S.next_pow_2(a['n']) // 4 * a['dt']
        m = a['preonset'] / a['dt']
        if abs(m - np.floor(m) - .5) < 1e-6:
            raise Skip
        ctx.inputs(**a)
        kw = dict(preonset=a['preonset'], gaussian=a['gaussian'], itmax=a['itmax'], minderr=a['minderr'], phase=a['phase'])
        full = dict(preonset=10, gaussian=2., itmax=400, minderr=.001, phase='P')
        if i % 4 == 1:
            for k in rng.sample(sorted(kw), rng.randint(1, 4)):
                del kw[k]
        full.update(kw)
        via = rng.pick('direct', 'direct', 'deconvolve', 'RFTrace')
        dt = a['dt']
        bad = []
        if via == 'direct':
            if rng.maybe(.2):
                kw['nt'] = len(u)
            g = R.deconv_iterative(u, w, dt, **kw)
        elif via == 'deconvolve':
            g = R.deconvolve(u, w, dt, **dict(kw, **rng.pick({}, {'method': 'iter'}, {'method': 'ITER'})))
        else:
            ut, wt = obspy.Trace(data=u.copy(), header={'delta': dt}), obspy.Trace(data=w.copy(), header={'delta': dt})
            t = R.RFTrace.deconvolve(ut, wt, **dict(kw, **rng.pick({}, {'method': 'iter'}, {'method': 'ITER'})))
            g = (t.data, t.stats.rms, t.stats.iter)
            for k, v in kw.items():
                if t.stats.get(k) != v:
                    bad.append(('header', '%s is %r, asked for %r' % (k, t.stats.get(k), v)))
        rf, ms, size, amb = replay(u, w, dt, full['preonset'], full['gaussian'], full['itmax'], full['minderr'], full['phase'] == 'P', None)
        if not len(ms):
            raise Skip       # the power of the filtered numerator is lost next to the threshold (floats are taken as reals)
        rms, it = np.asarray(g[1]), g[2]
        if len(rms) != it:
            bad.append(('rms', '%d values for %d iterations' % (len(rms), it)))
        if it > full['itmax'] or it < 1:
            bad.append(('it', '%d iterations, at most %d' % (it, full['itmax'])))
        if len(rms) and (np.any(np.diff(rms) > 1e-9) or rms[0] > 1 + 1e-9):
            bad.append(('rms', 'misfit increases'))
        if np.shape(g[0]) != np.shape(u):
            bad.append(('receiver function', 'length %r' % (np.shape(g[0]),)))
        if amb:
            return bad       # a tie decided by rounding
        k = min(len(ms), len(rms))
        if len(ms) != it:
            d = np.abs(np.diff(np.concatenate([[1.], ms]))) * 100
            if not any(abs(x - full['minderr']) < 1e-7 for x in d):
                bad.append(('it', '%d iterations, specified %d' % (it, len(ms))))
        elif not closes(g[0], rf, 1e-6, size):
            bad.append(('receiver function (%s)' % via, 'differs from the filtered, delayed spike train by up to %r' % np.max(np.abs(g[0] - rf))))
        if k and np.max(np.abs(ms[:k] - rms[:k])) > 1e-7:
            bad.append(('rms (%s)' % via, 'misfit of iteration %d is %r, specified %r' % (int(np.argmax(np.abs(ms[:k] - rms[:k]))), rms[int(np.argmax(np.abs(ms[:k] - rms[:k])))], ms[int(np.argmax(np.abs(ms[:k] - rms[:k])))])))
        return bad
    ctx.loop('deconv_iterative', 40, 3000, one, .9)

    def wrong(rng, i):
        n = rng.randint(4, 40)
        ctx.inputs(n=n)
        try:
            R.deconv_iterative(rng.normal(n), rng.normal(n + 1), .1)
        except R.ValueError:
            return []
        return [('rejection', 'traces of different length accepted')]
    ctx.loop('rejected inputs', 4, 20, wrong, .05)
