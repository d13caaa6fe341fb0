from conc.common import *
from spec import reverb as R
from scipy.signal import detrend, find_peaks

RULE = ('one resonance filter of random receiver functions: every entry compared with the executable specification and with a direct '
        'time-domain computation (sum products, circular copy); non-trivial: distinct random inputs')


def direct(S, dt):
    """time-domain oracle, no transform"""
    n = len(S)
    i = np.arange(n)
    y = S - np.mean(S)
    A = np.vstack([i, np.ones(n)]).T
    D = y - A @ np.linalg.lstsq(A, y, rcond=None)[0]
    ac = np.array([np.dot(D[k:], D[:n - k]) for k in range(n)])
    if ac[0] <= 1e-18 * (np.dot(S, S) + 1e-300) or ac[0] == 0:
        raise Skip          # nothing left after detrending: the normalised autocorrelation is 0/0
    ac = ac / ac[0]
    return D, ac


def trough(ac):
    """candidates for the first trough: sample numbers (several when rounding decides)"""
    n = len(ac)
    out = []
    for k in range(1, n - 1):
        a, b = ac[k - 1] - ac[k], ac[k + 1] - ac[k]
        if min(a, b) > -1e-9:           # equal neighbours up to rounding: may or may not be a trough
            out.append(k)
            if min(a, b) > 1e-9:
                return out, True
    return out, False


def compare(r, S, dt, pre=None):
    bad = []
    n = len(S)
    D, ac = direct(S, dt)
    if not closes(r['rf'], S):
        bad.append(('rf', 'not the mean receiver function'))
    if not closes(r['autoc'], ac, 1e-7):
        k = int(np.argmax(np.abs(r['autoc'] - ac))) if np.shape(r['autoc']) == ac.shape else -1
        bad.append(('autoc', 'wrong at lag %d' % k))
        return bad
    cand, certain = trough(ac)
    lag, st = float(r['tlag']), float(r['r'])
    m = int(round(lag / dt)) if dt else 0
    if abs(m * dt - lag) > 1e-9 * (1 + abs(lag)):
        bad.append(('tlag', 'not a whole number of samples: %r' % lag))
    if m == 0 and st == 0:
        if certain:
            bad.append(('tlag', 'no trough reported, there is one at sample %d' % cand[-1]))
    else:
        if m not in cand:
            bad.append(('tlag', 'lag of sample %d, first trough at %r' % (m, cand[:3])))
        if not (0 <= m < n) or abs(st - abs(ac[m])) > 1e-7:
            bad.append(('r', 'strength %r at sample %d' % (st, m)))
    want = D + st * np.roll(D, m)
    if not closes(r['filteredrf'], want, 1e-7, np.max(np.abs(D))):
        bad.append(('filteredrf', 'differs from D + r*delayed D by up to %r (n=%d, m=%d)' % (
            np.max(np.abs(np.asarray(r['filteredrf']) - want)) if np.shape(r['filteredrf']) == want.shape else 'shape', n, m)))
    if np.iscomplexobj(r['filteredrf']):
        bad.append(('filteredrf', 'complex'))
    k = np.fft.fftfreq(n, 1. / n)
    Rr = 1 + st * np.exp(-2j * np.pi * k * m / n)
    if n % 2 == 0:
        Rr[n // 2] = 1 + st * np.exp(-1j * np.pi * m)
    if not closes(r['resonancefilter'], Rr, 1e-7):
        bad.append(('resonancefilter', 'frequency response differs from 1 + r exp(-i w lag)'))
    if abs(r['delta'] - dt) > 1e-12 * (1 + dt):
        bad.append(('delta', '%r, expected %r' % (r['delta'], dt)))
    return bad


def data(rng, n):
    kind = rng.pick('noise', 'sine', 'reverb', 'reverb', 'monotone', 'smooth', 'spike', 'gauss')
    d = rng.normal(n)
    if kind == 'reverb':
        m, r = rng.randint(2, max(3, n // 4)), rng.uniform(.2, .9)
        e = d.copy()
        for i in range(m, n):
            e[i] -= r * e[i - m]
        d = e
    elif kind == 'sine':
        d = np.sin(rng.uniform(0, 6) + rng.pick(rng.uniform(.2, 3.1), np.pi / rng.randint(1, 6)) * np.arange(n)) + rng.pick(1e-4, 1e-2) * d
    elif kind == 'monotone':      # short: often no trough in the autocorrelation
        d = np.sort(d)
    elif kind == 'smooth':
        d = np.cumsum(d)
    elif kind == 'spike':
        d = 1e-3 * d
        d[rng.randint(0, n - 1)] = 1
    elif kind == 'gauss':
        d = np.exp(-((np.arange(n) - n / 2.) / (n / rng.uniform(2, 12))) ** 2) + 1e-6 * d
    if rng.maybe(.05):
        return np.round(d * 10).astype(int)
    return d * rng.pick(1, 1, 1e-3, 50) + rng.pick(0, 0, 3.)


def length(rng):
    return rng.pick(count(rng, 20, 300, 1600), rng.randint(4, 20), 64, 65, 128, 101, rng.randint(3, 8))


def synthetic(ctx, share):
    from rfsed.SynthAnalysis import ResonanceFilt as RS
    from rfsed.ReverbFilter import ResonanceFilt as RD

    def syn(rng, i):
        n, dt = length(rng), rng.pick(.1, .05, .025, rng.uniform(.01, .5))
        t = dt * np.arange(n) - rng.uniform(0, 10)
        d = data(rng, n)
        ctx.inputs(d=d, t=t)
        r = RS(d, t)
        bad = compare(r, d, t[1] - t[0])
        if not close(r['time'], t):
            bad.append(('time', 'not the given time axis'))
        return bad
    ctx.loop('synthetic resonance filter', 25, 1200, syn, share)

    def both(rng, i):
        n, dt = length(rng), rng.pick(.1, .05, .25, .125)
        rf = make_rf(rng, n=1, npts=n, delta=dt)
        rf[0].data = data(rng, n)
        ctx.inputs(d=rf[0].data, dt=dt)
        cand, certain = trough(direct(rf[0].data, dt)[1])
        if len(cand) != certain:
            raise Skip          # rounding decides which trough is the first
        a = RD(rf, 0)
        b = RS(rf[0].data, a['time'])
        return [('%s' % k, 'synthetic and data analyses differ') for k in ('filteredrf', 'autoc', 'tlag', 'r', 'rf')
                if not closes(np.atleast_1d(b[k]), np.atleast_1d(a[k]), 1e-7)]
    ctx.loop('synthetic = data', 12, 600, both, share / 2)


def run(ctx):
    from rfsed.ReverbFilter import ResonanceFilt
    literals('ReverbFilter')

    def one(rng, i):
        n = length(rng)
        rf = make_rf(rng, npts=n)
        if rng.maybe(.8):
            b = data(rng, n)
            for tr in rf:
                tr.data = b.copy() if b.dtype == int else b + rng.pick(0, .1, .3) * rng.normal(n)
        if len(rf) > 1 and rng.maybe(.3):
            dt = rf[0].stats.delta
        pre = rng.pick(10, 5, 0, rng.uniform(0, 20))
        ctx.inputs(rf=describe(rf), preonset=pre)
        r = ResonanceFilt(rf, pre)
        m = np.mean(np.array([tr.data for tr in rf]), axis=0)
        bad = compare(r, m, rf[0].stats.delta)
        if not close(r['time'], np.arange(n) * rf[0].stats.delta - pre):
            bad.append(('time', 'not index*interval - preonset'))
        if r['staname'] != rf[0].stats.station:
            bad.append(('staname', repr(r['staname'])))
        return bad
    ctx.loop('resonance filter', 40, 5000, one, .7)
    synthetic(ctx, .2)
