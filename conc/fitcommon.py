"""inputs and comparison shared by the waveform-fit checks"""
import numpy as np
from conc.common import *
from spec import fit as F
from spec.hk import taxis

ORDER = ['rf', 'preonset', 'HSed', 'VpSed', 'VpCrust', 'rayp', 'KMoho', 'HMoho', 'gaussian']


def stream(rng):
    from rf import RFStream
    from rf.rfstream import RFTrace
    from obspy import UTCDateTime
    delta = rng.pick(0.2, 0.25, 0.5, 0.3, 0.125, rng.uniform(.12, .39))
    pre = rng.pick(5, 10, 2.5, 0, rng.uniform(0, 12), rng.uniform(0, 12))
    x = pre / delta % 1
    if abs(x - .5) < 1e-6 or abs(25 / delta % 1 - .5) < 1e-6:
        raise Skip
    npts = int((pre + rng.pick(rng.uniform(26, 40), rng.uniform(26, 40), rng.uniform(12, 24))) / delta) + 2
    comps = rng.pick('R', 'RR', 'RRR', 'RT', 'RTR', 'TR', 'ZRT', 'RRT', 'QRL', 'RQT', 'RT' * count(rng, 1, 3, 12), 'R' * count(rng, 2, 6, 12))
    st = []
    size = rng.pick(1e-3, 1e-5, 1e3) if rng.maybe(.1) else 1.
    for k, c in enumerate(comps):
        d = rng.normal(npts) * rng.pick(1., .1, 30.) * size
        if rng.maybe(.3):
            d = np.convolve(d, np.hanning(9) / 4., mode='same')[:npts]
        if rng.maybe(.15):
            d[int(pre / delta) + 3] = 0
        if rng.maybe(.15):
            q = int(pre / delta) + 5
            d[q:q + rng.randint(1, 30)] *= 10 ** rng.uniform(-14, -5)
        tr = RFTrace(data=d, header={'delta': delta, 'station': 'S%02d' % rng.randint(0, 99), 'network': 'XX', 'channel': 'BH' + c,
                                     'starttime': UTCDateTime(2010, 1, 1) + rng.randint(0, 10**6)})
        tr.stats.onset = tr.stats.starttime + pre
        tr.stats.slowness = 6.4
        st.append(tr)
    return RFStream(traces=st), pre, delta


def draw(rng, nmax=(3, 3)):
    rf, pre, delta = stream(rng)
    H = np.array([rng.uniform(20, 60) for _ in range(rng.randint(1, nmax[0]))])
    K = np.array([rng.uniform(1.6, 2.1) for _ in range(rng.randint(1, nmax[1]))])
    if rng.maybe(.5):
        H, K = np.sort(H), np.sort(K)
    if len(H) > 1 and rng.maybe(.1):
        H[rng.randint(1, len(H) - 1)] = H[0]
    if len(K) > 1 and rng.maybe(.1):
        K[rng.randint(1, len(K) - 1)] = K[0]
    return {'rf': rf, 'preonset': pre, 'HSed': rng.uniform(.2, 4.5), 'VpSed': rng.uniform(1.8, 4.2), 'VpCrust': rng.uniform(5.8, 6.9),
            'rayp': rng.uniform(.03, .078), 'KMoho': K, 'HMoho': H, 'gaussian': rng.pick(1.25, 1.0, 2.5, rng.uniform(.6, 3))}


class Abstract:
    """the expensive callees (forward modelling, iterative deconvolution, phase fit) replaced by cheap smooth functions of all their
    arguments, for the analysis and for its specification alike; what fails with them is run again with the real ones"""

    def __enter__(self):
        import inspect
        import rfsed.synrf as R
        import rfsed.WaveformFitting as W
        import rfsed.WaveformFittingMultiproc as M
        self.old = []

        def put(mod, name, f):
            real = getattr(mod, name, None)
            if callable(real):
                try:
                    sig = inspect.signature(real)
                except (TypeError, ValueError):
                    return
                self.old.append((mod, name, real))
                setattr(mod, name, lambda *a, **kw: f(bound(sig, a, kw)))
        if list(inspect.signature(R.fwd_seis).parameters) == ['rayp', 'dt', 'npts', 'ipha', 'alpha', 'beta', 'rho', 'h']:
            put(R, 'fwd_seis', pseudo_seis)
        if set(inspect.signature(R.deconv_iterative).parameters) >= {'uin', 'win', 'dt', 'preonset', 'gaussian', 'itmax', 'minderr', 'phase'}:
            put(R, 'deconv_iterative', pseudo_decon)
        for m in (W, M, F):
            put(m, 'pg', pseudo_pg)
        return self

    def __exit__(self, *e):
        for m, n, f in self.old:
            setattr(m, n, f)


def bound(sig, a, kw):
    b = sig.bind(*a, **kw)
    b.apply_defaults()
    return b.arguments


def pseudo_seis(p):
    n, k = int(p['npts']), np.arange(int(p['npts']))
    out = []
    for c in (1., 2.):
        x = 3. * p['rayp'] + 5. * p['dt'] + .7 * p['ipha'] + sum(np.dot(np.asarray(p[q], dtype=float), (w + c) * np.arange(1, len(p[q]) + 1) ** .5)
                                                                  for q, w in (('alpha', .3), ('beta', .5), ('rho', .2), ('h', .11)))
        out.append(np.sin(.05 * k * c + x) + np.sin(.31 * k + 2 * x) * c + .3 * np.cos(.77 * k - x))
    return out


def pseudo_decon(p):
    u, w = np.asarray(p['uin'], dtype=float), np.asarray(p['win'], dtype=float)
    k = np.arange(len(u))
    x = p['preonset'] + 2 * p['gaussian'] + .01 * p['itmax'] + p['minderr'] + (0 if p['phase'] == 'P' else 1)
    rf = .3 * u * np.cos(.1 * k + x) - .2 * w[::-1] + .5 * np.roll(u, 3) + p['dt'] * np.sin(.4 * k - x)
    return rf, np.array([1.]), 1


def pseudo_pg(p):
    p = list(p.values())
    a, b = np.asarray(p[0], dtype=float), np.asarray(p[1], dtype=float)
    x = sum(float(v) * (k + 1) for k, v in enumerate(p[2:]) if isinstance(v, (bool, int, float, np.generic)))
    k = np.arange(len(a))
    return 5 + np.sin(.1 * x) + 2 * np.dot(a, np.cos(.3 * k)) / len(a) + np.dot(b, np.sin(.7 * np.arange(len(b)) + 1)) / len(b)


def abstractly(rng, body, p=.75):
    """body() -> failures, mostly with the stand-ins first"""
    if rng.maybe(p):
        try:
            with Abstract():
                bad = body()
        except Skip:
            raise
        except Exception as e:
            bad = [('exception', repr(e))]
        if not bad:
            return []
    return body()


def report(a):
    return {k: describe(v) if k == 'rf' else v for k, v in a.items()}


def wobble(a):
    b = dict(a)
    for k in ('VpSed', 'VpCrust', 'rayp', 'HSed', 'gaussian'):
        b[k] = a[k] * (1 + 3e-14)
    return b


def same_rows(name, got, spec, a, cols):
    """spec(a): rows; deviations explained by rounding (the rows react equally to a change of the last digits) are accepted"""
    got, want = np.asarray(got, dtype=float), np.asarray(spec(a), dtype=float)
    if got.shape != want.shape:
        return [(name, 'shape %r, specified %r' % (got.shape, want.shape))]
    g, w = got.reshape(-1, got.shape[-1]), want.reshape(-1, want.shape[-1])
    if not (np.isfinite(w).all()):
        raise Skip
    sc = 1e-3 + np.max(np.abs(w), axis=0)
    if (np.abs(g - w) <= 1e-7 * sc).all():
        return []
    w2 = np.asarray(spec(wobble(a)), dtype=float).reshape(w.shape)
    tol = 1e-7 * sc + 30 * np.abs(w2 - w) + 30 * np.max(np.abs(w2 - w), axis=0) * np.array([c == 'score' for c in cols])
    if (np.abs(g - w) <= tol).all():
        return []
    i, j = np.unravel_index(int(np.argmax(np.where(np.isnan(g), np.inf, np.abs(g - w) / tol))), g.shape)
    return [(name, 'row %d (H=%r, K=%r): %s %r, specified %r' % (i, w[i, -2], w[i, -1], cols[j], g[i, j], w[i, j]))]
