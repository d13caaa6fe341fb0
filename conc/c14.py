from conc.common import *
from spec import syn as S

RULE = ('one call of a filter primitive on random traces compared with the executable specification and with a direct time-domain '
        'computation; non-trivial: distinct random inputs')


def size(rng):
    return rng.pick(4, 8, 16, 32, 64, 128, 2, 6, 10, 12, 20, 50, 100, 256, 30, 2 * count(rng, 1, 128, 1100))


def direct_spectrum(dt, n, a):
    k = np.arange(n)
    f = np.where(k <= n // 2, k, k - n) / (n * dt)
    return np.exp(-(2 * np.pi * f) ** 2 / (4. * a * a)) / dt


def run(ctx):
    from rfsed.synrf import gaussFilter, gfilter, correl, phaseshift
    literals('synrf')

    def gauss(rng, i):
        n, dt, a = size(rng), rng.pick(.1, .05, .025, 1., rng.uniform(.01, .5)), rng.pick(1.25, 2., 2.5, rng.uniform(.3, 8), 1, 5)
        ctx.inputs(n=n, dt=dt, a=a)
        g = gaussFilter(dt, n, a)
        w = direct_spectrum(dt, n, a)
        bad = []
        if np.shape(g) != (n,) or not closes(g, w, 1e-9):
            bad.append(('gaussFilter', 'shape %r, largest difference at %r' % (np.shape(g), int(np.argmax(np.abs(g - w))) if np.shape(g) == w.shape else None)))
            return bad
        x, y = rng.normal(n), rng.normal(n)
        c = rng.uniform(-3, 3)
        X = gfilter(x, n, g, dt)
        ref = np.real(np.fft.ifft(np.fft.fft(x) * w * dt))
        if np.iscomplexobj(X) or not closes(X, ref, 1e-9, np.max(np.abs(x))):
            bad.append(('gfilter', 'differs from the filtered trace'))
        im = np.max(np.abs(np.imag(np.fft.ifft(np.fft.fft(x) * g * dt))))
        if im > 1e-9 * (1 + np.max(np.abs(x))):
            bad.append(('gaussFilter', 'filtering a real trace is not real: %r' % im))
        if not closes(gfilter(x + c * y, n, g, dt), X + c * gfilter(y, n, g, dt), 1e-8, np.max(np.abs(x)) + 3 * np.max(np.abs(y))):
            bad.append(('gfilter', 'not linear'))
        if abs(np.sum(X) - np.sum(x)) > 1e-8 * (1 + np.sum(np.abs(x))):
            bad.append(('gfilter', 'gain at zero frequency is not 1'))
        k = rng.randint(1, n)
        if not closes(gfilter(x[:k], n, g, dt), gfilter(np.where(np.arange(n) < k, x, 0.), n, g, dt), 1e-8, np.max(np.abs(x))):
            bad.append(('gfilter', 'a shorter trace is not padded with zeros'))
        m = rng.randint(0, n - 1)
        if not closes(gfilter(np.roll(x, m), n, g, dt), np.roll(X, m), 1e-8, np.max(np.abs(x))):
            bad.append(('gfilter', 'does not commute with delays'))
        return bad
    ctx.loop('gaussFilter and gfilter', 60, 3000, gauss, .35)

    def delay(rng, i):
        n, dt = size(rng), rng.pick(.1, .05, .025, 1., rng.uniform(.01, .5))
        m = rng.pick(rng.randint(0, n), rng.randint(-n, 3 * n), rng.randint(-4 * n, 9 * n), n // 4, 3 * n // 4, n // 2, n, 0)
        sh = m * dt if rng.maybe(.5) else (m + rng.uniform(-.49, .49)) * dt
        if rng.maybe(.3):
            sh = rng.pick(10, 5, 7.5, 0.0, 2)
            m = sh / dt
            if abs(m - np.floor(m) - .5) < 1e-6:
                raise Skip
            m = int(np.floor(m + .5))
        x = rng.normal(n)
        if rng.maybe(.3):
            x = np.zeros(n)
            x[rng.randint(0, n - 1)] = 1
        ctx.inputs(n=n, dt=dt, shift=sh, x=x)
        if rng.maybe(.1):
            x = np.round(5 * x).astype(int)
        y = phaseshift(x, n, dt, sh)
        if np.iscomplexobj(y) or not closes(y, np.roll(x, m), 1e-9):
            return [('phaseshift', 'not the circular delay by %d of %d samples: largest difference %r' % (m, n, np.max(np.abs(y - np.roll(x, m)))))]
        return []
    ctx.loop('phaseshift', 80, 4000, delay, .35)

    def corr(rng, i):
        n = size(rng)
        x, y = rng.normal(n), rng.normal(n)
        if rng.maybe(.2):
            y = x.copy()
        if rng.maybe(.25):      # zero-padded to the transform length
            x = x[:rng.randint(1, n)] + rng.pick(0, 2.)
        if rng.maybe(.25):
            y = y[:rng.randint(1, n)] + rng.pick(0, 2.)
        ctx.inputs(n=n, x=x, y=y)
        if rng.maybe(.1):       # one array passed twice
            y = x
        c = correl(x, y, n)
        x, y = np.concatenate([x, np.zeros(n - len(x))]), np.concatenate([y, np.zeros(n - len(y))])
        w = np.array([np.dot(np.roll(x, -k), y) for k in range(n)])
        if np.iscomplexobj(c) or not closes(c, w, 1e-9):
            return [('correl', 'lag %d' % int(np.argmax(np.abs(c - w))))]
        return []
    ctx.loop('correl', 60, 3000, corr, .2)
