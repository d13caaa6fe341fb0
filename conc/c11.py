from conc.common import *
from spec import syn as S

RULE = ('one evaluation of the layer matrices, the response or the seismograms of a random medium, compared with the independent '
        'formulas and with the algebraic laws; non-trivial: distinct random media')


def medium(rng, n):
    b = [rng.uniform(.4, 4.8) for _ in range(n)]
    a = [x * rng.uniform(1.5, 3) for x in b]
    r = [rng.uniform(1.5, 3.5) for _ in range(n)]
    h = [rng.pick(rng.uniform(.1, 40), rng.uniform(.1, 3)) for _ in range(n)]
    if rng.maybe(.15):
        h[rng.randint(0, n - 1)] = 10 ** rng.uniform(-5, -1)
    for i in range(1, n):       # neighbours sharing some of their properties
        if rng.maybe(.25):
            for q in rng.sample([0, 1, 2], rng.randint(1, 2)):
                (a, r, h)[q][i] = (a, r, h)[q][i - 1]
        if rng.maybe(.1) and b[i - 1] < a[i] / 1.45:
            b[i] = b[i - 1]
        if b[i] > a[i] / 1.45:
            b[i] = a[i] / rng.uniform(1.5, 3)
    p = rng.pick(rng.uniform(0, .95 / max(a)), rng.uniform(0, .08), 0.04, 0.)
    if p >= .97 / max(a):
        p = .5 / max(a)
    return np.array(a), np.array(b), np.array(r), np.array(h), p


def rel(x, y):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return np.inf
    return float(np.max(np.abs(x - y)) / (np.max(np.abs(y)) + 1e-300))


def response(om, p, a, b, r, h, ipha):
    n = len(a)
    # half-space matrix: rows of the up- and down-going P and S waves
    al, be, rho = a[-1], b[-1], r[-1]
    xi, eta = S.slow(al, p), S.slow(be, p)
    g = 1 - 2 * be ** 2 * p ** 2
    down = np.array([[be ** 2 * p / al, -g / (2 * al * xi), 1j * p / (2 * om * rho * al * xi), -1j / (2 * om * rho * al)],
                     [g / (2 * be * eta), be * p, 1j / (2 * om * rho * be), 1j * p / (2 * om * rho * be * eta)]])
    M = np.eye(4)
    if n > 1:
        for i in range(n):
            M = S.layer(om, r[i], a[i], b[i], p, h[i]) @ M
    s = down @ M
    A = s[:, :2]
    # unit incident P (ipha >= 0) or S: A (ur, -uz) = unit vector
    v = np.linalg.solve(A, np.array([1., 0]) if ipha >= 0 else np.array([0., 1.]))
    return v[0], v[1], np.linalg.cond(A)


def run(ctx):
    import rfsed.synrf as R
    literals('synrf')

    def layers(rng, i):
        a, b, r, h, p = medium(rng, 1)
        a, b, r, h = a[0], b[0], r[0], h[0]
        om = rng.pick(rng.uniform(.01, 1), rng.uniform(.1, 10))
        z1, z2 = rng.uniform(0, 10), rng.pick(rng.uniform(0, 10), 0)
        ctx.inputs(a=a, b=b, rho=r, p=p, omega=om, z1=z1, z2=z2)
        P = lambda z: R.propagator_sol(om, r, a, b, p, z)
        bad = []
        if np.max(np.abs(P(0) - np.eye(4))) > 1e-12:
            bad.append(('propagator_sol', 'not the identity at zero thickness'))
        Q = P(z1 + z2)
        if rel(P(z2) @ P(z1), Q) > 1e-9:
            bad.append(('propagator_sol', 'not multiplicative: %r' % rel(P(z2) @ P(z1), Q)))
        w = S.layer(om, r, a, b, p, z1 + z2)
        if np.max(np.abs(Q - w) / (1e-9 * np.max(np.abs(w)) + np.abs(w))) > 1e-6:
            k = np.unravel_index(np.argmax(np.abs(Q - w)), (4, 4))
            bad.append(('propagator_sol', 'entry %r is %r, specified %r' % (k, Q[k], w[k])))
        E = R.e_inverse(om, r, a, b, p)
        xi, eta = S.slow(a, p), S.slow(b, p)
        ph = np.exp(1j * om * z1 * np.array([xi, eta, -xi, -eta]))
        L, Rr = E @ P(z1), ph[:, None] * E
        d = np.abs(L - Rr) / (np.max(np.abs(Rr), axis=1)[:, None] + 1e-300)
        if np.max(d) > 1e-7:
            bad.append(('e_inverse', 'rows are not up- and down-going waves of the medium (row %d)' % int(np.argmax(np.max(d, axis=1)))))
        return bad
    ctx.loop('layer matrices', 60, 3000, layers, .25)

    def resp(rng, i):
        n = count(rng, *rng.pick((1, 2), (2, 3), (3, 7)), 16)
        a, b, r, h, p = medium(rng, n)
        om, ip = rng.uniform(.05, 4), rng.pick(1, 1, 0, -1)
        ctx.inputs(a=a, b=b, rho=r, h=h, p=p, omega=om, ipha=ip)
        ur, uz = R.haskell(om, p, n, ip, a, b, r, h)
        wr, wz, c = response(om, p, a, b, r, h, ip)
        if c > 1e6:
            raise Skip
        e = max(abs(ur - wr), abs(uz - wz)) / max(abs(wr), abs(wz))
        return [('haskell', 'response %r, %r, specified %r, %r' % (ur, uz, wr, wz))] if e > 1e-7 else []
    ctx.loop('free-surface response', 50, 3000, resp, .25)

    def seis(rng, i):
        n = count(rng, *rng.pick((2, 2), (2, 4)), 12)
        a, b, r, h, p = medium(rng, n)
        npts, dt, ip = rng.pick(16, 20, 33, 64, count(rng, 8, 40, 260)), rng.pick(.1, .05, .25), rng.pick(1, 1, 0, -1)
        ctx.inputs(a=a, b=b, rho=r, h=h, p=p, npts=npts, dt=dt, ipha=ip)
        ur, uz = R.fwd_seis(p, dt, npts, ip, a, b, r, h)
        N = S.next_pow_2(npts)
        FR, FZ = np.zeros(N, complex), np.zeros(N, complex)
        for k in range(1, N // 2 + 1):
            x, y, c = response(2 * np.pi * k / (N * dt), p, a, b, r, h, ip)
            if c > 1e6:
                raise Skip
            FR[k], FZ[k] = x, y
        wr, wz = np.real(np.fft.ifft(FR))[::-1][:npts] / N, -np.real(np.fft.ifft(FZ))[::-1][:npts] / N
        bad = []
        for nm, g, w in (('radial', ur, wr), ('vertical', uz, wz)):
            if np.shape(g) != (npts,) or np.iscomplexobj(g) or rel(g, w) > 1e-6:
                bad.append(('fwd_seis', '%s seismogram differs (%r)' % (nm, rel(g, w))))
        # split one layer (or join two equal ones)
        k = rng.randint(0, n - 1)
        f = rng.uniform(.05, .95)
        ins = lambda x: np.insert(x, k, x[k])
        h2 = ins(h)
        h2[k], h2[k + 1] = f * h[k], (1 - f) * h[k]
        vr, vz = R.fwd_seis(p, dt, npts, ip, ins(a), ins(b), ins(r), h2)
        if max(rel(vr, ur), rel(vz, uz)) > 1e-6:
            bad.append(('fwd_seis', 'splitting layer %d of %d changes the seismograms (%r)' % (k, n, max(rel(vr, ur), rel(vz, uz)))))
        return bad
    ctx.loop('seismograms and splitting', 25, 1500, seis, .45)
