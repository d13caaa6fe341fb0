"""inputs and comparison shared by the H-K checks"""
import numpy as np
from spec import hk as S
from conc.common import count, close, make_rf, describe

MODE = [0]


def near(d, t, x):
    """nearest sample; when two samples are equally near up to rounding, MODE chooses which one"""
    a = np.abs(np.asarray(t) - x)
    i = int(np.argmin(a))
    if MODE[0]:
        tol = 1e-9 * (1 + abs(x))
        c = [j for j in (i - 1, i, i + 1) if 0 <= j < len(a) and a[j] - a[i] <= tol]
        i = c[0] if MODE[0] < 0 else c[-1]
    return d[i]


S.near = near


def same_surface(name, got, spec):
    """spec(): surface under the current tie mode"""
    bad = []
    got = np.asarray(got)
    MODE[0] = 0
    want = spec()
    if got.shape != want.shape:
        return [(name, 'shape %r, specified %r' % (got.shape, want.shape))]
    if not close(got[:, :2], want[:, :2]):
        i = int(np.argmax(np.any(np.abs(got[:, :2] - want[:, :2]) > 1e-9, axis=1)))
        return [(name, 'row %d is for node %r, specified %r' % (i, got[i, :2].tolist(), want[i, :2].tolist()))]
    sc = float(np.max(np.abs(want[:, 2]))) if len(want) else 0.0
    ok = np.abs(got[:, 2] - want[:, 2]) <= 1e-9 * (1e-3 + sc)
    if not ok.all():
        for mode in (-1, 1):
            MODE[0] = mode
            w2 = spec()
            ok = ok | (np.abs(got[:, 2] - w2[:, 2]) <= 1e-9 * (1e-3 + sc))
        MODE[0] = 0
    if not ok.all():
        i = int(np.argmin(ok))
        bad.append((name, 'node (H=%r, K=%r): value %r, specified %r' % (got[i, 0], got[i, 1], got[i, 2], want[i, 2])))
    return bad


def same_keys(name, got, want, keys):
    bad = []
    for k in keys:
        if k not in got:
            bad.append(('%s[%s]' % (name, k), 'missing'))
            continue
        g, w = got[k], want[k]
        if isinstance(w, str) or w is None:
            ok = g == w
        elif isinstance(w, (bool, np.bool_)):
            ok = bool(g) == bool(w)
        elif hasattr(w, 'traces'):
            ok = hasattr(g, 'traces') and len(g) == len(w) and all(close(a.data, b.data) for a, b in zip(g, w))
        else:
            ok = close(np.asarray(g, dtype=float), np.asarray(w, dtype=float))
        if not ok:
            bad.append(('%s[%s]' % (name, k), 'value %s, specified %s' % (short(g), short(w))))
    return bad


def short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + '...'


def is_best(name, rows, bm):
    rows, bm = np.asarray(rows), np.asarray(bm)
    i = int(np.argmax(rows[:, 2]))
    if bm.shape != (3,) or not all(bm == rows[i]):
        j = [k for k in range(len(rows)) if rows[k, 2] == rows[i, 2]]
        return [(name, 'reported %s, first row with the largest value is %s (row %d of %d, %d ties)' % (bm.tolist(), rows[i].tolist(), i, len(rows), len(j)))]
    return []


def grids(rng, lo=15, hi=60, small=False):
    nH, nK = rng.randint(2, 6), rng.randint(2, 5)
    if rng.maybe(.1):
        nH, nK = rng.randint(8, 14), rng.randint(2, 3)
    kind = rng.pick('lin', 'lin', 'random', 'int', 'reversed', 'wide')
    if rng.maybe(.06):
        nH, nK = rng.pick((count(rng, 6, 10, 60, .7), 2), (2, count(rng, 6, 10, 60, .7)))
        kind = rng.pick(kind, 'reversed')
    if kind == 'lin':
        H = np.linspace(rng.uniform(lo, lo + 5), rng.uniform(hi - 10, hi), nH)
    elif kind == 'random':
        H = np.sort(np.array([rng.uniform(lo, hi) for _ in range(nH)]))
    elif kind == 'int':
        H = np.arange(int(lo), int(lo) + nH)
    elif kind == 'reversed':
        H = np.linspace(hi, lo, nH)
    else:
        H = np.linspace(0.0, 4 * hi, nH)
    K = rng.pick(np.linspace(1.6, 2.1, nK), np.sort(np.array([rng.uniform(1.5, 2.5) for _ in range(nK)])), np.linspace(2.0, 1.7, nK))
    if np.ptp(K) < .01 or np.ptp(H) < .1:
        return grids(rng, lo, hi)
    if rng.maybe(.12):                     # searched in no particular order
        H = np.array(sorted(H, key=lambda _: rng.random()))
    if rng.maybe(.08):
        K = np.array(sorted(K, key=lambda _: rng.random()))
    if rng.maybe(.05) and len(H) > 3:      # a depth or ratio searched twice
        H = np.insert(H, rng.randint(0, len(H)), H[rng.randint(0, len(H) - 1)])
    if rng.maybe(.04) and len(K) > 3:
        K = np.insert(K, rng.randint(0, len(K)), K[rng.randint(0, len(K) - 1)])
    return H, K


def weight(rng):
    return rng.pick(rng.uniform(0, 1), rng.uniform(0, 1), 0.6, 0.3, 0.1, 0.0, 1, rng.uniform(-1, 1), rng.uniform(1, 5))


def wts(rng, none):
    return [None if none and rng.maybe(.4) else weight(rng) for _ in range(3)]


def preonset(rng):
    return rng.pick(10, 5, 0, rng.uniform(0, 20), 7.5, rng.uniform(0, 20), rng.uniform(*rng.pick((0, 20), (-3, 0))))
