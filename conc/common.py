"""Run-time contract checking of the real code (executed by the repository's own interpreter).

Everything random comes from one seed.  A case is one call history on generated inputs, compared with the
executable specifications of /verif/spec or with an independent oracle."""
import contextlib
import hashlib
import io
import json
import os
import random
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
import numpy as np

np.seterr(all='ignore')


class Ctx:
    def __init__(self, prop, seed, shard, tier, budget, only=None):
        self.prop, self.seed, self.shard, self.tier, self.budget = prop, seed, shard, tier, budget
        self.t0 = time.time()
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.violations = []
        self.skipped = 0
        self.n = 0
        self.only = only
        self.groups = {}

    def left(self):
        return self.budget - (time.time() - self.t0)

    def rng(self, *tag):
        """generator for one case"""
        h = hashlib.sha256(repr((self.prop, self.seed, self.shard) + tag).encode()).digest()
        s = int.from_bytes(h[:4], 'big')
        return Rng(s)

    def loop(self, name, nmin, nmax, f, share=1.0):
        """run f(rng, i) for i = 0.. : at least nmin cases, at most nmax, while the budget share lasts"""
        t0 = time.time()
        lim = self.budget * share
        if self.only:
            if self.only.rsplit('/', 1)[0] != name:
                return
            nmin = nmax
        for i in range(nmax):
            if i >= nmin and (time.time() - t0 > lim or self.left() < 0):
                break
            if time.time() - self.t0 > self.budget * 2.5 and not self.only:
                break
            if self.only and (name, i) > (self.only.rsplit('/', 1)[0], int(self.only.rsplit('/', 1)[1])):
                break
            self.one(name, i, f)
            if self.only and '%s/%d' % (name, i) != self.only:
                self.violations = []        # an earlier case of the same history
            if len(self.violations) >= 6:
                break

    def one(self, name, i, f):
        rng = self.rng(name, i)
        self.cur = {}
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                bad = f(rng, i)
        except Skip:
            self.skipped += 1
            return
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            here = [x for x in tb if '/rfsed/' in x.filename and '/verif/' not in x.filename]
            if not here:
                raise
            bad = [('exception', '%s: %s at %s:%d' % (type(e).__name__, str(e)[:200], os.path.basename(here[-1].filename), here[-1].lineno))]
        self.evals += 1
        g = self.groups.setdefault(name, [0, 0])
        g[0] += 1
        key = hashlib.sha256(repr(self.cur).encode()).hexdigest()
        if key not in self.keys:
            self.keys.add(key)
            g[1] += 1
            if len(self.samples) < 3 or (len(self.samples) < 10 and g[1] == 1):
                self.samples.append({'case': '%s/%d' % (name, i), 'inputs': shorten(self.cur)})
        if bad:
            self.violations.append({'case': '%s/%d' % (name, i), 'shard': self.shard, 'seed': self.seed,
                                    'key': name + ':' + str(bad[0][0]),
                                    'failed': [[str(a), str(b)[:800]] for a, b in bad[:8]], 'inputs': shorten(self.cur, 4000)})

    def inputs(self, **kw):
        """describe the inputs of the current case"""
        self.cur.update(kw)

    def result(self):
        return {'evaluations': self.evals, 'distinct_nontrivial': len(self.keys), 'samples': self.samples,
                'violations': self.violations, 'skipped': self.skipped, 'groups': self.groups,
                'wall_s': round(time.time() - self.t0, 1)}


class Skip(Exception):
    """inputs outside the precondition"""


def shorten(d, lim=600):
    out = {}
    for k, v in d.items():
        s = repr(v.tolist() if isinstance(v, np.ndarray) else v)
        out[k] = s if len(s) <= lim else s[:lim] + '... (sha256 %s)' % hashlib.sha256(s.encode()).hexdigest()[:16]
    return out


LITS = []          # numbers written in the source under check, offered as inputs now and then


def literals(*mods):
    import ast
    out = set()
    for m in mods:
        try:
            t = ast.parse(open('/repo/src/rfsed/%s.py' % m).read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                out.add(n.value)
    LITS[:] = sorted(out)


class Rng(random.Random):
    def uniform(self, a, b):
        if LITS and self.random() < .05:
            c = [x for x in LITS if a <= x <= b]
            if c:
                return float(self.choice(c))
        return random.Random.uniform(self, a, b)

    def randint(self, a, b):
        if LITS and self.random() < .05:
            c = [int(x) + d for x in LITS for d in (-1, 0, 1) if x == int(x) and a <= x + d <= b]
            if c:
                return self.choice(c)
        return random.Random.randint(self, a, b)

    def normal(self, *shape):
        n = 1
        for s in shape:
            n *= s
        a = np.array([self.gauss(0, 1) for _ in range(n)])
        return a.reshape(shape)

    def pick(self, *xs):
        return self.choice(xs)

    def maybe(self, p=0.5):
        return self.random() < p


def count(rng, lo, hi, cap, p=.08):
    """how many: mostly lo..hi, now and then more (up to cap) or next to a number written in the source under check"""
    if rng.random() > p:
        return random.Random.randint(rng, lo, hi)
    c = [int(x) + d for x in LITS for d in (0, 1, 2) if x == int(x) and hi < x + d <= cap]
    if c and rng.maybe(.6):
        return rng.choice(c)
    return random.Random.randint(rng, hi, cap)


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))))


def closes(a, b, rtol=1e-8, scale=0.):
    """equal relative to the largest entry, or to the scale of the intermediate values (results of transforms)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    m = max(float(np.max(np.abs(b))), float(np.max(np.abs(a))), scale, 1e-300)
    return bool(np.max(np.abs(a - b)) <= rtol * m)


# ---------------------------------------------------------------- snapshots (frame conditions)
def snap(x):
    """deep, comparable copy of a value"""
    if isinstance(x, np.ndarray):
        return ('a', str(x.dtype), x.shape, x.tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, dict):
        return ('d', tuple((k, snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    if hasattr(x, 'traces'):
        return ('st', tuple(snap(t) for t in x.traces))
    if hasattr(x, 'stats') and hasattr(x, 'data'):
        return ('tr', id(x), snap(x.data), tuple(sorted((k, stat(v)) for k, v in dict(x.stats).items())))
    if isinstance(x, (int, float, complex, str, bool, type(None), np.generic)):
        return ('v', repr(x))
    return ('o', type(x).__name__)


def stat(v):
    if isinstance(v, np.ndarray):
        return snap(v)
    return repr(v)


def diff(a, b, path='', allow=()):
    """first difference between two snapshots, or None; allow: header fields that may be added or changed"""
    if a == b:
        return None
    if type(a) is not type(b) or a[0] != b[0]:
        return path + ': changed kind'
    k = a[0]
    if k == 'd':
        da, db = dict(a[1]), dict(b[1])
        for q in da:
            if q not in db:
                return '%s[%s] removed' % (path, q)
            r = diff(da[q], db[q], '%s[%s]' % (path, q), allow)
            if r:
                return r
        for q in db:
            if q not in da:
                return '%s[%s] added' % (path, q)
        return None if [x[0] for x in a[1]] == [x[0] for x in b[1]] else None
    if k in ('list', 'tuple', 'st'):
        if len(a[1]) != len(b[1]):
            return path + ': length changed'
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = diff(x, y, '%s[%d]' % (path, i), allow)
            if r:
                return r
        return None
    if k == 'tr':
        if a[1] != b[1]:
            return path + ': different trace object'
        r = diff(a[2], b[2], path + '.data', allow)
        if r:
            return r
        ha, hb = dict(a[3]), dict(b[3])
        for q in set(ha) | set(hb):
            if q in allow:
                continue
            if ha.get(q) != hb.get(q):
                return '%s.stats.%s: %s -> %s' % (path, q, ha.get(q), hb.get(q))
        return None
    return path + ': changed'


# ---------------------------------------------------------------- receiver functions
def make_rf(rng, n=None, npts=None, delta=None, same_id=None, slow=None, scale=1.0, kind=None):
    """RFStream of n radial receiver functions"""
    from rf import RFStream
    from rf.rfstream import RFTrace
    from obspy import UTCDateTime
    n = n or count(rng, *rng.pick((1, 2), (2, 3), (3, 5)), 24)
    npts = npts or count(rng, 60, 260, 900)
    delta = delta or rng.pick(0.1, 0.05, 0.25, 0.125, 0.2, 0.04, 1 / 3., rng.uniform(.03, .4))
    kind = kind or rng.pick('normal', 'normal', 'smooth', 'negative', 'mixed', 'int-valued')
    if rng.maybe(.1):
        scale = scale * rng.pick(1e-3, 1e-4, 1e-6, 1e3)
    wide = rng.maybe(.25)       # slownesses, back-azimuths and distances outside the usual ranges
    st = []
    sta = 'S%02d' % rng.randint(0, 99)
    one = rng.maybe(.6) if same_id is None else same_id
    for k in range(n):
        d = rng.normal(npts) * scale
        if kind == 'smooth':
            d = np.convolve(d, np.hanning(9) / 4., mode='same')[:npts]
        elif kind == 'negative':
            d = -np.abs(d)
        elif kind == 'int-valued':
            d = np.round(2 * d)
        elif kind == 'mixed':
            d = d * rng.uniform(.1, 10) + rng.uniform(-1, 1)
        odd = rng.random()
        if odd < .02:
            d = np.zeros(npts)
        elif odd < .06 and st:
            d = np.array(st[-1].data) * rng.pick(1, 1, -1)
        elif odd < .08:
            d = d * 100
        tr = RFTrace(data=np.array(d, dtype=float), header={'delta': delta, 'station': sta if one else 'S%02d' % rng.randint(0, 99),
                     'network': 'XX', 'channel': 'BHR' if one else rng.pick('BHR', 'HHR', 'BHQ'),
                     'starttime': UTCDateTime(2010, 1, 1) + rng.randint(0, 10**6)})
        if kind == 'int-valued' and rng.maybe(.5):
            tr.data = tr.data.astype(int)
        tr.stats.slowness = slow[k] if slow else rng.uniform(0, 13) if wide else rng.pick(rng.uniform(4., 8.9), rng.uniform(4., 8.9), 6.4, 0.0)
        tr.stats.onset = tr.stats.starttime + rng.randint(1, 10)
        tr.stats.back_azimuth = rng.pick(rng.uniform(-180, 0), rng.uniform(360, 400), 360., 0.) if wide else rng.uniform(0, 360)
        tr.stats.distance = rng.uniform(0, 180) if wide else rng.uniform(30, 90)
        st.append(tr)
    return RFStream(traces=st)


def describe(rf):
    return [(tr.id, tr.stats.delta, tr.stats.slowness, tr.data.tolist()) for tr in rf]


HINTS = []         # scalar values of the verifier's counterexamples, replayed here


def hinted(rng, args):
    """overwrite scalar arguments by the values of a counterexample"""
    if HINTS and rng.maybe(.8):
        h = rng.choice(HINTS)
        for k, v in args.items():
            if h.get(k + '.none') is True and rng.maybe(.8):
                args[k] = None
            elif k in h and isinstance(v, (int, float, bool, type(None))) and rng.maybe(.8):
                args[k] = h[k]
    return args


class Again:
    """histories: now and then a case repeats the previous arguments with one of them replaced"""

    def __init__(self, p=.3):
        self.p, self.last = p, None

    def __call__(self, rng, new, keys=None):
        """new: dict of freshly drawn arguments"""
        if self.last is not None and rng.maybe(self.p):
            k = rng.choice(sorted(keys or new))
            a = dict(self.last)
            for q in k if isinstance(k, tuple) else (k,):
                a[q] = new[q]
            new = a
        hinted(rng, new)
        self.last = new
        return new
