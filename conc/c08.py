import copy
import os
from conc.fitcommon import *

RULE = ('one preparation, one-depth or parallel fit of random receiver functions: preparation against the specification, one-depth and parallel '
        'results against the sequential analysis of the same inputs; earlier depths are made slower so that completion order differs from '
        'the order of depths; non-trivial: distinct random inputs')


class Slow:
    """constructing the model of the first depths takes longest (completion order differs from submission order)"""

    def __init__(self, H, how):
        self.hold = {round(float(h), 9): how * (len(H) - k) for k, h in enumerate(H)}

    def __enter__(self):
        from rfsed.synrf import synrf
        self.cls, self.old = synrf, synrf.__init__
        hold, old = self.hold, synrf.__init__

        def init(s, *a, **kw):
            try:
                time.sleep(hold.get(round(float(np.ravel(a[0])[1]), 9), 0))
            except (IndexError, TypeError, ValueError):
                pass
            return old(s, *a, **kw)
        synrf.__init__ = init

    def __exit__(self, *e):
        self.cls.__init__ = self.old


def run(ctx):
    import rfsed.WaveformFittingMultiproc as M
    from rfsed.WaveformFitting import WaveformFitting
    literals('WaveformFittingMultiproc')

    def prep(a):
        return M.WaveformPara(*[a[k] for k in ORDER])

    def sequential(a):
        s = WaveformFitting(*([a[k] for k in ORDER] + [.4, .4, .2, '/nowhere', 'png']))['WaveformSolutions']
        nK, nH = len(a['KMoho']), len(a['HMoho'])
        return np.asarray(s)[:, [0, 1, 2, 4, 5]].reshape(nK, nH, 5).transpose(1, 0, 2)
    COLS = ['correlation', 'error', 'phase fit', 'depth', 'Vp/Vs']

    def preparation(rng, i):
        a = draw(rng)
        ctx.inputs(**report(a))
        r = prep(a)
        if len(r) != 1:
            return [('WaveformPara', '%d parameter sets' % len(r))]
        r, w = r[0], F.prepared(*[a[k] for k in ORDER])
        bad = []
        for k, v in w.items():
            if k not in r:
                bad.append(('WaveformPara[%s]' % k, 'missing'))
            elif isinstance(v, str):
                bad += [] if r[k] == v else [('WaveformPara[%s]' % k, '%r, specified %r' % (r[k], v))]
            elif not close(np.asarray(r[k], dtype=float), np.asarray(v, dtype=float), 1e-10, 1e-10):
                bad.append(('WaveformPara[%s]' % k, '%s, specified %s' % (str(r[k])[:200], str(v)[:200])))
        return bad
    ctx.loop('preparation', 20, 150, preparation, .1)

    again = Again(.5)
    others = [(k,) for k in ORDER if k not in ('rf', 'preonset')] + [('rf', 'preonset')]

    def depth(rng, i):
        b, h = draw(rng, (1, 2)), again.last
        if h and rng.maybe(.3):         # another model that rounds to the previous one
            d = rng.pick(1e-2, 1e-3, 1e-4) * rng.uniform(.2, .4)
            k = rng.pick('HMoho', 'KMoho', 'VpCrust', 'VpSed', 'HSed', 'rayp', 'gaussian')
            b = dict(h)
            b[k] = h[k] + d * (.1 if k in ('rayp', 'KMoho') else 1)
            ctx.inputs(rounded=k)
        elif h and rng.maybe(.2):       # other samples before the onset: the same traces, cut later
            b = dict(h, rf=h['rf'].copy())
            n = rng.randint(1, 4)
            for tr in b['rf']:
                tr.data, tr.stats.starttime = tr.data[n:], tr.stats.starttime + n * tr.stats.delta
            b['preonset'] = h['preonset'] - n * tr.stats.delta
            if b['preonset'] < 0:
                raise Skip
        else:
            b = again(rng, b, others)
        a = again.last = b
        ctx.inputs(**report(a))

        def body():
            r = M.WaveformFit_multiproc(((a['HMoho'][0],), prep(a)))
            return same_rows('WaveformFit_multiproc', [r], sequential, a, COLS)
        return abstractly(rng, body)
    ctx.loop('one depth', 3, 400, depth, .35)

    def par(rng, i):
        a = draw(rng, (4, 2))
        n = [1, 2, 3, None, 4, 7][i % 6]
        if ctx.shard == 0 and i % 3 == 1:       # more depths than workers, many workers
            a['HMoho'] = np.sort(np.array([rng.uniform(20, 60) for _ in range(rng.randint(5, 10))]))
            a['KMoho'] = a['KMoho'][:1]
            n = rng.randint(3, 9)
        ctx.inputs(workers=n, **report(a))
        hold = (.3 if len(a['HMoho']) < 5 else .05) if rng.maybe(.8) else 0
        return abstractly(rng, lambda: parallel(copy.deepcopy(a), n, hold), .6)

    def parallel(a, n, hold):
        with Slow(a['HMoho'], hold):
            r = M.run_waveformfitting(n, a['HMoho'], prep(a))
        if [len(x) for x in r] != [len(a['KMoho'])] * len(a['HMoho']):
            return [('run_waveformfitting', 'lists of %r entries for %d depths and %d Vp/Vs' % ([len(x) for x in r], len(a['HMoho']), len(a['KMoho'])))]
        return same_rows('run_waveformfitting (%s workers)' % n, r, sequential, a, COLS)
    ctx.loop('parallel', 3, 100, par, .55)
