from conc.extract import *

RULE = ('one catalogue of random events annotated and turned into windows, directly or through the pool with a random number of workers and '
        'random completion order; compared with an independent travel-time computation; non-trivial: distinct random catalogues')


def place(rng):
    return rng.pick(rng.uniform(-80, 80), 52.22), rng.pick(rng.uniform(-180, 180), 6.89)


def span(rng):
    f = lambda: rng.pick(rng.uniform(0, 200), rng.randint(0, 200), 0, 50)
    return rng.pick([-f(), f()], [-f(), f()], [f(), f()], [f(), -f()], [-f(), -f()])


def content(e):
    return {k: repr(v) for k, v in e.__dict__.items() if k not in ('stalat', 'stalon', 'Request_start', 'Request_end')}


def compare(bad, name, w, o, la, lo, sp, T):
    """one computed window"""
    from obspy import UTCDateTime
    if not (isinstance(w, (list, tuple)) and len(w) == 1 and {'eqstart', 'eqend', 'onset'} <= set(w[0])):
        bad.append((name, 'window is %r' % (w,)))
        return
    on = UTCDateTime(o['time']) + T.arrival(o, la, lo)
    want = {'onset': on, 'eqstart': on - abs(sp[0]), 'eqend': on + abs(sp[1])}
    for k, v in want.items():
        if abs(w[0][k] - v) > 2e-5:
            bad.append((name, '%s is %s, expected %s (%+.6f s)' % (k, w[0][k], v, w[0][k] - v)))


def run(ctx):
    import rfsed.ExtractEqMultiproc as M
    from obspy import read_events, UTCDateTime
    literals('ExtractEqMultiproc', 'ExtractEq')

    def annotate(rng, d, n):
        path = os.path.join(d, 'cat.xml')
        os_ = catalog(rng, n, path, True)
        (la, lo), sp = place(rng), span(rng)
        if rng.maybe(.2):
            sp = tuple(sp)
        if rng.maybe(.15):       # antipodal events
            o = rng.choice(os_)
            la, lo = -o['lat'] + rng.uniform(-5, 5), (o['lon'] + 360) % 360 - 180 + rng.uniform(-5, 5)
            la, lo = min(89., max(-89., la)), min(180., max(-180., lo))
        elif rng.maybe(.1):     # next to the station
            o, e = rng.choice(os_), rng.pick(0., 1e-3, .1, 1.)
            la, lo = min(89., max(-89., o['lat'] + e * rng.uniform(-1, 1))), o['lon'] + e * rng.uniform(-1, 1) * (abs(o['lon']) < 178)
        ctx.inputs(events=os_, lat=la, lon=lo, span=sp)
        cat = M.Add_sta_time_2cat(path, la, lo, sp)
        ref = read_events(path)
        bad = []
        if len(cat) != len(os_):
            bad.append(('catalogue', '%d events of %d' % (len(cat), len(os_))))
        for k, (e, f) in enumerate(zip(cat, ref)):
            for nm, v in (('stalat', la), ('stalon', lo), ('Request_start', sp[0]), ('Request_end', sp[1])):
                if getattr(e, nm, 'missing') != v:
                    bad.append(('annotation', 'event %d: %s is %r, not %r' % (k, nm, getattr(e, nm, 'missing'), v)))
            if content(e) != content(f):
                bad.append(('annotation', 'event %d changed' % k))
        if rng.maybe(.2):        # the same catalogue file for another station
            other, (la2, lo2), sp2 = None, place(rng), span(rng)
            other = M.Add_sta_time_2cat(path, la2, lo2, sp2)
            for c, s in ((cat, (la, lo, sp[0], sp[1])), (other, (la2, lo2, sp2[0], sp2[1]))):
                for k, e in enumerate(c):
                    v = tuple(getattr(e, nm, None) for nm in ('stalat', 'stalon', 'Request_start', 'Request_end'))
                    if v != s:
                        bad.append(('annotation', 'event %d of a catalogue annotated for two stations has %r, not %r' % (k, v, s)))
        return cat, os_, la, lo, sp, bad

    def single(rng, i):
        with Scratch() as d:
            cat, os_, la, lo, sp, bad = annotate(rng, d, count(rng, 1, 3, 9))
            for k, e in enumerate(cat):
                before = repr(e), content(e)
                with Taup(i % 50 == 0) as T:
                    w = M.Eq_times(e)
                    compare(bad, 'Eq_times event %d' % k, w, os_[k], la, lo, sp, T)
                if before != (repr(e), content(e)):
                    bad.append(('Eq_times', 'changed event %d' % k))
            return bad
    ctx.loop('Eq_times', 12, 400, single, .45)

    def pool(rng, i):
        with Scratch() as d:
            n = count(rng, 1, 6, 14, .2)
            cat, os_, la, lo, sp, bad = annotate(rng, d, n)
            np_ = rng.pick(1, 2, 3, n, n + 1, 5)
            ctx.inputs(nproc=np_)
            hold = {round(o['depth'] / 1000, 6): .08 * (n - k) if rng.maybe(.7) else 0 for k, o in enumerate(os_)}
            with Taup(False, lambda x: hold.get(round(x, 6), 0)) as T:
                ws = M.Get_Eqtimes_multiproc(cat, np_)
            if len(ws) != n:
                return bad + [('Get_Eqtimes_multiproc', '%d windows for %d events' % (len(ws), n))]
            for k, w in enumerate(ws):
                compare(bad, 'Get_Eqtimes_multiproc(%d workers) event %d' % (np_, k), w, os_[k], la, lo, sp, T)
            return bad
    ctx.loop('Get_Eqtimes_multiproc', 5, 100, pool, .4)

    def sequential(rng, i):
        """the windows of the sequential extraction, seen through the slices it writes from a record that holds them all"""
        from obspy import Stream, Trace
        from rfsed.ExtractEq import ExtractEq
        with Scratch() as d, Taup(False) as T:
            path, t0, delta = os.path.join(d, 'cat.xml'), rng.randint(10**8, 10**9), rng.pick(.1, .2, .5)
            import conc.extract as X
            keep, X.origin = X.origin, lambda r: dict(keep(r), time=t0 + r.uniform(1000, 9000))
            try:
                os_ = X.catalog(rng, count(rng, 1, 6, 14), path, True)
            finally:
                X.origin = keep
            (la, lo), sp = place(rng), span(rng)
            while abs(sp[0]) + abs(sp[1]) < 2:      # shorter than the sampling interval: no sample need lie inside
                sp = span(rng)
            ctx.inputs(events=os_, lat=la, lon=lo, span=sp, delta=delta)
            Stream([Trace(data=np.zeros(int(13000 / delta), dtype=np.int8), header={'starttime': UTCDateTime(t0), 'delta': delta, 'station': 'A'})]).write(
                os.path.join(d, 'rec'), format='PICKLE')
            with Written() as W:
                ExtractEq(os.path.join(d, 'rec'), 'out', path, la, lo, sp)
            if len(W.calls) != 1 or len(W.calls[0][1]) != len(os_):
                return [('ExtractEq', '%s slices for %d events' % ([len(c[1]) for c in W.calls], len(os_)))]
            bad = []
            for k, (o, g) in enumerate(zip(os_, W.calls[0][1])):
                on = UTCDateTime(o['time']) + T.arrival(o, la, lo)
                s = UTCDateTime(g[1])
                got = {'onset': g[6], 'eqstart': s, 'eqend': s + (g[3] - 1) * g[2]}
                for q, v, tol in (('onset', on, 2e-5), ('eqstart', on - abs(sp[0]), .51 * delta), ('eqend', on + abs(sp[1]), .51 * delta)):
                    if got[q] is None or abs(got[q] - v) > tol:
                        bad.append(('ExtractEq event %d' % k, '%s is %s, expected %s' % (q, got[q], v)))
            return bad
    ctx.loop('ExtractEq', 8, 200, sequential, .15)
