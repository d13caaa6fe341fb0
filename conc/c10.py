from conc.extract import *
from conc.c09 import place, span

RULE = ('one extraction from random data files (windows inside, across and outside the records) with the written stream intercepted and compared, '
        'trace by trace, with slices read independently; non-trivial: distinct random file sets and catalogues')


def targets(rng, files, sp):
    """onset times inside, across and outside the records"""
    from obspy import UTCDateTime
    _, a, b = rng.choice(files)
    lo, hi = abs(sp[0]), abs(sp[1])
    return rng.pick(a + lo + rng.random() * max(0., (b - a) - lo - hi), a + lo + rng.random() * max(0., (b - a) - lo - hi), a + lo, b - hi, a + lo - rng.uniform(0, 50),
                    b - hi + rng.uniform(0, 50), a - rng.uniform(0, 1000), b + rng.uniform(0, 1000))


def spans(rng):
    f = lambda: rng.pick(rng.uniform(0, 60), rng.randint(0, 60), 0, 20)
    return [exact(x) for x in rng.pick([-f(), f()], [-f(), f()], [f(), f()], [-f(), -f()])]


def exact(t):
    """sums of such times are exact in seconds, microseconds and nanoseconds: the order of the arithmetic does not matter"""
    return round(t * 64) / 64.


def run(ctx):
    import rfsed.ExtractEqMultiproc as M
    from rfsed.ExtractEq import ExtractEq
    from obspy import UTCDateTime, read
    literals('ExtractEqMultiproc', 'ExtractEq')

    def seq(rng, i):
        from obspy.core.event import Catalog
        with Scratch() as d, Taup(False) as T:
            prefix = rng.pick('', 'data_', 'x')
            sub = os.path.join(d, 'in')
            os.mkdir(sub)
            files = datafiles(rng, sub, prefix)
            (la, lo), sp = place(rng), spans(rng)
            os_ = []
            for _ in range(count(rng, 1, 6, 14)):
                o = origin(rng)
                o['time'] = exact(float((targets(rng, files, sp) - T.arrival(o, la, lo)).timestamp))
                os_.append(o)
            if len(os_) > 1 and rng.maybe(.1):
                os_[-1] = dict(os_[0])
            cat = os.path.join(d, 'cat.xml')
            Catalog(events=[event(o) for o in os_]).write(cat, 'QUAKEML')
            if prefix:
                datafiles(rng, sub, 'other_')
            ctx.inputs(files=[(os.path.basename(f), str(a), str(b)) for f, a, b in files], events=os_, lat=la, lon=lo, span=sp)
            out = os.path.join(d, 'out.h5')
            want, close_call = [], False
            for f, _, _ in files:
                st = read(f)
                for o in os_:
                    on = UTCDateTime(o['time']) + T.arrival(o, la, lo)
                    a, b = on - abs(sp[0]), on + abs(sp[1])
                    da, db = a - st[0].stats.starttime, st[0].stats.endtime - b
                    if 0 < min(abs(da), abs(db)) < 2e-5:
                        close_call = True
                    if da >= 0 and db >= 0:
                        want += [content(t, on) for t in read(f, starttime=a, endtime=b)]
            if close_call:
                raise Skip
            with Written() as W:
                ExtractEq(os.path.join(sub, prefix), out, cat, la, lo, sp)
            return written(W, out, want, 'ExtractEq')
    ctx.loop('ExtractEq', 15, 400, seq, .45)

    def edge(rng, i):
        """a window that ends exactly on the limits of the record"""
        from obspy import Stream, Trace
        from obspy.core.event import Catalog
        with Scratch() as d, Taup(False) as T:
            (la, lo), sp = place(rng), [-float(rng.randint(1, 40)), float(rng.randint(1, 40))]
            o = origin(rng)
            o['time'] = float(int(o['time'])) + .5      # every time below is exact, so the order of the arithmetic does not matter
            on = UTCDateTime(o['time']) + T.arrival(o, la, lo)
            a, b = on - abs(sp[0]), on + abs(sp[1])
            which = rng.pick('start', 'end', 'both')
            s = a - (0 if which != 'end' else 7)
            n = int(round(b - s)) + 1 + (0 if which != 'start' else 5)
            Stream([Trace(data=rng.normal(n), header={'starttime': s, 'delta': 1., 'station': 'A'})]).write(os.path.join(d, 'f1'), format='PICKLE')
            cat = os.path.join(d, 'cat.xml')
            Catalog(events=[event(o)]).write(cat, 'QUAKEML')
            ctx.inputs(which=which, event=o, span=sp, lat=la, lon=lo)
            st = read(os.path.join(d, 'f1'))
            ok = a >= st[0].stats.starttime and b <= st[0].stats.endtime
            if not ok:
                raise Skip
            want = [content(t, on) for t in read(os.path.join(d, 'f1'), starttime=a, endtime=b)]
            with Written() as W:
                ExtractEq(os.path.join(d, 'f'), 'out', cat, la, lo, sp)
            return written(W, 'out', want, 'window on the limit of the record (%s)' % which)
    ctx.loop('record limits', 5, 60, edge, .1)

    def par(rng, i):
        with Scratch() as d:
            files = [f for f, _, _ in datafiles(rng, d, 'x')]
            spn = datafiles_span(files)
            rng.shuffle(files)
            sp = spans(rng)
            wins = []
            for _ in range(count(rng, 1, 5, 14)):
                on = UTCDateTime(exact(targets(rng, spn, sp).timestamp))
                wins.append([{'eqstart': on - abs(sp[0]), 'eqend': on + abs(sp[1]), 'onset': on + rng.pick(0, 0, 3.5)}])
            if rng.maybe(.2) and len(files) > 1:
                files.append(files[0])
            np_ = rng.pick(1, 2, len(files), len(files) + 1, 4)
            ctx.inputs(files=[os.path.basename(f) for f in files], windows=str(wins), nproc=np_)
            want = []
            for f in files:
                for w in wins:
                    want += [content(t, w[0]['onset']) for t in read(f, starttime=w[0]['eqstart'], endtime=w[0]['eqend'])]
            hold = {f: .06 * (len(files) - k) if rng.maybe(.8) else 0 for k, f in enumerate(files)}
            orig = getattr(M, 'read', None)

            def slow(f, *a, **kw):
                time.sleep(hold.get(f, 0))
                return orig(f, *a, **kw)
            if i % 3 == 0:
                k = rng.randint(0, len(files) - 1)
                g = M.Get_EqStream_multiproc(((files[k],), wins))
                mine = [content(t) for t in g]
                w1 = []
                for w in wins:
                    w1 += [content(t, w[0]['onset']) for t in read(files[k], starttime=w[0]['eqstart'], endtime=w[0]['eqend'])]
                r = differ(mine, w1)
                if r:
                    return [('Get_EqStream_multiproc', r)]
            if orig is not None:
                M.read = slow
            try:
                with Written() as W:
                    M.ExtractEq_Multiproc(files, wins, np_, os.path.join(d, 'out.h5'))
            finally:
                if orig is not None:
                    M.read = orig
            return written(W, os.path.join(d, 'out.h5'), want, 'ExtractEq_Multiproc (%d workers)' % np_)
    ctx.loop('ExtractEq_Multiproc', 12, 300, par, .45)


def datafiles_span(files):
    from obspy import read
    out = []
    for f in files:
        s = read(f)[0].stats
        out.append((f, s.starttime, s.endtime))
    return out


def written(W, out, want, name):
    if not want and not W.calls:
        return []
    if len(W.calls) != 1:
        return [(name, 'written %d times' % len(W.calls))]
    if W.calls[0][0] != out:
        return [(name, 'written to %r' % (W.calls[0][0],))]
    r = differ(W.calls[0][1], want)
    return [(name, r)] if r else []
