"""Catalogues and data files for the event-window and extraction checks."""
import os
import shutil
import tempfile
from conc.common import *


def origin(rng):
    return dict(lat=rng.pick(rng.uniform(-89, 89), rng.uniform(-60, 60), 0.), lon=rng.pick(rng.uniform(-180, 180), rng.uniform(-60, 60)),
                depth=rng.pick(rng.uniform(0, 700e3), rng.uniform(0, 60e3), 10000., 33000., 0., 660000., 35e3, rng.uniform(0, 800.)),
                time=rng.randint(0, 10**9) + rng.pick(0, .5, round(rng.random(), 6)), mag=round(rng.uniform(5, 9), 1))


def event(o, extra=None, mags=None, prefer=False):
    from obspy.core.event import Event, Origin, Magnitude
    from obspy import UTCDateTime
    os_, ms = [], []
    for q in [o] + list(extra or []):
        os_.append(Origin(time=UTCDateTime(q['time']), latitude=q['lat'], longitude=q['lon'], depth=q['depth']))
        ms.append(Magnitude(mag=q['mag']))
    e = Event(origins=os_, magnitudes=ms if mags is None else [Magnitude(mag=m) for m in mags])
    if prefer:
        e.preferred_origin_id = os_[-1].resource_id
    return e


def catalog(rng, n, path, extra=False):
    """write a QuakeML catalogue of n events; -> the origins"""
    from obspy.core.event import Catalog
    os_ = [origin(rng) for _ in range(n)]
    if n > 1 and rng.maybe(.3):
        os_[rng.randint(1, n - 1)] = dict(os_[0])
    es = [event(o, [origin(rng)] if extra and rng.maybe(.3) else None,
                [round(rng.uniform(4, 9), 1) for _ in range(rng.randint(0, 3))] if rng.maybe(.15) else None, rng.maybe(.5)) for o in os_]
    if n > 1 and rng.maybe(.1):     # one event listed twice
        os_[-1], es[-1] = os_[0], es[0]
    Catalog(events=es).write(path, 'QUAKEML')
    return os_


_M = []
REAL = []


def table(model, depth, dist):
    """stand-in travel-time table: arrivals in order of time"""
    h = hashlib.sha256(('%s %.9g %.9g' % (model, depth, dist)).encode()).digest()
    t = round((100 + 9 * dist - depth / 40.) * 512) / 512. + h[0] / 256.        # exact in seconds and in nanoseconds
    out = []
    for k in range(1 + h[1] % 4):
        first = (['p', 'Pn', 'P', 'Pg'] if dist < 20 else ['P', 'P', 'pP'] if dist < 95 else ['Pdiff', 'PKiKP'] if dist < 115 else ['PKIKP', 'PKiKP', 'Pdiff', 'PKP'])
        names = first if k == 0 else ['P', 'PcP', 'PP', 'S', 'pP', 'PKP', 'PKIKP']
        out.append(Arr(names[h[8 + k] % len(names)], t, 9 - dist / 20., 30 - dist / 10.))
        t += 1 + h[2 + k]
    return out


class Arr:
    def __init__(self, name, time, rp, inc):
        self.name, self.time, self.ray_param_sec_degree, self.incident_angle = name, time, rp, inc
        self.ray_param = rp * 57.29577951308232
        self.phase = self


class Taup:
    """travel times from the stand-in table (real=False) or from obspy; the first calls can be made to take longest, so that the
    completion order of parallel work differs from the submission order"""

    def __init__(self, real=False, delay=lambda depth: 0):
        from obspy.taup import TauPyModel
        self.T, self.real, self.delay = TauPyModel, real, delay
        if not REAL:
            REAL.extend([TauPyModel.get_travel_times, TauPyModel.__init__])

    def __enter__(self):
        real, delay = self.real, self.delay

        def init(me, model='iasp91', *a, **kw):
            me.fake = model
            if real:
                REAL[1](me, model, *a, **kw)

        def get(me, source_depth_in_km, distance_in_degree=None, phase_list=('ttbasic',), receiver_depth_in_km=0.0, **kw):
            w = delay(source_depth_in_km)
            if w:
                time.sleep(w)
            if real:
                return REAL[0](me, source_depth_in_km, distance_in_degree, phase_list, receiver_depth_in_km, **kw)
            r = table(str(me.fake), source_depth_in_km - receiver_depth_in_km, distance_in_degree)
            if not any(str(p).startswith('tt') for p in phase_list):
                r = [x for x in r if x.name in phase_list]
            return r
        self.T.__init__, self.T.get_travel_times = init, get
        return self

    def __exit__(self, *a):
        self.T.get_travel_times, self.T.__init__ = REAL

    def arrival(self, o, stalat, stalon):
        """independent of the repository: earliest iasp91 arrival"""
        from obspy.geodetics import locations2degrees
        d = locations2degrees(stalat, stalon, o['lat'], o['lon'])
        if not self.real:
            return table('iasp91', o['depth'] / 1000., d)[0].time
        if not _M:
            m = self.T.__new__(self.T)
            REAL[1](m, 'iasp91')
            _M.append(m)
        return min(a.time for a in REAL[0](_M[0], source_depth_in_km=o['depth'] / 1000., distance_in_degree=d))


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='rfx-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def datafiles(rng, d, prefix, edges=()):
    """data files in directory d; -> sorted paths and the record spans; edges: times used exactly as record limits now and then"""
    from obspy import Stream, Trace, UTCDateTime
    n = rng.randint(1, 4)
    names = rng.sample(['a', 'b', 'c', 'd', 'B', '10', '9', '_x'], n)
    out = []
    t = UTCDateTime(rng.randint(10**8, 10**9))
    for nm in names:
        delta = rng.pick(1., .5, .1, 2.)
        npts = rng.randint(100, 900)
        if rng.maybe(.3):
            t = UTCDateTime(rng.randint(10**8, 10**9))
        tr = []
        for c in rng.pick('Z', 'ZNE', 'ZNE', 'NE', 'ZNE12', 'ZNEXYZ123'):
            tr.append(Trace(data=np.round(rng.normal(npts) * 1000).astype(np.int32), header={
                'delta': delta, 'network': 'XX', 'station': nm.upper()[:2], 'channel': 'BH' + c, 'starttime': t}))
        path = os.path.join(d, prefix + nm)
        Stream(tr).write(path, format=rng.pick('MSEED', 'PICKLE', 'PICKLE'))
        out.append((path, t, tr[0].stats.endtime))
        t = t + npts * delta + rng.pick(0, 0, -50, 100)
    return sorted(out)


class Written:
    """records what is written to files of waveforms"""

    def __enter__(self):
        from obspy import Stream
        self.S, self.orig, self.calls = Stream, Stream.write, []

        def write(st, filename, *a, **kw):
            self.calls.append((filename, [content(t) for t in st]))
        Stream.write = write
        return self

    def __exit__(self, *a):
        self.S.write = self.orig


def content(t, onset=None):
    s = t.stats
    on = getattr(s, 'onset', None) if onset is None else onset
    return (t.id, str(s.starttime), s.delta, s.npts, t.data.tobytes(), str(t.data.dtype), None if on is None else on)


def differ(got, want):
    """first difference between two lists of contents"""
    if len(got) != len(want):
        return '%d traces written, expected %d' % (len(got), len(want))
    for k, (a, b) in enumerate(zip(got, want)):
        if a[:6] != b[:6]:
            return 'trace %d is %s %s (%d samples), expected %s %s (%d samples)' % (k, a[0], a[1], a[3], b[0], b[1], b[3])
        if a[6] is None or abs(a[6] - b[6]) > 2e-5:
            return 'trace %d (%s %s) has onset %s, expected %s' % (k, a[0], a[1], a[6], b[6])
    return None
