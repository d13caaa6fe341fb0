"""Contracts of the event-window and extraction functions (executable, see spec/hk.py)."""
from glob import glob
from obspy import read, read_events, Stream
from obspy.geodetics.base import locations2degrees
from obspy.taup import TauPyModel


def first_arrival(event, stalat, stalon):
    """travel time in s of the first iasp91 arrival"""
    o = event.origins[0]
    d = locations2degrees(stalat, stalon, o.latitude, o.longitude)
    return TauPyModel(model='iasp91').get_travel_times(source_depth_in_km=o.depth / 1000, distance_in_degree=d)[0].time


def window(event, stalat, stalon, span):
    """start, end and onset"""
    onset = event.origins[0].time + first_arrival(event, stalat, stalon)
    return onset - abs(span[0]), onset + abs(span[1]), onset


def windows(events, stalat, stalon, span):
    return [window(e, stalat, stalon, span) for e in events]


def inside(w, f):
    """the window lies inside the record span of the file's stream"""
    return w[0] >= f[0].stats.starttime and w[1] <= f[0].stats.endtime


def annotate(path, stalat, stalon, span):
    catalog = read_events(path)
    for e in catalog:
        e.stalat = stalat
        e.stalon = stalon
        e.Request_start = span[0]
        e.Request_end = span[1]
    return catalog


def event_times(e):
    w = window(e, e.stalat, e.stalon, [e.Request_start, e.Request_end])
    return [{'eqstart': w[0], 'eqend': w[1], 'onset': w[2]}]


def cut(f, start, end, onset):
    """the file's traces between start and end, labelled with the onset"""
    st = read(f, starttime=start, endtime=end)
    for tr in st:
        tr.stats.onset = onset
    return st


def extract(datapath, filename, catalog, stalat, stalon, span):
    ws = windows(read_events(catalog), stalat, stalon, span)
    out = Stream()
    for f in sorted(glob(datapath + '*')):
        for w in ws:
            if inside(w, read(f)):
                out.extend(cut(f, w[0], w[1], w[2]))
    out.write(filename)


def stream_of(f, wins):
    out = Stream()
    for w in wins:
        out.extend(cut(f, w[0]['eqstart'], w[0]['eqend'], w[0]['onset']))
    return out


def extract_files(files, wins, filename):
    out = Stream()
    for f in files:
        out.extend(stream_of(f, wins))
    out.write(filename)
