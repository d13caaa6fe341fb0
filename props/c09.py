from pyvc.prove import *

A = ['TauPyModel.get_travel_times returns the arrivals in order of time, a function of depth and distance',
     'multiprocessing.Pool.map returns f(x) for every item in order',
     'read_events, locations2degrees and gps2dist_azimuth are functions of their arguments; UTCDateTime arithmetic is real arithmetic']


def effects(P, mark):
    """what was done to opaque objects since mark"""
    return Rope(records(sorted_sets(P.st.eff[mark:])))


def records(segs):
    out = []
    for s in segs:
        if s[0] == 'item':
            n, a, kw = s[1].items
            s = ('item', FObj('effect', dict({'operation': n, 'arguments': Rope([('item', FObj('argument', {'value': x})) for x in a.items])}, **kw)))
        elif s[0] == 'rep':
            s = ('rep', s[1], lambda k, f=s[2]: Rope(records(f(k).segs)))
        else:
            s = ('cond', s[1], Rope(records(s[2].segs if isinstance(s[2], Rope) else s[2])))
        out.append(s)
    return out


def sorted_sets(segs):
    """assignments of different attributes of one object in the order of their names"""
    out = []
    for s in segs:
        if s[0] == 'rep':
            s = ('rep', s[1], lambda k, f=s[2]: Rope(sorted_sets(f(k).segs)))
        out.append(s)
    names = [s[1].items[0] if s[0] == 'item' else '' for s in out]
    if all(n.startswith('setattr.') for n in names) and len(set(names)) == len(names):
        if len({s[1].items[1].items[0].term.id for s in out}) == 1:
            out.sort(key=lambda s: s[1].items[0])
    return out


def annotate(P):
    P.fresh()
    span = P.pylist([RR('start'), RR('end')])
    path = tm.var('catalogfile', 'S')
    before = P.snapshot()
    m = len(P.st.eff)
    got = P.call('rfsed.ExtractEqMultiproc', 'Add_sta_time_2cat', [path, RR('la'), RR('lo'), span])
    e1 = effects(P, m)
    m = len(P.st.eff)
    want = P.call('spec.extract', 'annotate', [path, RR('la'), RR('lo'), span])
    P.same('the catalogue of the file', got, want)
    P.same('every event gets station and span, nothing else is assigned', e1, effects(P, m))
    P.unchanged('inputs', before)
    P.cover('annotation preconditions')


def event(P):
    P.fresh()
    e = Opq(tm.uf('event', [], 'U'), 'event')
    m = len(P.st.eff)
    got = P.call('rfsed.ExtractEqMultiproc', 'Eq_times', [e])
    P.same('window of an event', got, P.call('spec.extract', 'event_times', [e]))
    P.obl('Eq_times assigns nothing', tm.TRUE if len(P.st.eff) == m else tm.FALSE)
    P.cover('event preconditions')


def catalogue(P, nproc):
    P.fresh()
    cat = Opq(tm.uf('read_events', [tm.var('catalogfile', 'S')], 'U'), 'catalog')
    n = tm.uf('len', [cat.term], 'I')
    P.st.assume(tm.le(CI(0), n))
    got = P.call('rfsed.ExtractEqMultiproc', 'Get_Eqtimes_multiproc', [cat, RI('nproc') if nproc else None])
    m, g = P.asseq(got, P.st)
    P.obl('one window per event', tm.eq(m, n))
    k = tm.fresh('k', 'I')
    hy = [tm.le(CI(0), k), tm.lt(k, n)]
    e = Opq(tm.uf('item', [cat.term, k], 'U'), 'event')
    P.same('window of event k', g(k, P.st), P.call('spec.extract', 'event_times', [e]), hy)
    P.cover('catalogue preconditions')


def run(P):
    P.assumptions.update(A)
    P.section('annotation', annotate)
    P.section('one event', event)
    P.section('catalogue', catalogue, True)
    P.section('catalogue, default processes', catalogue, False)
    P.section('sequential windows', sequential)


def sequential(P):
    """the windows the sequential extraction uses: those of the requested slices"""
    from props.c10 import slices
    slices(P)
