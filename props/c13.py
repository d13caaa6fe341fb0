from pyvc.prove import *
from props.syncommon import *
from props import c14


def water(P):
    P.fresh(contracts=gauss_contract(P), extra=transform_length(P))
    n = P.dim('nt', 3)
    u, w = P.array('u', n), P.array('w', n)
    dt, a = pos(P, 'dt', 'a')
    args = [u, w, dt, RR('preonset'), RR('wlevel'), a, RB('normalize')]
    s = P.call('spec.syn', 'waterlevel', args)
    r = P.call('rfsed.synrf', 'deconv_waterlevel', args)
    P.same('deconv_waterlevel', r, s)
    P.cover('deconv_waterlevel preconditions')


def trace(P, name, n, dt):
    st = P.st
    stats = ORef(st.alloc(ORec('Stats', {'delta': dt, 'station': tm.var(name + '.station', 'S')})))
    return ORef(st.alloc(ORec('Trace', {'data': P.array(name, n), 'stats': stats})))


def dispatch(P):
    """deconvolve() and RFTrace.deconvolve() hand everything on to the chosen method; the header carries what was asked for"""
    P.fresh(contracts=gauss_contract(P), extra=transform_length(P))
    n = P.dim('nt', 3)
    dt, a = pos(P, 'dt', 'a')
    u, w = trace(P, 'u', n, dt), trace(P, 'w', n, dt)
    get = lambda o, k: P.I.getattr(o, k, P.st)
    kw = {k: v for k, v in [('preonset', RR('preonset')), ('wlevel', RR('wlevel')), ('gaussian', a), ('normalize', RB('normalize'))]}
    s = P.call('rfsed.synrf', 'deconv_waterlevel', [get(u, 'data'), get(w, 'data'), dt], kw)
    for m in ('water', 'WATER', 'Water'):
        P.same('deconvolve(%s)' % m, P.call('rfsed.synrf', 'deconvolve', [get(u, 'data'), get(w, 'data'), dt], dict(kw, method=m)), s)
    before = P.snapshot()
    cls = P.I.modname(P.I.module('rfsed.synrf'), 'RFTrace', P.st)
    r = P.I.call(P.I.getattr(cls, 'deconvolve', P.st), [u, w], dict(kw, method='water'), P.st)
    P.note()
    P.unchanged('RFTrace.deconvolve leaves the traces', before)
    h = get(r, 'stats')
    P.same('RFTrace.deconvolve data', get(r, 'data'), P.L.getitem(s, tm.const(0), P.st))
    P.same('RFTrace.deconvolve rms', get(h, 'rms'), P.L.getitem(s, tm.const(1), P.st))
    for k, v in dict(kw, delta=dt, station=tm.var('u.station', 'S')).items():
        P.same('RFTrace.deconvolve header ' + k, get(h, k), v)


def run(P):
    P.section('gaussFilter', c14.gauss)
    P.section('deconv_waterlevel', water)
    P.section('dispatch', dispatch)
