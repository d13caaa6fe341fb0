from pyvc.prove import *
from props.syncommon import *
from props import c14


def contracts(P):
    d = {}
    for c in (gauss_contract, gfilter_contract, correl_contract, phaseshift_contract):
        d.update(c(P))
    return d


def iterative(P, phase):
    P.fresh(contracts=contracts(P), extra=transform_length(P))
    n = P.dim('nt', 3)
    u, w = P.array('u', n), P.array('w', n)
    dt, a = pos(P, 'dt', 'a')
    itmax = P.dim('itmax', 1)
    pre, minderr = RR('preonset'), RR('minderr')
    P.st.assume(tm.le(tm.const(0, 'R'), minderr))
    P.lockstep('deconv_iterative (%s)' % phase,
               lambda: P.call('rfsed.synrf', 'deconv_iterative', [u, w, dt], {'preonset': pre, 'gaussian': a, 'itmax': itmax, 'minderr': minderr, 'phase': phase}),
               lambda: P.call('spec.syn', 'iterative', [u, w, dt, pre, a, itmax, minderr, tm.boolc(phase == 'P')]))
    P.cover('deconv_iterative preconditions')


def dispatch(P):
    """deconvolve() and RFTrace.deconvolve() hand everything on to deconv_iterative; the header carries what was asked for"""
    from props.c18 import deconvolutions
    from props.c13 import trace
    P.fresh(contracts=deconvolutions(P))
    n = P.dim('nt', 3)
    dt, a = pos(P, 'dt', 'a')
    u, w = trace(P, 'u', n, dt), trace(P, 'w', n, dt)
    get = lambda o, k: P.I.getattr(o, k, P.st)
    cls = P.I.modname(P.I.module('rfsed.synrf'), 'RFTrace', P.st)
    before = P.snapshot()
    full = {'preonset': RR('preonset'), 'gaussian': a, 'itmax': RI('itmax'), 'minderr': RR('minderr'), 'phase': 'S'}
    for what, kw in (('all arguments', full), ('no arguments', {}), ('some arguments', {'itmax': RI('itmax'), 'phase': 'S'})):
        s = P.call('rfsed.synrf', 'deconv_iterative', [get(u, 'data'), get(w, 'data'), dt], kw)
        for m in (None, 'iter', 'ITER'):
            P.same('deconvolve(%s), %s' % (m, what), P.call('rfsed.synrf', 'deconvolve', [get(u, 'data'), get(w, 'data'), dt], dict(kw, method=m) if m else kw), s)
            r = P.I.call(P.I.getattr(cls, 'deconvolve', P.st), [u, w], dict(kw, method=m) if m else dict(kw), P.st)
            P.note()
            h = get(r, 'stats')
            name = 'RFTrace.deconvolve(%s), %s: ' % (m, what)
            P.same(name + 'data', get(r, 'data'), s.items[0])
            P.same(name + 'rms', get(h, 'rms'), s.items[1])
            P.same(name + 'iter', get(h, 'iter'), s.items[2])
            for k, v in dict(kw, delta=dt, station=tm.var('u.station', 'S')).items():
                P.same(name + 'header ' + k, get(h, k), v)
    P.unchanged('RFTrace.deconvolve leaves the traces', before)


def run(P):
    P.section('dispatch', dispatch)
    P.section('gaussFilter', c14.gauss)
    P.section('operators', c14.ops)
    P.section('deconv_iterative, P', iterative, 'P')
    P.section('deconv_iterative, S', iterative, 'S')
    P.section('lemmas about the transform', Proof.lemmas, 'Dft.lean', ['corr_eq', 'delay_eq', 'lowpass_linear', 'predicted_spike', 'spike_lowers', 'misfit_never_increases', 'gauss_even'])
