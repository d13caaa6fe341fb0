from pyvc.prove import *

from props.syncommon import pos


def even(P, name):
    """an even number of samples"""
    m = P.dim(name)
    return tm.mul(tm.const(2), m)


def gauss(P):
    P.fresh()
    n = even(P, 'half')
    dt, a = pos(P, 'dt', 'a')
    r = P.call('rfsed.synrf', 'gaussFilter', [dt, n, a])
    P.same('gaussFilter', r, P.call('spec.syn', 'gauss_response', [dt, n, a]))
    P.cover('gaussFilter preconditions')


def ops(P):
    P.fresh()
    n = P.dim('n')
    dt, = pos(P, 'dt')
    x, y, g = P.array('x', n), P.array('y', n), P.array('g', n)
    P.same('gfilter', P.call('rfsed.synrf', 'gfilter', [x, n, g, dt]), P.call('spec.syn', 'lowpass', [x, n, g, dt]))
    P.same('correl', P.call('rfsed.synrf', 'correl', [x, y, n]), P.call('spec.syn', 'correlation', [x, y, n]))
    P.same('phaseshift', P.call('rfsed.synrf', 'phaseshift', [x, n, dt, RR('shift')]), P.call('spec.syn', 'delay', [x, n, dt, RR('shift')]))
    P.cover('operator preconditions')
    # traces shorter or longer than the transform (completed with zeros, cut)
    P.fresh()
    n, nx, ny = P.dim('n'), P.dim('nx'), P.dim('ny')
    dt, = pos(P, 'dt')
    x, y, g = P.array('x', nx), P.array('y', ny), P.array('g', n)
    P.same('gfilter, any trace length', P.call('rfsed.synrf', 'gfilter', [x, n, g, dt]), P.call('spec.syn', 'lowpass', [x, n, g, dt]))
    P.same('correl, any trace lengths', P.call('rfsed.synrf', 'correl', [x, y, n]), P.call('spec.syn', 'correlation', [x, y, n]))
    P.same('phaseshift, any trace length', P.call('rfsed.synrf', 'phaseshift', [x, n, dt, RR('shift')]), P.call('spec.syn', 'delay', [x, n, dt, RR('shift')]))
    P.cover('operator preconditions, any trace length')


def run(P):
    P.section('gaussFilter', gauss)
    P.section('operators', ops)
    P.section('lemmas about the transform', Proof.lemmas, 'Dft.lean', ['phase_unsigned', 'signed_def', 'ifft_phase', 'delay_eq', 'correlation', 'corr_eq', 'gauss_even', 'gauss_zero', 'dft_real', 'ifft_real', 'lowpass_coe', 'lowpass_linear', 'lowpass_sum', 'gauss_gain'])
