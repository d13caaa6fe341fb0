"""Contracts of the functions of synrf.py used at their call sites, and common symbolic inputs."""
from pyvc.prove import *

HALFPI = None


def pos(P, *names):
    r = []
    for n in names:
        v = RR(n)
        P.st.assume(tm.lt(tm.const(0, 'R'), v))
        r.append(v)
    return r


def positive(L, v, st):
    return tm.lt(tm.const(0, 'R'), tm.toreal(L.num(v, st)))


def even(L, v, st):
    n = L.num(v, st)
    return tm.eq(tm.imod(n, tm.const(2)), tm.const(0))


def gauss_contract(P):
    return P.contract('rfsed.synrf.gaussFilter', 'spec.syn', 'gauss_response', ['dt', 'nft', 'gaussian'],
                      lambda a, L, st: [('even length', even(L, a['nft'], st)), ('positive interval', positive(L, a['dt'], st)),
                                        ('positive width', positive(L, a['gaussian'], st))])


def gfilter_contract(P):
    return P.contract('rfsed.synrf.gfilter', 'spec.syn', 'lowpass', ['x', 'nfft', 'gauss', 'dt'])


def correl_contract(P):
    return P.contract('rfsed.synrf.correl', 'spec.syn', 'correlation', ['R', 'W', 'nfft'])


def phaseshift_contract(P):
    return P.contract('rfsed.synrf.phaseshift', 'spec.syn', 'delay', ['x', 'nfft', 'dt', 'preonset'],
                      lambda a, L, st: [('positive interval', positive(L, a['dt'], st))])


def transform_length(P):
    """next_pow_2(n) = 2*half >= n"""
    half = RI('half')

    def f(args, kw, st):
        n = P.L.num(args[0], st)
        r = tm.mul(tm.const(2), half)
        st.assume(tm.le(n, r))
        st.assume(tm.le(tm.const(1), half))
        return r
    P.trusted.add('next_pow_2(n) is an even number not below n, for n >= 2 (obspy)')
    return {'obspy.signal.util.next_pow_2': f}
