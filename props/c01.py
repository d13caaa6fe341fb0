from pyvc.prove import *


def setup(P, none):
    st = P.st
    n, nH, nK, npts = P.dim('ntr'), P.dim('nH'), P.dim('nK'), P.dim('npts')
    rf = P.stream('RF', n, npts)
    H, K = P.array('H', nH), P.array('K', nK)
    o = (lambda v, nm: P.opt(v, nm)) if none else (lambda v, nm: v)
    args = [rf, P.real('preonset'), H, K, o(RR('Vp'), 'Vp'), o(RR('w1'), 'w1'), o(RR('w2'), 'w2'), o(RR('w3'), 'w3'),
            o(tm.var('layer', 'S'), 'layer'), o(RB('stack'), 'stack')]
    return args


def main(P, none):
    P.fresh()
    args = setup(P, none)
    r = P.call('rfsed.hkZhu', 'hk', args)
    s = P.call('spec.hk', 'hk', args)
    P.same('hk', r, s)
    P.cover('hk preconditions')


def run(P):
    P.section('hk, all arguments given', main, False)
    P.section('hk, any argument omitted', main, True)
