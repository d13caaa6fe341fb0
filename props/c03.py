from pyvc.prove import *


def setup(P, none):
    nS, nM, npts = P.dim('ntrSed'), P.dim('ntrMoho'), P.dim('npts')
    o = (lambda v, nm: P.opt(v, nm)) if none else (lambda v, nm: v)
    s, m = P.stream('RFSed', nS, npts), P.stream('RFMoho', nM, npts)
    return [s, m, RR('preonset'), P.array('HSed', P.dim('nHS')), P.array('KSed', P.dim('nKS')), o(RR('VpSed'), 'VpSed'),
            o(RR('w1S'), 'w1S'), o(RR('w2S'), 'w2S'), o(RR('w3S'), 'w3S'),
            P.array('HMoho', P.dim('nHM')), P.array('KMoho', P.dim('nKM')), RR('VpMoho'), RR('w1M'), RR('w2M'), RR('w3M'),
            P.pylist([RR('g%d' % i) for i in range(4)]), o(RB('stack'), 'stack')]


def main(P, none):
    P.fresh()
    args = setup(P, none)
    r = P.call('rfsed.hkSeqYeck', 'hkSeq', args)
    d = P.st.heap[r.did]
    s = P.call('spec.hk', 'hkSeq', [d['bestmodelSed']] + args)
    P.same('hkSeq', r, s)
    P.cover('hkSeq preconditions')


def run(P):
    P.section('hkSeq, all arguments given', main, False)
    P.section('hkSeq, any argument omitted', main, True)
