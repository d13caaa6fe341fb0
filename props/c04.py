from pyvc.prove import *


def setup(P, none):
    n, nH, nK = P.dim('npts'), P.dim('nH'), P.dim('nK')
    o = (lambda v, nm: P.opt(v, nm)) if none else (lambda v, nm: v)
    flt = P.dct({'filteredrf': P.array('flt', n), 'time': P.array('time', n), 'tlag': RR('tlag')})
    vs = RR('VsSed')
    P.st.assume(tm.lt(tm.const(0, 'R'), vs))
    return [flt, RR('rayp'), P.array('H', nH), P.array('K', nK), o(RR('VpMoho'), 'VpMoho'), o(RR('VpSed'), 'VpSed'), vs,
            o(RR('w1'), 'w1'), o(RR('w2'), 'w2'), o(RR('w3'), 'w3')]


def main(P, none):
    P.fresh()
    args = setup(P, none)
    r = P.call('rfsed.hkYu', 'hkYu', args)
    s = P.call('spec.hk', 'hkYu', args)
    P.same('hkYu', r, s)
    d = P.st.heap[r.did]
    P.same('hkYu[SubSedThick]', d['SubSedThick'], P.L.arr(d['bestmodelSubSed'], P.st).at(CI(0)))
    P.same('hkYu[SubSedVpVs]', d['SubSedVpVs'], P.L.arr(d['bestmodelSubSed'], P.st).at(CI(1)))
    P.cover('hkYu preconditions')


def run(P):
    P.section('hkYu, all arguments given', main, False)
    P.section('hkYu, any argument omitted', main, True)
