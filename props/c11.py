from pyvc.prove import *
from props.syncommon import *


def medium(P):
    om, rho, a, b = pos(P, 'omega', 'rho', 'alpha', 'beta')
    p = RR('p')
    P.st.assume(tm.le(tm.const(0, 'R'), p))
    return om, rho, a, b, p


def layers(P):
    P.fresh()
    om, rho, a, b, p = medium(P)
    z = RR('z')
    P.same('propagator_sol', P.call('rfsed.synrf', 'propagator_sol', [om, rho, a, b, p, z]), P.call('spec.syn', 'layer', [om, rho, a, b, p, z]))
    P.same('e_inverse', P.call('rfsed.synrf', 'e_inverse', [om, rho, a, b, p]), P.call('spec.syn', 'halfspace', [om, rho, a, b, p]))
    P.cover('layer preconditions')


def multiplicative(P):
    """consequences of the contract of propagator_sol, stated on the code itself"""
    P.fresh()
    om, rho, a, b, p = medium(P)
    z1, z2 = RR('z1'), RR('z2')
    at = lambda z: P.call('rfsed.synrf', 'propagator_sol', [om, rho, a, b, p, z])
    P.same('propagator_sol(0) is the identity', at(tm.const(0, 'R')), P.call('spec.syn', 'identity', []))
    P.same_trig('propagator_sol(z2)*propagator_sol(z1) = propagator_sol(z1+z2)', P.L.matmul(at(z2), at(z1), P.st), at(tm.add(z1, z2)))
    E = P.call('rfsed.synrf', 'e_inverse', [om, rho, a, b, p])
    P.same_trig('e_inverse turns the propagator into plane waves', P.L.matmul(E, at(z1), P.st),
                P.L.matmul(P.call('spec.syn', 'waves', [om, a, b, p, z1]), E, P.st))


def unit(P):
    P.fresh()
    s = P.L.new(Arr((CI(4), CI(4)), lambda i, j: Cx(tm.uf('s.re', [i, j], 'R'), tm.uf('s.im', [i, j], 'R'))), P.st)
    for ip, want in ((1, (1, 0)), (-1, (0, 1))):
        u = P.call('spec.syn', 'incident', [s, CI(ip)])
        r = P.call('spec.syn', 'amplitudes', [s, u])
        P.same('unit incident %s wave' % ('P' if ip > 0 else 'S'), r, P.pylist([CI(w) for w in want]))


MEDIUM = ['omega', 'rho', 'alpha', 'beta', 'p']


def matrices(P):
    l = P.opaque('layer', MEDIUM + ['z'], (4, 4), True)
    h = P.opaque('halfspace', MEDIUM, (4, 4), True)
    sp = {'alpha': 'a', 'beta': 'b'}
    l2 = P.opaque('layer', [sp.get(n, n) for n in MEDIUM] + ['z'], (4, 4), True)
    h2 = P.opaque('halfspace', [sp.get(n, n) for n in MEDIUM], (4, 4), True)
    return {'rfsed.synrf.propagator_sol': l, 'rfsed.synrf.e_inverse': h, 'spec.syn.layer': l2, 'spec.syn.halfspace': h2}


def response(P, ipha):
    P.fresh(contracts=matrices(P))
    P.L.abbreviate = True
    om, = pos(P, 'omega')
    n = P.dim('layers', 2)
    p = RR('p')
    m = [P.array(x, n) for x in ('alpha', 'beta', 'rho', 'h')]
    ip = RI('ipha')
    P.st.assume(tm.le(CI(0), ip) if ipha >= 0 else tm.lt(ip, CI(0)))
    P.lockstep('haskell (incident %s)' % ('P' if ipha >= 0 else 'S'), lambda: P.call('rfsed.synrf', 'haskell', [om, p, n, ip] + m),
               lambda: P.call('spec.syn', 'surface', [om, p, n, ip] + m))
    P.cover('haskell preconditions')


FWD = ['omega', 'p', 'nl', 'ipha', 'alpha', 'beta', 'rho', 'h']


def forward(P):
    hk = P.opaque('surface', FWD, 'pair', True)
    P.fresh(contracts={'rfsed.synrf.haskell': hk, 'spec.syn.surface': hk}, extra=transform_length(P))
    n = P.dim('layers', 2)
    npts = P.dim('npts', 2)
    dt, = pos(P, 'dt')
    m = [P.array(x, n) for x in ('alpha', 'beta', 'rho', 'h')]
    args = [RR('p'), dt, npts, RI('ipha')] + m
    s = P.call('spec.syn', 'seismograms', args)
    r = P.call('rfsed.synrf', 'fwd_seis', args)
    P.same('fwd_seis', r, s)
    P.cover('fwd_seis preconditions')


def run(P):
    P.section('seismograms', forward)
    P.section('propagator identities', multiplicative)
    P.section('unit incident wave', unit)
    P.section('response, incident P', response, 1)
    P.section('response, incident S', response, -1)
    P.section('layer matrices', layers)
