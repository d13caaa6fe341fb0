from pyvc.prove import *
from props.syncommon import *


FWD = ['p', 'dt', 'npts', 'ipha', 'alpha', 'beta', 'rho', 'h']


def seismograms(P):
    """fwd_seis and its specification (proved equal under C11) as one function of the arguments"""
    def two(sym, a, L, st):
        return Tup([sym('.r', (a['npts'],)), sym('.z', (a['npts'],))])
    return {'rfsed.synrf.fwd_seis': P.opaque('seismograms', ['rayp'] + FWD[1:], ret=two), 'spec.syn.seismograms': P.opaque('seismograms', FWD, ret=two)}


def deconvolutions(P):
    """the two deconvolutions (proved under C12, C13) as functions of their arguments"""
    def it(sym, a, L, st):
        n = sym('.iter', (), sort='I')
        return Tup([sym('.rf', (P.L.arr(a['uin'], st).shape[0],)), sym('.rms', (n,)), n])

    def wl(sym, a, L, st):
        return Tup([sym('.rf', (P.L.arr(a['uin'], st).shape[0],)), sym('.rms', ())])
    return {'rfsed.synrf.deconv_iterative': P.opaque('iterative', ['uin', 'win', 'dt', 'nt', 'preonset', 'gaussian', 'itmax', 'minderr', 'phase'], ret=it),
            'rfsed.synrf.deconv_waterlevel': P.opaque('waterlevel', ['uin', 'win', 'dt', 'preonset', 'wlevel', 'gaussian', 'normalize'], ret=wl)}


def model(P, single):
    P.fresh(contracts=dict(seismograms(P), **deconvolutions(P)))
    n = P.dim('layers', 2)
    npts = P.dim('npts', 3)
    dt, = pos(P, 'dt')
    ip = RI('ipha')
    depth, vp, vs, rho = [P.array(x, n) for x in ('depth', 'vp', 'vs', 'rho')]
    if single:
        m, p, rayp = CI(1), (lambda k: RR('p')), RR('p')
    else:
        m = P.dim('rays', 1)
        p = lambda k: tm.uf('p', [k], 'R')
        rayp = P.lst('p', m, p) if single is False else P.array('p', m)
    cls = P.I.modname(P.I.module('rfsed.synrf'), 'synrf', P.st)
    o = P.I.call(cls, [depth, vp, vs, rho, rayp], {'dt': dt, 'npts': npts, 'ipha': ip}, P.st)
    h = P.call('spec.syn', 'thicknesses', [depth])
    return o, m, p, dt, npts, ip, (vp, vs, rho), h


def seq(P, o, name):
    return P.asseq(P.I.getattr(o, name, P.st), P.st)


def check(P, name, o, m, p, args, bands):
    """both streams: one trace per ray parameter, in order, as specified"""
    dt, npts, ip, med, h = args
    k = tm.fresh('k', 'I')
    hy = [tm.le(CI(0), k), tm.lt(k, m)]
    r, z = P.call('spec.syn', 'pair', [p(k), dt, npts, ip, *med, h, P.pylist([Tup(b) for b in bands])]).items
    for nm, want in (('rstream', r), ('zstream', z)):
        n, g = seq(P, o, nm)
        P.obl('%s: %s has one trace per ray parameter' % (name, nm), tm.eq(n, m))
        t = g(k, P.st)
        P.same('%s: %s samples' % (name, nm), P.I.getattr(t, 'data', P.st), P.I.getattr(want, 'data', P.st), hy)
        P.same('%s: %s sampling interval' % (name, nm), P.I.getattr(P.I.getattr(t, 'stats', P.st), 'delta', P.st), dt, hy)
    return k, hy, r, z


def forward(P, single, kind):
    o, m, p, dt, npts, ip, med, h = model(P, single)
    P.same('thickness', P.I.getattr(o, 'thickness', P.st), h)
    h = P.I.getattr(o, 'thickness', P.st)       # equal to the specified thicknesses
    call = lambda name, a=(), kw=None: P.I.call(P.I.getattr(o, name, P.st), list(a), dict(kw or {}), P.st)
    call('run_fwd')
    P.note()
    args = (dt, npts, ip, med, h)
    bands = []
    check(P, 'run_fwd', o, m, p, args, bands)
    f1, f2, f3, f4 = RR('fmin'), RR('fmax'), RR('fmin2'), RR('fmax2')
    order, zp = RI('order'), RB('zerophase')
    if kind == 'filtered':
        call('filter', (), {'freqmin': f1, 'freqmax': f2, 'order': order, 'zerophase': zp})
        bands.append([f1, f2, order, zp])
        check(P, 'filter', o, m, p, args, bands)
    if kind == 'default filter':
        call('filter', (f1, f2))
        bands.append([f1, f2, CI(2), tm.TRUE])
        check(P, 'filter, order and phase omitted', o, m, p, args, bands)
    pre, a = RR('preonset'), RR('a')
    kw = {'preonset': pre, 'gaussian': a}
    if kind == 'unfiltered':
        kw['pre_filt'] = None
    elif kind == 'filtered':
        kw['pre_filt'] = P.pylist([f3, f4])
        bands.append([f3, f4, CI(2), tm.TRUE])
    else:
        kw = {}
        pre, a = CI(10), tm.const(2, 'R')
        bands.append([tm.const('0.05', 'R') if False else tm.const(__import__('fractions').Fraction(5, 100), 'R'), CI(2), CI(2), tm.TRUE])
    met = {'unfiltered': 'water', 'filtered': 'iter'}.get(kind)
    full = dict(kw)
    if met == 'water':
        full.update(method='water', wlevel=RR('wlevel'), normalize=RB('normalize'))
    elif met == 'iter':
        full.update(method='iter', itmax=RI('itmax'), minderr=RR('minderr'))
    rf = call('run_deconvolution', (), full)
    P.note()
    k, hy, r, z = check(P, 'run_deconvolution', o, m, p, args, bands)
    n, g = P.asseq(rf, P.st)
    P.obl('one receiver function per ray parameter', tm.eq(n, m))
    t = g(k, P.st)
    dk = {x: full[x] for x in full if x not in ('pre_filt', 'method')}
    dk.setdefault('preonset', pre)
    dk.setdefault('gaussian', a)
    want = P.call('rfsed.synrf', 'deconv_waterlevel' if met == 'water' else 'deconv_iterative',
                  [P.I.getattr(r, 'data', P.st), P.I.getattr(z, 'data', P.st), dt], dk)
    P.same('receiver function', P.I.getattr(t, 'data', P.st), want.items[0], hy)
    hd = P.I.getattr(t, 'stats', P.st)
    P.same('header rms', P.I.getattr(hd, 'rms', P.st), want.items[1], hy)
    for x in dk:
        P.same('header ' + x, P.I.getattr(hd, x, P.st), dk[x], hy)
    P.same('header delta', P.I.getattr(hd, 'delta', P.st), dt, hy)
    P.cover('synrf preconditions')


def run(P):
    for single, what in ((False, 'list of ray parameters'), (True, 'single ray parameter'), (None, 'array of ray parameters')):
        for kind in ('unfiltered', 'filtered', 'default filter'):
            P.section('%s, %s' % (what, kind), forward, single, kind)
