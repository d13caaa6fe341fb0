"""Frames: what existed before a call holds afterwards what it held."""
from pyvc.prove import *
from props import c01, c03, c04, c05, c07, c11, c12, c13, c14, c16, c17, c18
from props.syncommon import *

TIMES = tuple(a + b for a in ('tps', 'tppps', 'tpsps') for b in ('', 'Sed', 'Moho'))


def frame(P, name, mod, fn, args, kw=None, allow=(), first=True):
    before = P.snapshot()
    r = P.call(mod, fn, args, kw)
    P.unchanged(name, before, allow)
    P.cover(name + ' preconditions')
    return r


def hk(P, mod, fn, setup, plot, none):
    """analyse, plot, analyse again: neither the inputs nor the results change"""
    P.fresh()
    args = setup(P, none)
    r = frame(P, fn, mod, fn, args)


def drawn(P, mod, fn, make, stack, layer, clip):
    P.fresh()
    r = P.dct(make(P, stack, layer))
    args = [r, tm.var('savepath', 'S')]
    if clip != 'omitted':
        args += [P.pylist([RR('g%d' % i) for i in range(4)]) if clip is not None else None, clip, tm.var('format', 'S') if clip is not None else None]
    frame(P, ' '.join(map(str, (fn, stack, layer, clip))), mod, fn, args, allow=TIMES)


def resonance(P):
    P.fresh()
    n, npts = P.dim('ntr'), P.dim('npts', 2)
    rf = P.stream('RF', n, npts, {'delta': Arr((n,), lambda k: tm.uf('RF.delta', [k], 'R'))})
    P.st.assume(tm.lt(tm.const(0, 'R'), tm.uf('RF.delta', [CI(0)], 'R')))
    r = frame(P, 'ResonanceFilt', 'rfsed.ReverbFilter', 'ResonanceFilt', [rf, RR('preonset')])
    frame(P, 'plotfiltrf', 'rfsed.ReverbFilter', 'plotfiltrf', [r, tm.var('savepath', 'S')])
    frame(P, 'plotfiltrf, format', 'rfsed.ReverbFilter', 'plotfiltrf', [r, tm.var('savepath', 'S'), tm.var('format', 'S')])


def resonance_synthetic(P):
    P.fresh()
    n = P.dim('npts', 2)
    args = [P.array('d', n), P.array('time', n)]
    P.st.assume(tm.lt(tm.uf('time', [CI(0)], 'R'), tm.uf('time', [CI(1)], 'R')))
    r = frame(P, 'synthetic ResonanceFilt', 'rfsed.SynthAnalysis', 'ResonanceFilt', args)
    frame(P, 'plotfiltSynthrf', 'rfsed.SynthAnalysis', 'plotfiltSynthrf', [r, tm.var('savepath', 'S')])


def water(P):
    P.fresh(contracts=gauss_contract(P), extra=transform_length(P))
    n = P.dim('nt', 3)
    dt, a = pos(P, 'dt', 'a')
    frame(P, 'deconv_waterlevel', 'rfsed.synrf', 'deconv_waterlevel', [P.array('u', n), P.array('w', n), dt, RR('preonset'), RR('wlevel'), a, RB('normalize')])


def iterative(P, phase):
    P.fresh(contracts=c12.contracts(P), extra=transform_length(P))
    n = P.dim('nt', 3)
    dt, a = pos(P, 'dt', 'a')
    args = [P.array('u', n), P.array('w', n), dt]
    kw = {'preonset': RR('preonset'), 'gaussian': a, 'itmax': P.dim('itmax', 1), 'minderr': RR('minderr'), 'phase': phase}
    P.I.rel = []
    try:
        frame(P, 'deconv_iterative (%s)' % phase, 'rfsed.synrf', 'deconv_iterative', args, kw)
    finally:
        P.I.rel = None


def operators(P):
    P.fresh()
    n = P.dim('n')
    dt, = pos(P, 'dt')
    x, y, g = P.array('x', n), P.array('y', n), P.array('g', n)
    frame(P, 'gfilter', 'rfsed.synrf', 'gfilter', [x, n, g, dt])
    frame(P, 'correl', 'rfsed.synrf', 'correl', [x, y, n])
    frame(P, 'phaseshift', 'rfsed.synrf', 'phaseshift', [x, n, dt, RR('shift')])


def dispatch(P, method):
    P.fresh(contracts=c18.deconvolutions(P))
    n = P.dim('nt', 3)
    dt, a = pos(P, 'dt', 'a')
    u, w = c13.trace(P, 'u', n, dt), c13.trace(P, 'w', n, dt)
    get = lambda o, k: P.I.getattr(o, k, P.st)
    cls = P.I.modname(P.I.module('rfsed.synrf'), 'RFTrace', P.st)
    kw = {'preonset': RR('preonset'), 'gaussian': a}
    kw.update({'method': method} if method else {})
    frame(P, 'deconvolve(%s)' % method, 'rfsed.synrf', 'deconvolve', [get(u, 'data'), get(w, 'data'), dt], kw)
    before = P.snapshot()
    P.I.call(P.I.getattr(cls, 'deconvolve', P.st), [u, w], dict(kw), P.st)
    P.note()
    P.unchanged('RFTrace.deconvolve(%s)' % method, before)


def whole(P):
    """synthetic receiver functions: depths, velocities, densities, ray parameters"""
    P.fresh(contracts=dict(c18.seismograms(P), **c18.deconvolutions(P)))
    n, m, npts = P.dim('layers', 2), P.dim('rays', 1), P.dim('npts', 3)
    dt, a = pos(P, 'dt', 'a')
    args = [P.array(x, n) for x in ('depth', 'vp', 'vs', 'rho')] + [P.lst('p', m, lambda k: tm.uf('p', [k], 'R'))]
    cls = P.I.modname(P.I.module('rfsed.synrf'), 'synrf', P.st)
    before = P.snapshot()
    o = P.I.call(cls, args, {'dt': dt, 'npts': npts, 'ipha': RI('ipha')}, P.st)
    call = lambda name, x=(), kw=None: P.I.call(P.I.getattr(o, name, P.st), list(x), dict(kw or {}), P.st)
    call('run_fwd')
    call('filter', (RR('fmin'), RR('fmax')))
    call('run_deconvolution', (), {'pre_filt': P.pylist([RR('f1'), RR('f2')]), 'preonset': RR('preonset'), 'gaussian': a})
    P.note()
    P.unchanged('synrf', before)


def fit(P):
    rf, H, K, d, dims = c07.inputs(P)
    frame(P, 'WaveformFitting', 'rfsed.WaveformFitting', 'WaveformFitting', [rf, d['preonset'], d['HSed'], d['VpSed'], d['VpCrust'], d['rayp'], K, H,
          d['gaussian'], d['wtCorr'], d['wtRMSE'], d['wtPG'], tm.var('savepath', 'S'), tm.var('format', 'S')])


def fit_parallel(P):
    rf, H, K, d, dims = c07.inputs(P)
    r = frame(P, 'WaveformPara', 'rfsed.WaveformFittingMultiproc', 'WaveformPara', [rf, d['preonset'], d['HSed'], d['VpSed'], d['VpCrust'], d['rayp'], K, H, d['gaussian']])
    frame(P, 'WaveformFit_multiproc', 'rfsed.WaveformFittingMultiproc', 'WaveformFit_multiproc', [Tup([Tup([RR('H1')]), r])])
    frame(P, 'run_waveformfitting', 'rfsed.WaveformFittingMultiproc', 'run_waveformfitting', [P.dim('nproc'), H, r])


def response(P, ipha):
    """free-surface response: media arrays"""
    P.fresh(contracts=c11.matrices(P))
    P.L.abbreviate = True
    om, = pos(P, 'omega')
    n, ip = P.dim('layers', 2), RI('ipha')
    P.st.assume(tm.le(CI(0), ip) if ipha >= 0 else tm.lt(ip, CI(0)))
    P.I.rel = []
    try:
        frame(P, 'haskell (incident %s)' % ('P' if ipha >= 0 else 'S'), 'rfsed.synrf', 'haskell', [om, RR('p'), n, ip] + [P.array(x, n) for x in ('alpha', 'beta', 'rho', 'h')])
    finally:
        P.I.rel = None


def forward(P):
    """seismograms: media arrays"""
    P.fresh(contracts={'rfsed.synrf.haskell': P.opaque('surface', c11.FWD, 'pair', True)}, extra=transform_length(P))
    n, npts = P.dim('layers', 2), P.dim('npts', 3)
    dt, = pos(P, 'dt')
    frame(P, 'fwd_seis', 'rfsed.synrf', 'fwd_seis', [RR('p'), dt, npts, RI('ipha')] + [P.array(x, n) for x in ('alpha', 'beta', 'rho', 'h')])


def run(P):
    P.assumptions.update(['drawing calls and library functions do not change their arguments (except where their documentation says so)'])
    for none in (False, True):
        for mod, fn, setup in (('rfsed.hkZhu', 'hk', c01.setup), ('rfsed.hkSeqYeck', 'hkSeq', c03.setup), ('rfsed.hkYu', 'hkYu', c04.setup),
                               ('rfsed.SynthAnalysis', 'hkSynth', c05.synth_args), ('rfsed.SynthAnalysis', 'hkSeqSynth', c05.seq_args)):
            P.section('%s, %s' % (fn, 'any argument omitted' if none else 'all arguments'), hk, mod, fn, setup, None, none)
    P.section('ResonanceFilt', resonance)
    P.section('synthetic ResonanceFilt', resonance_synthetic)
    P.section('operators', operators)
    P.section('water level', water)
    P.section('iterative, P', iterative, 'P')
    P.section('iterative, S', iterative, 'S')
    for m in (None, 'iter', 'water'):
        P.section('dispatch %s' % m, dispatch, m)
    P.section('forward modelling', forward)
    P.section('response, P', response, 1)
    P.section('response, S', response, -1)
    P.section('synthetic receiver functions', whole)
    P.section('waveform fit', fit)
    P.section('parallel waveform fit', fit_parallel)
    for mod, fn, make, stacks, layers, dflt in c16.PLOTS:
        for stack in ((tm.TRUE, tm.FALSE) if make in (c16.single, c16.seq) else (None,)):
            for layer in layers:
                for clip in ('omitted', None, tm.TRUE, tm.FALSE):
                    P.section(' '.join(map(str, (fn, stack, layer, clip))), drawn, mod, fn, make, stack, layer, clip)
    P.section('sequential fit plot', c17.sequential_frame)
    P.section('parallel fit plot', c17.parallel_frame)
