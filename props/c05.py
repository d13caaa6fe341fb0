from pyvc.prove import *
from props import c06


def synth_args(P, none):
    n = P.dim('npts')
    o = (lambda v, nm: P.opt(v, nm)) if none else (lambda v, nm: v)
    return [P.array('d', n), P.array('time', n), RR('rayp'), P.array('H', P.dim('nH')), P.array('K', P.dim('nK')),
            o(RR('Vp'), 'Vp'), o(RR('w1'), 'w1'), o(RR('w2'), 'w2'), o(RR('w3'), 'w3'), o(tm.var('layer', 'S'), 'layer')]


def synth(P, none):
    P.fresh()
    args = synth_args(P, none)
    r = P.call('rfsed.SynthAnalysis', 'hkSynth', args)
    P.same('hkSynth', r, P.call('spec.hk', 'hkSynth', args))
    P.cover('hkSynth preconditions')


def seq_args(P, none):
    n = P.dim('npts')
    o = (lambda v, nm: P.opt(v, nm)) if none else (lambda v, nm: v)
    return [P.array('dS', n), P.array('dM', n), P.array('time', n), RR('rayp'), P.array('HSed', P.dim('nHS')), P.array('KSed', P.dim('nKS')),
            o(RR('VpSed'), 'VpSed'), o(RR('w1S'), 'w1S'), o(RR('w2S'), 'w2S'), o(RR('w3S'), 'w3S'),
            P.array('HMoho', P.dim('nHM')), P.array('KMoho', P.dim('nKM')), RR('VpMoho'), RR('w1M'), RR('w2M'), RR('w3M')]


def seq(P, none):
    P.fresh()
    args = seq_args(P, none)
    r = P.call('rfsed.SynthAnalysis', 'hkSeqSynth', args)
    d = P.st.heap[r.did]
    P.same('hkSeqSynth', r, P.call('spec.hk', 'hkSeqSynth', [d['bestmodelSed']] + args))
    P.cover('hkSeqSynth preconditions')


def agree(P):
    """relational: the data analysis of one receiver function and the synthetic analysis give the same surface"""
    P.fresh()
    npts = P.dim('npts', 2)
    rf = P.stream('RF', CI(1), npts)
    H, K = P.array('H', P.dim('nH')), P.array('K', P.dim('nK'))
    pre, Vp, w = RR('preonset'), RR('Vp'), [RR('w1'), RR('w2'), RR('w3')]
    lay = tm.var('layer', 'S')
    r = P.call('rfsed.hkZhu', 'hk', [rf, pre, H, K, Vp] + w + [lay, tm.FALSE])
    d = P.st.heap[r.did]
    tr = P.L.getitem(rf, CI(0), P.st)
    data = P.I.getattr(tr, 'data', P.st)
    rayp = tm.mul(tm.uf('RF.slowness', [CI(0)], 'R'), tm.var('deg_per_km', 'R'))
    s = P.call('rfsed.SynthAnalysis', 'hkSynth', [data, d['time'], rayp, H, K, Vp] + w + [lay])
    e = P.st.heap[s.did]
    for k in ('stackvalues', 'bestmodel', 'layer', 'Vp', 'time', 'H', 'K'):
        P.same('hkSynth = hk on one receiver function [%s]' % k, e[k], d[k])
    P.cover('agreement preconditions')


def run(P):
    for none in (False, True):
        tag = 'any argument omitted' if none else 'all arguments given'
        P.section('hkSynth, ' + tag, synth, none)
        P.section('hkSeqSynth, ' + tag, seq, none)
    P.section('hkSynth agrees with hk', agree)
    P.section('synthetic ResonanceFilt', c06.synth)
