from pyvc.prove import *


def main(P):
    P.fresh()
    n, npts = P.dim('ntr'), P.dim('npts', 2)
    rf = P.stream('RF', n, npts, {'delta': Arr((n,), lambda k: tm.uf('RF.delta', [k], 'R'))})
    P.st.assume(tm.lt(tm.const(0, 'R'), tm.uf('RF.delta', [CI(0)], 'R')))
    args = [rf, RR('preonset')]
    r = P.call('rfsed.ReverbFilter', 'ResonanceFilt', args)
    P.same('ResonanceFilt', r, P.call('spec.reverb', 'ResonanceFilt', args))
    P.cover('ResonanceFilt preconditions')


def synth(P):
    P.fresh()
    n = P.dim('npts', 2)
    args = [P.array('d', n), P.array('time', n)]
    P.st.assume(tm.lt(tm.uf('time', [CI(0)], 'R'), tm.uf('time', [CI(1)], 'R')))
    r = P.call('rfsed.SynthAnalysis', 'ResonanceFilt', args)
    P.same('SynthAnalysis.ResonanceFilt', r, P.call('spec.reverb', 'ResonanceFiltSynth', args))
    P.cover('synthetic ResonanceFilt preconditions')


def run(P):
    P.section('ResonanceFilt', main)
    P.section('synthetic ResonanceFilt', synth)
    P.section('lemmas about the transform', Proof.lemmas, 'Dft.lean', ['phase_signed', 'signed_def', 'resonance', 'resonance_real', 'resonance_none'])
