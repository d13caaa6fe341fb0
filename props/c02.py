from pyvc.prove import *
from props import c01, c03, c04, c05


def maximal(P, name, rows, bm):
    """bm is a row of rows, no row has a larger value and every earlier row has a smaller one"""
    rows, bm = P.L.arr(rows, P.st), P.L.arr(bm, P.st)
    n = rows.shape[0]
    col = Arr((n,), lambda i: rows.at(i, CI(2)))
    v = tm.fresh('q', 'I')
    m = tm.binder('ArgMax', CI(0), n, v, tm.toreal(col.at(v)), 'I')
    P.obl(name + '/shape', tm.eq(bm.shape[0], CI(3)))
    for c in range(3):
        P.obl('%s[%d] is entry %d of the row of the first maximum' % (name, c, c), tm.eq(bm.at(CI(c)), rows.at(m, CI(c))))


def case(P, mod, fn, setup, pairs):
    P.fresh()
    args = setup(P, False)
    r = P.call(mod, fn, args)
    d = P.st.heap[r.did]
    for rows, bm in pairs:
        maximal(P, '%s[%s]' % (fn, bm), d[rows], d[bm])
    P.cover(fn + ' preconditions')


def run(P):
    P.section('hk', case, 'rfsed.hkZhu', 'hk', c01.setup, [('stackvalues', 'bestmodel')])
    P.section('hkSeq', case, 'rfsed.hkSeqYeck', 'hkSeq', c03.setup,
              [('stackvalueSed', 'bestmodelSed'), ('stackvalueMoho', 'bestmodelMoho')])
    P.section('hkYu', case, 'rfsed.hkYu', 'hkYu', c04.setup, [('stackvaluesSubSed', 'bestmodelSubSed')])
    P.section('hkSynth', case, 'rfsed.SynthAnalysis', 'hkSynth', c05.synth_args, [('stackvalues', 'bestmodel')])
    P.section('hkSeqSynth', case, 'rfsed.SynthAnalysis', 'hkSeqSynth', c05.seq_args,
              [('stackvalueSed', 'bestmodelSed'), ('stackvalueMoho', 'bestmodelMoho')])
