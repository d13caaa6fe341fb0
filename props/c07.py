from pyvc.prove import *
from props.c18 import seismograms, deconvolutions

NAMES = ['HSed', 'VpSed', 'VpCrust', 'rayp', 'gaussian', 'wtCorr', 'wtRMSE', 'wtPG', 'preonset']


def select(P):
    """the traces of one component: a sub-list of the stream"""
    def h(o, kw, st):
        if set(kw) != {'component'}:
            raise Unsupported('select by %s' % sorted(kw))
        c = P.L.sterm(kw['component'])
        n = tm.uf('selected.n', [c], 'I')
        st.assume(tm.le(CI(1), n))
        return StRef(o.sid, n, lambda k: o.idx(tm.uf('selected', [c, k], 'I')))
    return h


def inputs(P):
    P.fresh(contracts=dict(seismograms(P), **deconvolutions(P)))
    P.L.extra['select'] = select(P)
    n, nH, nK, npts = P.dim('ntr'), P.dim('nH'), P.dim('nK'), P.dim('npts', 3)
    d = {x: RR(x) for x in NAMES}
    P.st.assume(tm.lt(tm.const(0, 'R'), tm.uf('RF.delta', [CI(0)], 'R')))
    return P.stream('RF', n, npts), P.array('H', nH), P.array('K', nK), d, (n, nH, nK, npts)


def fit(P):
    rf, H, K, d, dims = inputs(P)
    before = P.snapshot()
    sp, fm = tm.var('savepath', 'S'), tm.var('format', 'S')
    r = P.call('rfsed.WaveformFitting', 'WaveformFitting', [rf, d['preonset'], d['HSed'], d['VpSed'], d['VpCrust'], d['rayp'], K, H,
               d['gaussian'], d['wtCorr'], d['wtRMSE'], d['wtPG'], sp, fm])
    P.note()
    P.unchanged('inputs', before)
    s = P.call('spec.fit', 'fit', [rf, d['preonset'], d['HSed'], d['VpSed'], d['VpCrust'], d['rayp'], K, H, d['gaussian'], d['wtCorr'], d['wtRMSE'], d['wtPG']])
    g = P.st.heap[P.I.res(r, P.st).did]
    P.same('solutions', g['WaveformSolutions'], s)
    for x, v in dict(d, KMoho=K, HMoho=H, rfstream=rf, savepath=sp, format=fm).items():
        if x != 'preonset':
            P.same('echo ' + x, g[x], v)
    P.cover('fit preconditions')


def run(P):
    P.section('waveform fit', fit)
