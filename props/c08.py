from pyvc.prove import *
from props.c07 import inputs, NAMES


def args(d, rf, H, K):
    return [rf, d['preonset'], d['HSed'], d['VpSed'], d['VpCrust'], d['rayp'], K, H, d['gaussian']]


def spec_args(d, rf, H, K):
    return args(d, rf, H, K)


def prepare(P):
    rf, H, K, d, dims = inputs(P)
    before = P.snapshot()
    r = P.call('rfsed.WaveformFittingMultiproc', 'WaveformPara', args(d, rf, H, K))
    P.note()
    P.unchanged('inputs', before)
    return rf, H, K, d, r


def preparation(P):
    rf, H, K, d, r = prepare(P)
    s = P.call('spec.fit', 'prepared', args(d, rf, H, K))
    rope = P.st.heap[P.I.res(r, P.st).lid]
    P.obl('one set of parameters', tm.eq(P.I.lib.rope_len(rope), CI(1)))
    g = P.st.heap[P.I.res(P.I.lib.rope_get(rope, CI(0), P.st), P.st).did]
    w = P.st.heap[P.I.res(s, P.st).did]
    for x in sorted(w):
        P.same('recorded ' + x, g.get(x), w[x])
    P.same('recorded rfstream', g.get('rfstream'), rf)
    P.cover('preparation preconditions')


def depth(P):
    rf, H, K, d, r = prepare(P)
    h = RR('H1')
    before = P.snapshot()
    o = P.call('rfsed.WaveformFittingMultiproc', 'WaveformFit_multiproc', [Tup([Tup([h]), r])])
    P.note()
    P.unchanged('depth inputs', before)
    s = P.call('spec.fit', 'fit_depth', [rf, d['preonset'], d['HSed'], d['VpSed'], d['VpCrust'], d['rayp'], K, h, d['gaussian']])
    P.same('candidates of one depth', o, s)
    P.cover('depth preconditions')


def parallel(P):
    for which in ('some', 'default'):
        rf, H, K, d, r = prepare(P)
        n = P.dim('nproc') if which == 'some' else None
        before = P.snapshot()
        o = P.call('rfsed.WaveformFittingMultiproc', 'run_waveformfitting', [n, H, r])
        P.note()
        P.unchanged('parallel inputs (%s workers)' % which, before)
        s = P.call('spec.fit', 'fit_depths', args(d, rf, H, K))
        P.same('all depths (%s workers)' % which, o, s)
        P.cover('parallel preconditions')


def run(P):
    P.section('preparation', preparation)
    P.section('one depth', depth)
    P.section('any number of workers', parallel)
