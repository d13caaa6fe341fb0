from pyvc.prove import *
from props.c09 import effects


def written(P, name, before_code, before_spec):
    P.same(name, Rope(before_code), Rope(before_spec))


def slices(P):
    P.fresh()
    args = [tm.var(x, 'S') for x in ('datapath', 'filename', 'catalog')] + [RR('la'), RR('lo'), P.pylist([RR('start'), RR('end')])]
    cat = tm.uf('read_events', [args[2]], 'U')
    P.st.assume(tm.le(CI(0), tm.uf('len', [cat], 'I')))
    files = tm.uf('sorted', [tm.uf('glob', [P.L.freeze_term(P.L.scat([args[0], '*']), P.st)], 'U')], 'U')
    P.st.assume(tm.le(CI(1), tm.uf('len', [files], 'I')))
    before = P.snapshot()
    m = len(P.st.eff)
    P.call('rfsed.ExtractEq', 'ExtractEq', args)
    code = effects(P, m)
    m = len(P.st.eff)
    P.call('spec.extract', 'extract', args)
    P.same('written: per file and event in order the slices inside the record, labelled', code, effects(P, m))
    P.unchanged('inputs', before)
    P.cover('extraction preconditions')


def wins(P):
    m = P.dim('windows', 0)
    f = lambda n: (lambda k: tm.uf(n, [k], 'R'))
    return P.lst('windows', m, lambda k: Rope([('item', {x: f(x)(k) for x in ('eqstart', 'eqend', 'onset')})]))


def one(P):
    P.fresh()
    f = tm.var('file', 'S')
    w = wins(P)
    got = P.call('rfsed.ExtractEqMultiproc', 'Get_EqStream_multiproc', [Tup([Tup([f]), w])])
    want = P.call('spec.extract', 'stream_of', [f, w])
    P.same('slices of one file', P.I.freeze(got, P.st), P.I.freeze(want, P.st))
    P.cover('one file preconditions')


def parallel(P, nproc):
    P.fresh()
    n = P.dim('files', 0)
    fs = P.lst('files', n, lambda k: tm.uf('file', [k], 'S'))
    w = wins(P)
    out = tm.var('filename', 'S')
    m = len(P.st.eff)
    P.call('rfsed.ExtractEqMultiproc', 'ExtractEq_Multiproc', [fs, w, RI('nproc') if nproc else None, out])
    code = effects(P, m)
    m = len(P.st.eff)
    P.call('spec.extract', 'extract_files', [fs, w, out])
    P.same('written: per file and window in order the slices, labelled', code, effects(P, m))
    P.cover('parallel preconditions')


def run(P):
    P.section('sequential extraction', slices)
    P.section('one file', one)
    P.section('parallel extraction', parallel, True)
    P.section('parallel extraction, default processes', parallel, False)
