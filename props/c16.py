from pyvc.prove import *
from props.draw import figures, same_figures

D = ('mod', 'val')


def base(P):
    return {'stack': None, 'time': P.array('time', P.dim('npts'))}


def surf(P, tag, nm):
    return {'stackvalue' + nm[0]: P.array2('stk' + tag, P.dim('nrow' + tag), CI(3)), 'bestmodel' + nm[1]: P.array('best' + tag, CI(3)),
            'H' + nm[2]: P.array('H' + tag, P.dim('nH' + tag)), 'K' + nm[2]: P.array('K' + tag, P.dim('nK' + tag))}


def single(P, stack, layer):
    npts = P.dim('npts')
    d = {'staname': tm.var('staname', 'S'), 'comp': tm.var('comp', 'S'), 'layer': layer, 'Vp': RR('Vp'), 'stack': stack,
         'RF': P.stream('RF', P.dim('ntr'), npts), 'RFStack': P.array('RFStack', npts), 'AvgSlow': RR('AvgSlow'), 'time': P.array('time', npts)}
    d.update(surf(P, '', ('s', '', '')))
    return d


def seq(P, stack, layer):
    npts = P.dim('npts')
    d = {'staname': tm.var('staname', 'S'), 'comp': tm.var('comp', 'S'), 'VpSed': RR('VpSed'), 'VpMoho': RR('VpMoho'), 'stack': stack, 'time': P.array('time', npts),
         'RFSed': P.stream('RFSed', P.dim('ntrS'), npts), 'RFSedStack': P.array('RFSedStack', npts), 'AvgSlow': RR('AvgSlow'),
         'RFMoho': P.stream('RFMoho', P.dim('ntrM'), npts), 'RFMohoStack': P.array('RFMohoStack', npts)}
    d.update(surf(P, 'Sed', ('Sed', 'Sed', 'Sed')))
    d.update(surf(P, 'Moho', ('Moho', 'Moho', 'Moho')))
    return d


def yu(P, stack, layer):
    npts = P.dim('npts')
    d = {x: RR(x) for x in ('Pdelay', 'tlag', 'VpMoho', 'VpSed', 'rayp', 'SedThick')}
    d.update({'FltRF': P.array('FltRF', npts), 'time': P.array('time', npts)})
    d.update(surf(P, '', ('sSubSed', 'SubSed', 'Moho')))
    return d


def syn(P, stack, layer):
    npts = P.dim('npts')
    d = {'SynthRF': P.array('SynthRF', npts), 'time': P.array('time', npts), 'Vp': RR('Vp'), 'layer': layer, 'rayp': RR('rayp')}
    d.update(surf(P, '', ('s', '', '')))
    return d


def synseq(P, stack, layer):
    npts = P.dim('npts')
    d = {'SynthRFSed': P.array('SynthRFSed', npts), 'SynthRFMoho': P.array('SynthRFMoho', npts), 'time': P.array('time', npts), 'RayP': RR('RayP'),
         'VpSed': RR('VpSed'), 'VpMoho': RR('VpMoho')}
    d.update(surf(P, 'Sed', ('Sed', 'Sed', 'Sed')))
    d.update(surf(P, 'Moho', ('Moho', 'Moho', 'Moho')))
    return d


PLOTS = [('rfsed.hkZhu', 'plothk', single, True, ('Moho', 'Sed'), True), ('rfsed.hkSeqYeck', 'plotSeqhk', seq, True, (None,), True),
         ('rfsed.hkYu', 'plothkYu', yu, False, (None,), True), ('rfsed.SynthAnalysis', 'plothkSynth', syn, False, ('Moho', 'Sed'), False),
         ('rfsed.SynthAnalysis', 'plothkSeqSynth', synseq, False, (None,), False)]


def plot(P, mod, fn, make, stack, layer, clip, default):
    P.fresh()
    d = make(P, stack, layer)
    r = P.dct(d)
    path, fmt, g = tm.var('savepath', 'S'), tm.var('format', 'S'), P.pylist([RR('g%d' % i) for i in range(4)])
    args, spec = [r, path], [r, path]
    if clip == 'omitted':
        spec += [P.pylist([tm.const(x, 'R') for x in (75, 10, 15, 2.5)]), default, 'jpg']
    elif clip is None:
        args += [None, None, None]
        spec += [None, None, None]
    else:
        args += [g, clip, fmt]
        spec += [g, clip, fmt]
    m = len(P.st.eff)
    P.call(mod, fn, args)
    got = figures(P, P.st.eff[m:])
    m = len(P.st.eff)
    P.call('spec.plots', fn, spec)
    want = figures(P, P.st.eff[m:])
    same_figures(P, '%s (%s)' % (fn, ', '.join(filter(None, [layer, {tm.TRUE: 'stacked', tm.FALSE: 'single traces', None: None}[stack],
                 {'omitted': 'options omitted', None: 'options None', tm.TRUE: 'negative values removed', tm.FALSE: 'negative values shown'}[clip]]))), got, want)
    P.cover(fn + ' preconditions')


def run(P):
    P.assumptions.update(['matplotlib draws what its calls say; drawing calls do not change their arguments',
                          'a figure shows the filled surface of tricontourf, the limits set last, lines and markers of plot'])
    for mod, fn, make, stacks, layers, dflt in PLOTS:
        for stack in ((tm.TRUE, tm.FALSE) if make in (single, seq) else (None,)):
            for layer in layers:
                for clip in ('omitted', None, tm.TRUE, tm.FALSE):
                    if layer == 'Sed' and clip in ('omitted', None):
                        continue
                    P.section(' '.join(map(str, (fn, stack, layer, clip))), plot, mod, fn, make, stack, layer, clip, tm.TRUE if dflt else tm.FALSE)
