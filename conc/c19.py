import importlib.util
import os
import shutil
import sys
import tempfile
from conc.common import *

RULE = ('one call history of a location helper, loader or installer on a scratch copy of the package with random states of the directories; '
        'returned paths and the directory tree before and after are compared; non-trivial: distinct random histories')

SAVE = {'save_Eq_data': 'examples/earthquake_data', 'save_IRIS_waveform': 'examples/IRIS_Downloaded_Waveform',
        'save_calculated_RF': 'examples/Calculated_Receiver_Functions', 'save_catalog': 'examples/catalog', 'save_plot': 'examples/plots',
        'save_tests': 'examples/test_output'}
WHERE = {'raw_data_example': 'data/Raw_Data', 'catalog_example': 'data/Earthquake_Catalog/eq_events.quakeml'}
LOAD = {'rfMoho_example': 'data/rfstreams_Moho/rfstreams.h5', 'rfSed_example': 'data/rfstreams_Sed/rfstreams.h5',
        'read_raw_waveform_data': 'examples/IRIS_Downloaded_Waveform/00_eq_data.h5'}


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        r = os.path.relpath(root, d)
        out[r] = None
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as h:
                out[os.path.normpath(os.path.join(r, f))] = hashlib.sha256(h.read()).hexdigest()
    return out


def changed(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0))


def content(st):
    return [(tr.id, str(tr.stats.starttime), tr.stats.npts, hashlib.sha256(np.ascontiguousarray(tr.data).tobytes()).hexdigest()) for tr in st]


def run(ctx):
    src = os.path.dirname(importlib.util.find_spec('rfsed').origin)
    scratch = tempfile.mkdtemp(prefix='c19.')
    home = os.getcwd()
    try:
        shutil.copytree(src, os.path.join(scratch, 'lib', 'rfsed'), ignore=shutil.ignore_patterns('__pycache__'))
        sys.path.insert(0, os.path.join(scratch, 'lib'))
        sys.dont_write_bytecode = True
        import rfsed
        if os.path.dirname(os.path.abspath(rfsed.__file__)) != os.path.join(scratch, 'lib', 'rfsed'):
            raise RuntimeError('scratch copy of the package not in use: %s' % rfsed.__file__)
        os.chdir(scratch)
        histories(ctx, scratch, os.path.join(scratch, 'lib', 'rfsed'))
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)


def histories(ctx, scratch, pkg):
    import rfsed.util as U
    from rf.rfstream import read_rf
    keep = os.path.join(scratch, 'keep')
    shutil.copytree(pkg, keep, ignore=shutil.ignore_patterns('*.py', 'notebooks'))

    def restore(d):
        p = os.path.join(pkg, d)
        shutil.rmtree(p, ignore_errors=True)
        shutil.copytree(os.path.join(keep, d), p)

    def save(rng, i):
        names = sorted(SAVE)
        name = names[i % len(names)]
        d = os.path.join(pkg, SAVE[name])
        steps = []
        bad = []
        os.makedirs(os.path.join(keep, SAVE[name]), exist_ok=True)
        restore(SAVE[name])
        try:
            for k in range(rng.randint(1, 4)):
                state = ('missing' if i < len(names) else 'as is') if k == 0 else rng.pick('missing', 'as is', 'file', 'empty', 'again')
                if state == 'missing':
                    shutil.rmtree(d, ignore_errors=True)
                elif state == 'empty':
                    shutil.rmtree(d, ignore_errors=True)
                    os.mkdir(d)
                elif state == 'file' and os.path.isdir(d):
                    with open(os.path.join(d, 'mine_%d.txt' % k), 'w') as h:
                        h.write(str(rng.random()))
                steps.append(state)
                ctx.inputs(helper=name, states=list(steps))
                before, was = tree(pkg), os.path.isdir(d)
                p = getattr(U, name)()
                after = tree(pkg)
                if os.path.normpath(p) != d:
                    bad.append((name, 'returned %r, specified %r' % (os.path.relpath(p, pkg), SAVE[name])))
                want = dict(before)
                if not was:
                    want[SAVE[name]] = None
                if changed(after, want):
                    bad.append((name, 'directory %s; unexpected: %s' % ('existed' if was else 'was missing', changed(after, want)[:6])))
                if bad:
                    break
        finally:
            restore(SAVE[name])
        return bad
    ctx.loop('output directories', 24, 300, save, .4)

    def where(rng, i):
        name = sorted(WHERE)[i % len(WHERE)]
        ctx.inputs(helper=name, call=i)
        before = tree(pkg)
        p = getattr(U, name)()
        bad = [] if os.path.normpath(p) == os.path.join(pkg, WHERE[name]) else [(name, 'returned %r' % os.path.relpath(p, pkg))]
        return bad + [(name, 'changed %s' % c) for c in changed(before, tree(pkg))[:4]]
    ctx.loop('locations', 4, 4, where, .1)

    def load(rng, i):
        name = sorted(LOAD)[i % len(LOAD)]
        ctx.inputs(loader=name, call=i)
        before = tree(pkg)
        st = getattr(U, name)()
        bad = [] if content(st) == content(read_rf(os.path.join(pkg, LOAD[name]))) else [(name, 'is not the content of %s' % LOAD[name])]
        for tr in list(st)[::2]:        # what the caller does with it
            tr.data = tr.data * 0 - 1
        st.traces[:] = st.traces[:-1]
        return bad + [(name, 'changed %s' % c) for c in changed(before, tree(pkg))[:4]]
    ctx.loop('loaders', 6, 12, load, .2)

    def install(rng, i):
        tests = rng.maybe()
        name = 'install_rfsed_tests' if tests else 'install_examples'
        default = 'rfsed_tests' if tests else 'rfsed_examples'
        base = tempfile.mkdtemp(prefix='in.', dir=scratch)
        os.chdir(base)
        dest = rng.pick(None, 'a', 'a/b/c', os.path.join(base, 'abs'), '.', './My Copy', 'B.d/C d', 'a/', 'a$HOME b', '~x', './%d')
        d = os.path.join(base, dest or default)
        steps, bad = [], []
        try:
            for k in range(rng.randint(1, 3)):
                state = rng.pick('new', 'other files', 'stale copy', 'again', 'removed')
                if state in ('new', 'removed') and os.path.abspath(d) != base:
                    shutil.rmtree(d, ignore_errors=True)
                elif state == 'other files':
                    os.makedirs(os.path.join(d, 'examples', 'own'), exist_ok=True)
                    os.makedirs(os.path.join(d, 'data'), exist_ok=True)
                    for f in ('mine.txt', 'examples/own/mine.txt', 'data/mine.txt', 'notes_%d.txt' % k):
                        with open(os.path.join(d, f), 'w') as h:
                            h.write(str(rng.random()))
                elif state == 'stale copy':
                    for f in ('examples/catalog/eq_events.quakeml', '__init__.py'):
                        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                        with open(os.path.join(d, f), 'w') as h:
                            h.write('old')
                steps.append(state)
                ctx.inputs(installer=name, destination=dest, states=list(steps))
                had = tree(d) if os.path.isdir(d) else {}
                before = tree(pkg)
                getattr(U, name)(*([dest] if dest is not None else []))
                want = dict(had)
                for s, t in ([('examples/rfsed_tests', '.')] if tests else [('examples', 'examples'), ('data', 'data')]):
                    for f, h in tree(os.path.join(pkg, s)).items():
                        want[os.path.normpath(os.path.join(t, f))] = h
                want['.'] = None
                c = changed(tree(d), want)
                if c:
                    bad.append((name, 'after %s: %s' % (steps, c[:6])))
                if changed(before, tree(pkg)):
                    bad.append((name, 'changed the package: %s' % changed(before, tree(pkg))[:4]))
                if bad:
                    break
        finally:
            os.chdir(scratch)
            shutil.rmtree(base, ignore_errors=True)
        return bad
    ctx.loop('installation', 10, 120, install, .5)
