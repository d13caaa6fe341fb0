from pyvc.prove import *
from props.c09 import effects

SAVE = {'save_Eq_data': 'examples/earthquake_data/', 'save_IRIS_waveform': 'examples/IRIS_Downloaded_Waveform/',
        'save_calculated_RF': 'examples/Calculated_Receiver_Functions/', 'save_catalog': 'examples/catalog/', 'save_plot': 'examples/plots/',
        'save_tests': 'examples/test_output/'}
WHERE = {'raw_data_example': 'data/Raw_Data/', 'catalog_example': 'data/Earthquake_Catalog/eq_events.quakeml'}
LOAD = {'rfMoho_example': 'data/rfstreams_Moho/rfstreams.h5', 'rfSed_example': 'data/rfstreams_Sed/rfstreams.h5',
        'read_raw_waveform_data': 'examples/IRIS_Downloaded_Waveform/00_eq_data.h5'}
M = 'rfsed.util'


def compare(P, name, f, args, s, sargs):
    P.fresh()
    m = len(P.st.eff)
    got = P.call(M, f, args)
    e = effects(P, m)
    m = len(P.st.eff)
    want = P.call('spec.places', s, sargs)
    if s != 'install':
        P.same(name + ': path', got, want)
    P.same(name + ': file-system operations', e, effects(P, m))
    P.cover(name + ' preconditions')


def helper(P, f, s, rel):
    compare(P, f, f, [], s, [rel])


def installer(P, f, parts, default):
    p = tm.var('path', 'S')
    compare(P, f, f, [p], 'install', [p, parts])
    compare(P, f + ' (default destination)', f, [], 'install', [default, parts])


def run(P):
    P.assumptions.update(['resource_filename, read_rf and copy_tree do what their documentation says',
                          'os.path.exists reports the state at the call'])
    for f, rel in sorted(SAVE.items()):
        P.section(f, helper, f, 'output', rel)
    for f, rel in sorted(WHERE.items()):
        P.section(f, helper, f, 'location', rel)
    for f, rel in sorted(LOAD.items()):
        P.section(f, helper, f, 'load', rel)
    P.section('install_examples', installer, 'install_examples', Tup([Tup(['examples', 'examples']), Tup(['data', 'data'])]), './rfsed_examples')
    P.section('install_rfsed_tests', installer, 'install_rfsed_tests', Tup([Tup(['examples/rfsed_tests', ''])]), './rfsed_tests')
