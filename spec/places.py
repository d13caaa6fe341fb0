"""Contracts of the location helpers, loaders and installers (executable, see spec/hk.py)."""
import os
from distutils import dir_util
from pkg_resources import resource_filename
from rf.rfstream import read_rf


def output(rel):
    """the package's own directory rel, created when missing"""
    p = resource_filename('rfsed', rel)
    if not os.path.exists(p):
        os.mkdir(p)
    return p


def location(rel):
    return resource_filename('rfsed', rel)


def load(rel):
    return read_rf(resource_filename('rfsed', rel))


def install(path, parts):
    """copy every (packaged directory, place below path)"""
    for rel, sub in parts:
        dir_util.copy_tree(resource_filename('rfsed', rel), os.path.join(path, sub) if sub else path,
                           preserve_mode=1, preserve_times=1, preserve_symlinks=1, update=0, verbose=1, dry_run=0)
