"""C30: missing optional dependencies only affect their own formats."""
import contextlib
import io
import itertools
import os
import shutil
import sys

import numpy as np

from lib.engine import Result
from lib import scene, outs, readers

NEEDS_EXT = True
LEVEL = 'fault_enumeration'
RULE = ('a case is (set of optional packages that cannot be imported, list of requested formats in some order, number of '
        'realizations, possibly an unknown format); after the run, exactly the files of the available formats exist and are complete, '
        'every missing format is reported, and only saved formats are announced; outcome = created files and messages')
BOUNDS = {'quick': 'all 8 subsets of missing packages x all lists of 1-2 distinct formats in both orders and all 8 formats in 3 orders, numsim 1; '
                   'a part with numsim 2; unknown formats at every position',
          'thorough': 'all 8 subsets of missing packages x all 255 subsets of formats in 2 orders; numsim 2; unknown formats'}
FMT = ['npz', 'py', 'mat', 'h5', 'vtr', 'mf', 'mf6', 'hgs']
NEEDS = {'h5': 'h5py', 'vtr': 'pyevtk', 'mf': 'flopy', 'mf6': 'flopy'}
PKG = ['h5py', 'pyevtk', 'flopy']
FILES = {'npz': ['rn.npz'], 'py': ['rn.pickle'], 'mat': ['rn.mat'], 'h5': ['rn.h5'], 'vtr': ['rn.vtr'],
         'mf': ['MODFLOW/'], 'mf6': ['mf6/'], 'hgs': ['HGS/ktensors.txt', 'HGS/porosity.txt']}


def cases(tier):
    subsets = [list(s) for n in range(4) for s in itertools.combinations(PKG, n)]
    for miss in subsets:
        lists = [[f] for f in FMT] + [list(p) for p in itertools.permutations(FMT, 2)]
        lists += [FMT, FMT[::-1], FMT[3:] + FMT[:3]]
        if tier == 'thorough':
            lists += [list(c) for n in range(3, 9) for c in itertools.combinations(FMT, n)]
            lists += [list(c)[::-1] for n in range(3, 8) for c in itertools.combinations(FMT, n)]
        for f in lists:
            yield {'miss': miss, 'fmt': f, 'num': 1}
        for f in (FMT, ['h5', 'npz'], ['mf6', 'vtr', 'mat']):
            yield {'miss': miss, 'fmt': f, 'num': 2}
        for f in (['xyz'], ['npz', 'vtk'], ['h5', 'NPZ2', 'mat'], ['vtr', 'hdf']):
            yield {'miss': miss, 'fmt': f, 'num': 1}


class Blocked:
    """The packages (and everything in them) cannot be imported."""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] in self.names:
            raise ModuleNotFoundError("No module named '%s'" % name, name=name)

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if k.split('.')[0] in self.names}
        for k in self.saved:
            del sys.modules[k]
        sys.meta_path.insert(0, self)

    def __exit__(self, *exc):
        sys.meta_path.remove(self)
        sys.modules.update(self.saved)
        return False


def setup(workdir):
    import flopy, h5py, pyevtk.hl       # noqa: imported before they are blocked


def check(case):
    d = scene.fresh_dir()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return _check(case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _check(case, d):
    model, text = outs.text((2, 2, 2), 'sheets', case['fmt'], run=dict(numsim=case['num'], runname='rn', modeldir=d),
                            flowtrans=dict(hin=[1., 1., 1.], hout=[0., 0., 0.]))
    warned = []
    with Blocked(case['miss']):
        o = outs.execute(text, d, warned=warned)
    problems = []
    unknown = [f for f in case['fmt'] if f not in FMT]
    if unknown:
        if o.error is None:
            problems.append('format %s is accepted' % unknown)
        left = [f for f in readers.files(d) if f != 'm.ini']
        if left:
            problems.append('results in spite of an unknown format: %s' % left)
        return Result(problems, [case['fmt'], o.error], 1)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    avail = [f for f in case['fmt'] if NEEDS.get(f) not in case['miss']]
    gone = [f for f in case['fmt'] if f not in avail]
    for i, r in enumerate(o.reals):
        base = os.path.join(d, 'rn', *(['real_%03d' % (i + 1)] if case['num'] > 1 else []))
        got = [f for f in readers.files(base) if not f.endswith('.ini')]
        for f in FMT:
            for x in FILES[f]:
                here = [g for g in got if g == x or (x.endswith('/') and g.startswith(x))]
                if f in avail and not here:
                    problems.append('%s is missing (%s)' % (x, got))
                if f not in avail and here:
                    problems.append('%s exists' % here)
                got = [g for g in got if g not in here]
        if got:
            problems.append('unexpected files %s' % got)
        for f in avail:
            if f in readers.READ:
                ext, read = readers.READ[f]
                try:
                    x = read(os.path.join(base, 'rn.' + ext))
                    if set(x) != set(r.data) or any(not np.array_equal(np.ravel(x[k]), np.ravel(r.data[k])) for k in x):
                        problems.append('contents of %s' % f)
                except Exception as e:      # noqa: unreadable result
                    problems.append('%s: %r' % (f, e))
    saved = [l.split('Saved ', 1)[1].split()[0] for l in o.stdout.splitlines() if 'Saved ' in l]
    if sorted(saved) != sorted(avail*case['num']):
        problems.append('announced: %s instead of %s' % (saved, avail*case['num']))
    if gone and not warned:
        problems.append('no warning about %s' % gone)
    if not gone and any('not possible' in w for w in warned):
        problems.append('warnings although nothing is missing')
    for f in gone:
        if not any(NEEDS[f] in w for w in warned):
            problems.append('no warning names the missing package %s' % NEEDS[f])
    return Result(problems, [case['fmt'], case['miss'], case['num']], len(case['fmt']))
