"""C29: HydroGeoSphere output."""
import itertools
import os
import shutil

import numpy as np

from lib.engine import Result
from lib import scene, outs

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is (grid, model, level of heterogeneity, number of realizations); the two written tables are parsed and compared with '
        'the tensors and porosities of all cells in their order; outcome = tables')
BOUNDS = {'quick': 'all grids of 1-4 x 1-4 x 1-4 cells x 2 models; 3 levels of heterogeneity; numsim 2',
          'thorough': 'all grids of 1-7 x 1-7 x 1-7 cells x 2 models x 3 levels of heterogeneity; numsim 1-3'}


def cases(tier):
    t = tier == 'thorough'
    r = range(1, 8) if t else range(1, 5)
    for shape in itertools.product(r, r, r):
        for which in ('trough', 'sheets'):
            for het in ('internal', 'facies', 'none') if t or shape in ((2, 3, 4), (4, 3, 2)) else ('internal',):
                yield {'shape': list(shape), 'which': which, 'het': het, 'num': 1}
    for num in (2, 3) if t else (2,):
        yield {'shape': [3, 2, 2], 'which': 'trough', 'het': 'internal', 'num': num}


def check(case):
    d = scene.fresh_dir()
    try:
        return _check(case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _check(case, d):
    m = dict(heterogeneity=False) if case['het'] == 'none' else dict(heterogeneity_level=case['het'])
    model, text = outs.text(case['shape'], case['which'], ['hgs'], model=m, run=dict(numsim=case['num'], runname='rn', modeldir=d),
                            flowtrans=dict(hin=[1., 1., 1.], hout=[0., 0., 0.]))
    o = outs.execute(text, d)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    problems = []
    n = int(np.prod(case['shape']))
    for i, r in enumerate(o.reals):
        base = os.path.join(d, 'rn', *(['real_%03d' % (i + 1)] if case['num'] > 1 else []), 'HGS')
        try:
            kt = np.loadtxt(os.path.join(base, 'ktensors.txt'), ndmin=2)
            po = np.loadtxt(os.path.join(base, 'porosity.txt'), ndmin=2)
        except Exception as e:      # noqa: unreadable result
            problems.append('cannot be read: %r' % e)
            break
        t = r.data['ktensors'].reshape(n, 3, 3)
        want = np.stack([t[:, 0, 0], t[:, 1, 1], t[:, 2, 2], t[:, 0, 1], t[:, 0, 2], t[:, 1, 2]], axis=1)
        if kt.shape != (n, 7) or po.shape != (n, 2):
            problems.append('tables of %s and %s for %d cells' % (kt.shape, po.shape, n))
            break
        if not np.array_equal(kt[:, 0], 1 + np.arange(n)) or not np.array_equal(po[:, 0], 1 + np.arange(n)):
            problems.append('numbering of the cells')
        bad = ~np.isclose(kt[:, 1:], want, rtol=6e-4, atol=1e-30)
        if bad.any():
            j = scene.first_bad(bad)
            problems.append('cell %d, column %d: %g instead of %g' % (j[0] + 1, j[1] + 2, kt[j[0], j[1] + 1], want[j]))
        bad = np.abs(po[:, 1] - r.data['poros'].ravel()) > 6e-4
        if bad.any():
            problems.append('porosity of cell %d' % (scene.first_bad(bad)[0] + 1))
    return Result(problems, [case['shape'], kt if not problems else 0], 2*case['num'])
