"""C26: data files hold exactly the generated arrays."""
import itertools
import os
import shutil

import numpy as np

from lib.engine import Result
from lib import scene, outs, readers

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is (grid, model, with or without hydraulics, list of formats, number of realizations); all created files are read by '
        'independent readers and compared with the arrays of the realization: names, shapes, values, positions of the cells; '
        'outcome = arrays and formats')
BOUNDS = {'quick': 'all grids of 1-3 x 1-3 x 1-3 cells x 2 models x with/without hydraulics x 5 single formats and all at once; numsim 3; '
                   '5 origins',
          'thorough': 'all grids of 1-5 x 1-5 x 1-5 cells, the same, and all 31 subsets of the formats, numsim up to 11'}
FMT = ['npz', 'py', 'mat', 'h5', 'vtr']


def cases(tier):
    t = tier == 'thorough'
    r = range(1, 6) if t else range(1, 4)
    for shape in itertools.product(r, r, r):
        for which in ('trough', 'sheets'):
            for hyd in (True, False):
                for f in [[x] for x in FMT] + [FMT]:
                    if f == FMT or (sum(shape) + len(f[0])) % 2 == 0 or t:
                        yield {'shape': list(shape), 'which': which, 'hyd': hyd, 'fmt': f, 'num': 1}
    for num in (2, 3) if not t else (2, 3, 5, 11):
        for f in (['npz', 'vtr'], ['py'], ['mat', 'h5']):
            yield {'shape': [3, 2, 4], 'which': 'trough', 'hyd': True, 'fmt': f, 'num': num}
    for org in ([0., 0., 0.], [1000.1, -0.7, 20000.], [0.1, 0.2, -0.3], [-2.3, 0.4, -7.5], [-1e4, -3., 2.]):
        for shape in ([3, 3, 3], [7, 10, 3], [30, 1, 1], [1, 30, 1], [1, 1, 30], [1, 1, 1]):
            yield {'shape': shape, 'which': 'sheets', 'hyd': True, 'fmt': FMT, 'num': 1, 'org': org}
    if t:
        for n in range(1, 6):
            for f in itertools.combinations(FMT, n):
                yield {'shape': [2, 3, 4], 'which': 'trough', 'hyd': True, 'fmt': list(f)[::-1], 'num': 1}


def same(got, want):
    got = np.asarray(got)
    return got.size == want.size and got.shape[:want.ndim] == want.shape[:got.ndim] and \
        np.array_equal(got.reshape(want.shape), want)


def check(case):
    d = scene.fresh_dir()
    try:
        return _check(case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _check(case, d):
    org = case.get('org', outs.ORIGIN)
    model, text = outs.text(case['shape'], case['which'], case['fmt'], model=dict(hydraulics=case['hyd']),
                            run=dict(numsim=case['num'], runname='rn', modeldir=d), origin=org)
    o = outs.execute(text, d)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    if len(o.reals) != case['num']:
        return Result(['%d realizations' % len(o.reals)], 'error')
    problems = []
    for i, r in enumerate(o.reals):
        base = os.path.join(d, 'rn')
        if case['num'] > 1:
            base = os.path.join(base, 'real_%03d' % (i + 1))
        keys = {'facies', 'strata', 'ae', 'ha', 'hat', 'azim', 'dip'} | ({'k_iso', 'poros', 'anirat', 'ktensors'} if case['hyd'] else set())
        if not keys <= set(r.data):
            problems.append('no arrays %s' % sorted(keys - set(r.data)))
        for f in case['fmt']:
            try:
                if f == 'vtr':
                    problems += vtr(os.path.join(base, 'rn.vtr'), model, case['shape'], org, r.data)
                    continue
                ext, read = readers.READ[f]
                got = read(os.path.join(base, 'rn.' + ext))
            except Exception as e:      # noqa: unreadable result
                problems.append('%s: %r' % (f, e))
                continue
            if set(got) != set(r.data):
                problems.append('%s holds %s instead of %s' % (f, sorted(got), sorted(r.data)))
                continue
            for k, v in r.data.items():
                if not same(got[k], v):
                    problems.append('%s: %s differs' % (f, k))
                if np.asarray(got[k]).dtype.kind != v.dtype.kind:
                    problems.append('%s: type of %s is %s instead of %s' % (f, k, got[k].dtype, v.dtype))
        if i and case['hyd'] and np.prod(case['shape']) > 1 and np.array_equal(r.data['k_iso'], o.reals[i-1].data['k_iso']):
            problems.append('two identical realizations')
    return Result(problems, [case['fmt'], case['shape'], o.reals[-1].data.get('k_iso', o.reals[-1].data['azim'])], len(case['fmt'])*case['num'])


def vtr(path, model, shape, org, data):
    xyz, cells, points = readers.vtr(path)
    problems = []
    for a, n, d, o, c in zip('xyz', shape, outs.D, org, xyz):
        if len(c) != n + 1 or not np.allclose(c, o + d*np.arange(n + 1), rtol=0, atol=1e-9*max(1, abs(o))):
            problems.append('vtr: nodes in %s: %s' % (a, c))
    want = {k: v for k, v in data.items() if k != 'ktensors'}
    if set(want) - set(cells):
        problems.append('vtr holds %s instead of %s' % (sorted(cells), sorted(want)))
    for k, v in want.items():
        if k in cells and not np.array_equal(cells[k], v):
            problems.append('vtr: %s differs' % k)
    return problems
