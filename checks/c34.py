"""C34: moving the origin moves the model, and changes nothing else."""
import copy

import numpy as np

from lib.engine import Result, digest
from lib import scene, zoo
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is (scene, deviations of the random answers from the default ones); the scene is simulated at the reference '
        'origin and with origin, manually placed objects and strata contacts moved by every offset of a complete set, '
        'with the same random answers; all arrays must agree and the grid must have moved; outcome = arrays')
BOUNDS = {'quick': '%d scenes x all executions with at most 1 deviation at every 9th choice point x 4 offsets' % (len(zoo.scenes()) + 1),
          'thorough': '%d scenes x all executions with at most 1 deviation at every choice point x 10 offsets' % (len(zoo.scenes()) + 1)}
ASSUMPTIONS = ['all lengths of the scenes are multiples of 1/64 and all offsets are integers, so that sums of coordinates '
               'are exact and no comparison changes by rounding']

OFFSETS = {'quick': [[16., 0., 0.], [0., -64., 0.], [0., 0., 32.], [-8., 4., -16.]],
           'thorough': [[16., 0., 0.], [-32., 0., 0.], [0., 8., 0.], [0., -64., 0.], [0., 0., 32.], [0., 0., -4.],
                        [-8., 4., -16.], [2., 2., 2.], [-2., 1., -1.], [64., -64., 64.]]}
CASE_TIMEOUT = {'quick': 200, 'thorough': 600}

TREND = scene.hydraulics(k_xtrend=[1., 3.], n_ztrend=[0.5, 1.])


def snap(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        return round(v*64)/64
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    return v


def scenes():
    """The scenes with all lengths rounded to 1/64, so that sums and comparisons of lengths are exact."""
    return {n: (snap_all(m), snap_all(s), {k: snap_all(x) for k, x in e.items()}) for n, (m, s, e) in raw().items()}


def snap_all(d):
    return {k: v if k == 'ae_prob' else snap(v) for k, v in d.items()}


def raw():
    res = zoo.scenes()
    m, s, e = res['mixed']
    e = {k: dict(v, k_ztrend=[0.5, 2.], n_xtrend=[1.2, 0.7]) for k, v in e.items()}
    res['mixed-trend'] = (m, s, e)
    return res


def moved(sc, off):
    m, s, e = copy.deepcopy(sc)
    for a, o in zip('xyz', off):
        m[a + '0'] = m.get(a + '0', 0.) + o
    for c in s['strata_contact_models']:
        c[1] += off[2]
    for el in e.values():
        if el.get('te_xyz'):
            el['te_xyz'] = [[p + o for p, o in zip(q, off)] for q in el['te_xyz']]
    return m, s, e


def cases(tier):
    for n in sorted(scenes()):
        yield {'scene': n, 'dev': [], 'tier': tier}


def check(case):
    sc = scenes()[case['scene']]
    bound = 1
    hy = TREND if case['scene'].endswith('trend') else None
    problems = []
    ref = scene.run(zoo.text(sc, hy), case['dev'])
    if ref.error or len(ref.reals) != 1:
        return Result(['%s: %s' % (case['scene'], ref.error)], 'error')
    r = ref.reals[0]
    children = ref.chooser.children(bound)
    if case['tier'] == 'quick':
        children = [c for c in children if c[-1][0] % 9 == len(case['scene']) % 9]
    n = 1
    for off in OFFSETS[case['tier']]:
        o = scene.run(zoo.text(moved(sc, off), hy), case['dev'])
        n += 1
        where = '%s moved by %r: ' % (case['scene'], off)
        if o.error or len(o.reals) != 1:
            problems.append(where + str(o.error))
            continue
        q = o.reals[0]
        if o.chooser.points != ref.chooser.points or o.chooser.kinds != ref.chooser.kinds:
            problems.append(where + 'other random numbers are drawn')
            continue
        if set(q.data) != set(r.data):
            problems.append(where + 'different arrays')
            continue
        for k in sorted(r.data):
            a, b = r.data[k], q.data[k]
            if a.shape != b.shape:
                problems.append(where + 'shape of ' + k)
            elif a.dtype.kind == 'f':
                bad = ~np.isclose(a, b, rtol=1e-6, atol=1e-7, equal_nan=True)
                if bad.any():
                    i = scene.first_bad(bad)
                    problems.append(where + '%s%r is %r instead of %r (%d cells)' % (k, i, b[i], a[i], bad.sum()))
            elif not np.array_equal(a, b):
                i = scene.first_bad(a != b)
                problems.append(where + '%s%r is %r instead of %r (%d cells)' % (k, i, b[i], a[i], (a != b).sum()))
        for a, d in zip('xyz', off):
            pa = getattr(r.grid, a, None)
            pb = getattr(q.grid, a, None)
            if pa is not None and pb is not None and not np.allclose(np.asarray(pa) + d, np.asarray(pb)):
                problems.append(where + 'coordinates')
    out = digest([[k, v] for k, v in sorted(r.data.items())])
    return Result(problems[:6], out, n, [dict(case, dev=c) for c in children], evaluations=n)
