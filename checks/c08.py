"""C08: the grid: number, position and index order of the cells."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is a grid (origin, spacing and number of cells of each axis); a model of dipping beds normal to one axis is '
        'generated on it, so that the stored facies reveal where every array index lies in space; array shapes, cell centres '
        'and facies of every cell are compared with the reference; outcome = shape and facies pattern')
BOUNDS = {'quick': 'per axis: 6 spacings x 4 origins x cell numbers 1-12, 30 and 100 (the other axes fixed), 3 bed orientations',
          'thorough': 'additionally spacings 1/n and cell numbers 1-60, and all pairs of axes over a smaller alphabet'}

D = (1., 0.1, 0.3, 2.5, 0.001, 7.)
O = (0., -3.7, 1000.1, 20000.)


def cases(tier):
    ns = list(range(1, 13)) + [30, 100]
    ds = D
    if tier == 'thorough':
        ns = list(range(1, 61)) + [100]
        ds = D + (0.7, 0.05, 1/3., 1/7., 0.15)
    for axis in range(3):
        for d, o, n in itertools.product(ds, O, ns):
            yield {'axes': [[d, o, n] if a == axis else [(0.5, 0.25, 2.)[a], (1., 0., -2.)[a], 2 + a % 2] for a in range(3)],
                   'bed': axis}
    yield {'axes': [[0.5, 0., 3], [None, 1., 2], [None, 0., 4]], 'bed': 0}
    yield {'axes': [[0.5, 0., 3], [None, 1., 2], [0.25, 0., 4]], 'bed': 1}
    yield {'axes': [[0.5, 0., 3], [0.2, 1., 2], [None, 0., 4]], 'bed': 2}
    if tier == 'thorough':
        for bed in range(3):
            for t in itertools.product(itertools.product((0.1, 2.5, 0.3), (0., -3.7), (1, 3, 7)), repeat=2):
                for a, b in ((0, 1), (1, 2), (0, 2)):
                    ax = [[0.5, 1., 2], [0.25, 0., 3], [2., -2., 2]]
                    ax[a], ax[b] = list(t[0]), list(t[1])
                    yield {'axes': ax, 'bed': bed}


def check(case):
    model = dict(hydraulics=False)
    d0 = case['axes'][0][0]
    ds, ns = [], []
    for a, (d, o, n) in zip('xyz', case['axes']):
        model['d' + a] = d
        model[a + '0'] = o
        dd = d if d is not None else d0
        model['l' + a] = float('%.12g' % (dd*n))
        ds.append(dd)
        ns.append(n)
    bed = case['bed']
    azim, dip = [(0., 90.), (90., 90.), (0., 0.)][bed]
    dist = 1.5*ds[bed]
    el = {'sh': dict(geometry='sheet', structure='dip', contact_model=['flat'], facies=['f1', 'f2', 'f3'],
                     altfacies=[['f2'], ['f3'], ['f1']], dip=[dip, dip], azimuth=[azim, azim],
                     dipset_dist=dist, lens_thickness=-1)}
    o = scene.run(scene.ini({}, model, scene.strata1('sh', ae_z_mean=[[1e6]]), el, scene.hydraulics()))
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    data, grid = o.reals[0].data, o.reals[0].grid
    problems = []
    shape = tuple(ns)
    for k, v in data.items():
        if v.shape != shape:
            problems.append('%s has the shape %s instead of %s' % (k, v.shape, shape))
    if problems:
        return Result(problems, str(shape))
    centres = [o_ + d*(np.arange(n) + 0.5) for d, (_, o_, _), n in zip(ds, case['axes'], ns)]
    for a, c in zip('xyz', centres):
        g = getattr(grid, a, None)
        if g is not None and (len(g) != len(c) or not np.allclose(g, c, rtol=1e-9, atol=1e-6*ds['xyz'.index(a)])):
            problems.append('cell centres in %s' % a)
        if (getattr(grid, 'nx', ns[0]), getattr(grid, 'ny', ns[1]), getattr(grid, 'nz', ns[2])) != shape:
            problems.append('numbers of cells')
    idx = np.arange(ns[bed])
    sign = -1 if bed == 1 else 1
    u = sign*(idx + 0.5)*ds[bed]/dist
    sh = [1, 1, 1]
    sh[bed] = ns[bed]
    if set(np.unique(data['facies'])) - {1, 2, 3}:
        problems.append('facies %s' % np.unique(data['facies']))
    elif not np.array_equal(data['facies'], np.broadcast_to(np.take(data['facies'], [0], axis=(bed + 1) % 3).take(
            [0], axis=(bed + 2) % 3), shape)):
        problems.append('beds normal to axis %d vary along the other axes' % bed)
    else:
        line = np.moveaxis(data['facies'], bed, 0)[:, 0, 0]
        if not ref.phases(u, line, 3):
            problems.append('beds along axis %d: %s' % (bed, line.tolist()[:30]))
    return Result(problems, [list(shape), data['facies'].ravel().tolist()], int(np.prod(shape)))
