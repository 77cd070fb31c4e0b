"""C13: which cells belong to a trough, and its lag."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a trough (position, axes, rotation, size trend, lag, periodic or not, internal structure) in a given '
        'grid; every cell is compared with the truncated ellipsoid: membership, lag, values inside and outside; '
        'outcome = arrays of objects and facies')
BOUNDS = {'quick': '12 positions x 4 sizes x 12 rotations x periodic/not x 3 lags, and size trends x structures x grids',
          'thorough': '36 positions x 7 sizes x 24 rotations x periodic/not x 4 lags, and size trends x structures x grids'}

GRIDS = [dict(dx=0.5, dy=0.4, dz=0.25, lx=4., ly=2.4, lz=2., x0=0., y0=0., z0=0.),
         dict(dx=0.4, dy=0.5, dz=0.3, lx=2.4, ly=4., lz=1.8, x0=-10., y0=33., z0=4.),
         dict(dx=1., dy=1., dz=0.5, lx=1., ly=5., lz=2., x0=2., y0=-1., z0=-3.)]
SIZES = [[1.9, 1.1, 0.8], [1.1, 1.9, 1.5], [2.2, 2.2, 0.3], [0.7, 2.3, 1.95], [2.3, 0.3, 1.2], [1.5, 1.5, 0.75], [0.3, 0.3, 0.5]]
BIG = [[9., 1.3, 1.2], [3., 12., 1.9], [7., 7., 5.]]


def cases(tier):
    fx = [0.03, 0.31, 0.5, 1.05] if tier == 'quick' else [-0.1, 0.03, 0.31, 0.5, 0.77, 1.05]
    fy = [0.02, 0.55, 0.99]
    fz = [0.93] if tier == 'quick' else [0.93, 0.6]
    al = range(-180, 180, 30 if tier == 'quick' else 15)
    lags = [0., 0.4, 9.] if tier == 'quick' else [0., 0.2, 0.4, 9.]
    for x, y, z, s, a, per, lag in itertools.product(fx, fy, fz, SIZES[:4] if tier == 'quick' else SIZES, al,
                                                     (False, True), lags):
        yield {'g': 0, 'pos': [x, y, z], 'size': s, 'alpha': a, 'per': per, 'lag': lag}
    for s, a, x, y in itertools.product(BIG, al, fx, fy):
        yield {'g': 0, 'pos': [x, y, 0.97], 'size': s, 'alpha': a, 'per': False, 'lag': 0.4}
    for g, z, tr, st, per, s in itertools.product((0, 1, 2), (1.0, 0.8, 0.45, 0.2),
                                                  (None, [0.5, 1.2], [1.3, 0.4], [1., 1.], [0.7, 0.7]),
                                                  ('massive', 'dip', 'bulb', 'bulb_sets', 'flat'), (False, True), SIZES[:3]):
        yield {'g': g, 'pos': [0.31, 0.55, z], 'size': s, 'alpha': 25., 'per': per, 'lag': 0.2, 'trend': tr, 'st': st}


def check(case):
    model = dict(GRIDS[case['g']], periodic=case['per'], hydraulics=False)
    pos = [model['x0'] + case['pos'][0]*model['lx'], model['y0'] + case['pos'][1]*model['ly'],
           model['z0'] + case['pos'][2]*model['lz']]
    L, W, Dp = case['size']
    if case['per'] and case['g'] == 2:
        L = W = 0.7
    a = case['alpha']
    st = case.get('st', 'massive')
    el = dict(geometry='trough', structure=st, contact_model=['flat'], facies=['f1'], dip=[17., 17.],
              azimuth=[5., 5.], dipset_dist=0.3, bulbset_dist=0.3, length=L, width=W, depth=Dp, agg=1., trough_density=0.1,
              paleoflow=[a, a], te_xyz=[pos], size_ztrend=case.get('trend'), lag_height=case['lag'], lag_facies='f2',
              bg_facies='f3', bg_azim=44., bg_dip=-3.)
    o = scene.run(scene.ini({}, model, scene.strata1('e'), {'e': el}, scene.hydraulics()))
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data
    X, Y, Z = ref.mesh(model)
    t = ref.Trough(model, pos, L, W, Dp, a, case.get('trend'))
    ins, und = t.inside(X, Y, Z)
    problems = []
    obj = d['ha'] >= 0
    bad = (obj != ins) & ~und
    if bad.any():
        i = scene.first_bad(bad)
        problems.append('cell %s is %s the trough (normalized distance %g)' % (i, 'outside' if ins[i] else 'in', t.dist(X, Y, Z)[i]))
    if len(np.unique(d['ha'][obj])) > 1:
        problems.append('one trough has several numbers')
    lim = pos[2] - t.c + case['lag']
    lag = obj & (Z < lim - 1e-9)
    body = obj & (Z > lim + 1e-9)

    def same(mask, **kw):
        for k, v in kw.items():
            b = mask & ~np.isclose(d[k], v, atol=1e-9)
            if b.any():
                i = scene.first_bad(b)
                problems.append('%s of cell %s is %g instead of %g' % (k, i, d[k][i], v))
    same(lag, facies=2, azim=0., dip=0.)
    same(~obj, facies=3, azim=44., dip=-3.)
    same(body, facies=1)
    if st in ('massive', 'dip', 'flat'):
        same(body, azim=5. + a, dip=17.)
    same(np.ones_like(obj), strata=0, ae=0, hat=0)
    return Result(problems, [d['ha'], d['facies']], d['ha'].size, trivial=not ins.any())
