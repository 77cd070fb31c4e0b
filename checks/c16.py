"""C16: internal structure of channels."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref, chan
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a channel (structure, dip, distance of the beds, flow angle, meanders) with given random answers; facies '
        'and angles of every cell are compared with beds across the centreline and the flow direction; outcome = arrays')
BOUNDS = {'quick': 'straight: 7 dips x 4 distances x 8 flow angles x 3 shifts x 2 grids, massive with 4 dips; meandering: 6 patterns x '
                   '3 amplitudes x 4 dips x 2 distances',
          'thorough': 'straight: 13 dips x 6 distances x 24 flow angles x 4 shifts x 2 grids, massive with 4 dips; meandering: 20 patterns '
                      'x 4 amplitudes x 6 dips x 3 distances'}
from checks.c15 import GRIDS   # noqa: E402


def cases(tier):
    q = tier == 'quick'
    for dip, dist, fa, f, g in itertools.product(
            (0., 10., 25., 40., 60., 80., 90.) if q else [7.5*i for i in range(13)], (0.15, 0.3, 0.55, 1.7) if q else (0.1, 0.15, 0.3, 0.55, 1.1, 1.7),
            (0, 20, 90, 135, 180, 200, -60, 270) if q else range(0, 360, 15),
            (0.28125, 0., 0.9990234375) if q else (0.28125, 0., 0.9990234375, 0.5), (0, 1)):
        yield {'dip': dip, 'dist': dist, 'fa': fa, 'frac': f, 'g': g}
    for dip, fa, g in itertools.product((-20., 0., 20., 75.), (0, 33, 180), (0, 1)):
        yield {'dip': dip, 'fa': fa, 'g': g, 'massive': True, 'frac': 0.5}
    for salt, eps, dip, dist in itertools.product(range(6) if q else range(20), (0.05, 0.2, 0.5) if q else (0.05, 0.1, 0.2, 0.5),
                                                  (5., 25., 50., 90.) if q else (0., 5., 15., 25., 50., 90.), (0.2, 0.6) if q else (0.12, 0.2, 0.6)):
        yield {'dip': dip, 'dist': dist, 'fa': 40*salt, 'frac': 0.28125, 'g': 0, 'eps': eps, 'salt': salt}


def check(case):
    model = dict(GRIDS[case['g']], hydraulics=False)
    X, Y, Z = ref.mesh(model)
    top = model['z0'] + model['lz']
    massive = case.get('massive')
    ds = 0.17
    el = chan.element(width=3.3, depth=1.25, flow_angle=case['fa'], structure='massive' if massive else 'dip', agg=0.07, buffer=1.2,
                      facies=['f1', 'f2', 'f3'], altfacies=[['f2'], ['f3'], ['f1']], dip=[case['dip']]*2, azimuth=[50., 50.],
                      dipset_dist=case.get('dist'), eps_factor=case.get('eps', 0.), ds=ds)
    text = scene.ini({}, model, scene.strata1('c'), {'c': el}, scene.hydraulics())
    fr = (case['frac'], 0.1, 0.6)
    ch = chan.Wavy(case['salt'], fractions=fr) if 'eps' in case else Chooser(fractions=fr)
    o = scene.run(text, chooser=ch)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data
    problems = []
    curved = 'eps' in case
    objs = chan.objects(o.reals[0])
    if curved and objs is None:
        return Result([], 'not accessible', trivial=True)
    cells = 0
    zs = chan.levels(top, model['z0'], 0.07, 1.2, 1.25)
    for h in np.unique(d['ha'][d['ha'] >= 0]):
        m = d['ha'] == h
        cells += int(m.sum())
        fac = d['facies'][m]
        if not set(fac.tolist()) <= {1, 2, 3}:
            problems.append('facies %s' % np.unique(fac))
            continue
        if massive:
            if len(np.unique(fac)) != 1 or not np.allclose(d['dip'][m], case['dip']) or len(np.unique(d['azim'][m])) != 1:
                problems.append('a massive channel with several values')
            continue
        if not np.allclose(d['dip'][m], case['dip']):
            problems.append('dip %s' % np.unique(d['dip'][m]))
        if curved:
            c = objs[int(h)] if int(h) < len(objs) else None
            if c is None:
                problems.append('channel number %d' % h)
                continue
            px, py, vx, vy, zt = c['x'], c['y'], c['vx'], c['vy'], c['z']
        else:
            px, py = chan.straight(model, 3.3, case['fa'], ds, (case['frac'] - 0.5)*chan.domain_width(model, case['fa']))
            fa = np.radians(case['fa'])
            vx, vy = np.full(len(px), np.cos(fa)), np.full(len(px), np.sin(fa))
            k = int(h) - int(d['ha'][d['ha'] >= 0].min())
            zt = None
        # azimuth: direction of the flow, weighted by the inverse distance
        dist = np.hypot(X[m][:, None] - px[None, :], Y[m][:, None] - py[None, :])
        w = 1/(dist + 1e-20)
        az = np.degrees(np.arctan2((w*vy).sum(axis=1)/w.sum(axis=1), (w*vx).sum(axis=1)/w.sum(axis=1)))
        diff = np.abs((d['azim'][m] - az + 180) % 360 - 180)
        if diff.max() > 1e-5:
            problems.append('azimuth %g instead of %g' % (d['azim'][m][np.argmax(diff)], az[np.argmax(diff)]))
        # beds
        s = np.concatenate([[0.], np.cumsum(np.hypot(np.diff(px), np.diff(py)))])
        near = np.argmin(dist, axis=1)
        srt = np.sort(dist, axis=1)
        sure = srt[:, 1] - srt[:, 0] > 1e-9
        u = (s[near]*np.sin(np.radians(case['dip'])) + Z[m]*np.cos(np.radians(case['dip'])))/case['dist']
        if not ref.phases(u[sure], fac[sure], 3):
            problems.append('no beds of thickness %g and dip %g in channel %d' % (case['dist'], case['dip'], h))
    if cells < 20:
        problems.append('only %d cells in channels' % cells)
    return Result(problems, [d['facies'], np.round(d['azim'], 4)], cells)
