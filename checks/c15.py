"""C15: which cells belong to a channel, and its lag."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref, chan
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a channel element (width, depth, lag, size trend, flow angle, levels, straight or meandering) in a given '
        'grid with a given starting point; every cell is compared with the extruded parabolas, computed for all cells '
        'without any shortcuts; outcome = arrays of objects and facies')
BOUNDS = {'quick': 'straight: 5 widths x 3 depths x 8 flow angles x 3 grids x 4 starting points x 2 structures, 2 widths x 12 (36) flow angles x 5 starting points in 2 larger grids; lag and size trends; '
                   'meandering: 4 patterns x 3 amplitudes x 5 widths x 4 angles x 3 grids',
          'thorough': 'straight: 7 widths x 4 depths x 24 flow angles x 4 grids x 5 starting points x 2 structures, 2 widths x 12 (36) flow angles x 5 starting points in 2 larger grids; lag and size trends; '
                      'meandering: 10 patterns x 4 amplitudes x 6 widths x 8 angles x 4 grids'}

GRIDS = [dict(dx=0.5, dy=0.5, dz=0.25, lx=5., ly=4., lz=2., x0=0., y0=0., z0=0.),
         dict(dx=0.7, dy=0.3, dz=0.2, lx=3.5, ly=6., lz=1.6, x0=-20., y0=5., z0=3.),
         dict(dx=0.3, dy=0.8, dz=0.2, lx=7.2, ly=2.4, lz=1.6, x0=2., y0=-9., z0=-1.),
         dict(dx=0.25, dy=0.25, dz=0.25, lx=8., ly=7., lz=1.5, x0=0., y0=3., z0=0.),
         dict(dx=0.25, dy=0.75, dz=0.4, lx=3.5, ly=12.75, lz=1.2, x0=0., y0=3., z0=0.),
         dict(dx=0.75, dy=0.25, dz=0.4, lx=12.75, ly=3.5, lz=1.2, x0=-1., y0=0., z0=0.)]


def cases(tier):
    q = tier == 'quick'
    for w, dp, fa, g, f, st in itertools.product(
            (0.6, 1.1, 1.9, 3.3, 14.) if q else (0.4, 0.6, 1.1, 1.9, 3.3, 6., 14.), (0.35, 1.1, 3.) if q else (0.2, 0.35, 1.1, 3.),
            (0, 20, 45, 90, 135, 180, -60, 250) if q else range(0, 360, 15), range(3) if q else range(4),
            (0.28125, 0., 0.9990234375, 0.5) if q else (0.28125, 0., 0.9990234375, 0.5, 0.75), ('massive', 'dip')):
        yield {'w': w, 'd': dp, 'fa': fa, 'g': g, 'frac': f, 'st': st}
    # cells far from the channel (which are skipped), with different spacings
    for w, fa, g, f in itertools.product((0.5, 1.1), range(0, 360, 30 if q else 10), (4, 5), (0.28125, 0., 0.9990234375, 0.5, 0.75)):
        yield {'w': w, 'd': 1.1, 'fa': fa, 'g': g, 'frac': f, 'st': 'massive'}
    for lag, tr, fa, agg, st, g in itertools.product((0., 0.3, 5.), (None, [0.5, 1.4], [1.5, 0.3]), (0, 50), (0.31, 0.7), ('massive', 'dip'),
                                                     range(3)):
        yield {'w': 1.6, 'd': 0.8, 'fa': fa, 'g': g, 'frac': 0.5, 'st': st, 'lag': lag, 'trend': tr, 'agg': agg}
    for salt, eps, w, fa, g in itertools.product(range(4) if q else range(10), (0.05, 0.2, 0.6) if q else (0.05, 0.1, 0.2, 0.6),
                                                 (0.4, 0.8, 1.5, 3.) if q else (0.2, 0.4, 0.8, 1.5, 3., 5.),
                                                 (0, 70, 180, -45) if q else range(0, 360, 45), range(3) if q else range(4)):
        yield {'w': w, 'd': 0.9, 'fa': fa, 'g': g, 'frac': 0.5, 'st': ('massive', 'dip')[salt % 2], 'eps': eps, 'salt': salt,
               'no': 1 + salt % 3, 'agg': 0.4, 'mig': 0.8}


def check(case):
    model = dict(GRIDS[case['g']], hydraulics=False)
    X, Y, Z = ref.mesh(model)
    top, bot = model['z0'] + model['lz'], model['z0']
    agg = case.get('agg', 0.47)
    lag = case.get('lag', 0.)
    tr = case.get('trend')
    no = case.get('no', 1)
    el = chan.element(width=case['w'], depth=case['d'], flow_angle=case['fa'], structure=case['st'], agg=agg, lag_height=lag,
                      lag_facies='f2', size_ztrend=tr, eps_factor=case.get('eps', 0.), dipset_dist=0.4, channel_no=no,
                      mig=case.get('mig'), ds=0.25)
    text = scene.ini({}, model, scene.strata1('c'), {'c': el}, scene.hydraulics())
    fr = (case['frac'], 0.1, 0.6)
    if 'eps' in case:
        o = scene.run(text, chooser=chan.Wavy(case['salt'], fractions=fr))
    else:
        o = scene.run(text, chooser=Chooser(fractions=fr))
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data

    def factor(z):
        return 1. if tr is None else tr[0] + (z - bot)/model['lz']*(tr[1] - tr[0])
    if 'eps' in case:
        objs = chan.objects(o.reals[0])
        if objs is None:
            return Result([], 'not accessible', trivial=True)
        chans = [ref.Channel(c['x'], c['y'], c['z'], case['w'], case['d']) for c in objs]
    else:
        off = (case['frac'] - 0.5)*chan.domain_width(model, case['fa'])
        chans = []
        for z in chan.levels(top, bot, agg, 0., case['d']):
            f = factor(z)
            px, py = chan.straight(model, case['w']*f, case['fa'], 0.25, off)
            chans.append(ref.Channel(px, py, z, case['w']*f, case['d']*f))
    want, und = chan.owner(chans, X, Y, Z)
    problems = []
    obj = d['ha'] >= 0
    bad = (obj != (want >= 0)) & ~und
    if bad.any():
        i = scene.first_bad(bad)
        problems.append('cell %s is %s a channel' % (i, 'not in' if want[i] >= 0 else 'in'))
    else:
        ok = (want >= 0) & ~und
        pairs = set(zip(want[ok].tolist(), d['ha'][ok].tolist()))
        if len({a for a, _ in pairs}) != len(pairs) or len({b for _, b in pairs}) != len(pairs):
            # channels of the same level may be listed in any order
            zs = {}
            for a, b in pairs:
                zs.setdefault(b, set()).add(round(chans[a].ztop, 6))
            if any(len(v) > 1 for v in zs.values()) or no == 1:
                problems.append('channels are mixed up: %s' % sorted(pairs))
        # lag
        for i in np.unique(want[ok]):
            m = ok & (want == i)
            lim = chans[i].ztop - chans[i].depth + lag
            low, high = m & (Z < lim - 1e-7), m & (Z > lim + 1e-7)
            if not ((d['facies'][low] == 2).all() and (d['azim'][low] == 0).all() and (d['dip'][low] == 0).all()):
                problems.append('lag of channel %d' % i)
            if not ((d['facies'][high] == 1).all() and np.allclose(d['dip'][high], 20.)):
                problems.append('body of channel %d' % i)
        out = ~obj
        if not ((d['facies'][out] == 3).all() and (d['azim'][out] == 0).all() and (d['dip'][out] == 0).all()):
            problems.append('background')
    return Result(problems, [d['ha'], d['facies']], int(Z.size), trivial=not (want >= 0).any())
