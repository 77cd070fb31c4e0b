"""C12: sheets: horizontal slabs of the given thickness, and dipping beds within them."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref
from lib.rng import Chooser

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is a model of sheet elements (contacts, thickness, size trend, structure, bed orientation and distance, '
        'origin) with given random answers; sheets, facies and angles of every cell are compared with slabs and parallel '
        'beds; outcome = sheets and facies arrays')
BOUNDS = {'quick': 'slabs: 5 thicknesses x 4 size trends x 3 origins x 5 pairs of contacts x 3 noises, massive and dipping; '
                   'beds: 9 dips x 16 azimuths x 3 distances x 3 shifts, 2 small distances x 2 shifts; domains that are long in one direction',
          'thorough': 'the same with 9 thicknesses, 6 distances, 31 dips x 24 azimuths, 4 shifts'}

FRAC = (0.28125, 0.015625, 0.9990234375, 0.5)


def cases(tier):
    th = [-1, 0.4, 0.75, 1.3, 9.] if tier == 'quick' else [-1, 0.3, 0.4, 0.55, 0.75, 1.3, 1.9, 2.6, 9.]
    for t, tr, o, con, no, st in itertools.product(
            th, [None, [0.5, 1.5], [2., 1.], [1., 1.]], [0., 3.3, -7.2],
            [[], [['flat', 1.45]], [['random', 1.45, 0.3, 2., 2.]], [['random', 2.35, 1.5, 1., 2.]],
             [['random', 0.8, 0.4, 2., 1.], ['random', 2., 0.6, 1.5, 2.]]],
            ['g', 'zero', '-2g'], ['massive', 'dip']):
        if no != 'g' and not any(c[0] == 'random' for c in con):
            continue
        yield {'kind': 'slabs', 't': t, 'trend': tr, 'z0': o, 'contacts': con, 'noise': no, 'structure': st}
    dips = [-90, -60, -30, -10, 0, 20, 45, 80, 90] if tier == 'quick' else list(range(-90, 91, 6))
    az = list(range(-180, 180, 24 if tier == 'quick' else 15)) + [90]
    ds = [0.35, 0.8, 1.7] if tier == 'quick' else [0.2, 0.35, 0.8, 1.1, 1.7, 4.]
    for d, a, dist, f in itertools.product(dips, az, ds, FRAC[:3] if tier == 'quick' else FRAC):
        yield {'kind': 'beds', 'dip': d, 'azim': a, 'dist': dist, 'frac': f}
    # many thin beds
    for d, a, dist, f in itertools.product(dips, az[::2], [0.0371, 0.0837] if tier == 'quick' else [0.0173, 0.0371, 0.0837], FRAC[:2]):
        yield {'kind': 'beds', 'dip': d, 'azim': a, 'dist': dist, 'frac': f}


    # domains that are long in one direction
    for d, a, ax, dist, f in itertools.product([-90, -45, 0, 60, 90], [-90, -30, 0, 45, 180], 'xyz', [0.0837, 0.35], FRAC[:2]):
        yield {'kind': 'beds', 'dip': d, 'azim': a, 'dist': dist, 'frac': f, 'long': ax}


def check(case):
    return slabs(case) if case['kind'] == 'slabs' else beds(case)


def beds(case):
    from checks.c09 import Fixed
    model = dict(dx=0.5, dy=0.4, dz=0.3, lx=3., ly=2.4, lz=2.4, x0=10., y0=-5., z0=2., hydraulics=False)
    if case.get('long'):
        model.update(lx=1., ly=0.8, lz=0.6)
        model['l' + case['long']] = 60*model['d' + case['long']]
    el = {'sh': dict(geometry='sheet', structure='dip', contact_model=['flat'], facies=['f1', 'f2', 'f3'],
                     altfacies=[['f2'], ['f3'], ['f1']], dip=[case['dip']]*2, azimuth=[case['azim']]*2,
                     dipset_dist=case['dist'], lens_thickness=-1)}
    f = case['frac']
    ch = Chooser(fractions=(f, 0.3, 0.7), fields='generic')
    o = scene.run(scene.ini({}, model, scene.strata1('sh'), el, scene.hydraulics()), chooser=ch)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data
    X, Y, Z = ref.mesh(model)
    n = ref.normal(case['azim'], case['dip'])
    u = (n[0]*X + n[1]*Y + n[2]*Z)/case['dist']
    problems = []
    if not ref.phases(u, d['facies'], 3):
        problems.append('the facies do not form beds of thickness %g with dip %g and azimuth %g'
                        % (case['dist'], case['dip'], case['azim']))
    if not (scene.near(d['azim'], case['azim']) and scene.near(d['dip'], case['dip'])):
        problems.append('angles %s %s' % (np.unique(d['azim']), np.unique(d['dip'])))
    if len(np.unique(d['ha'])) != 1:
        problems.append('more than one sheet')
    return Result(problems, d['facies'], d['facies'].size)


_whole = {}


def slabs(case):
    from checks.c09 import Fixed
    z0 = case['z0']
    model = dict(dx=1., dy=0.5, dz=0.1, lx=4., ly=1.5, lz=4., z0=z0, hydraulics=False)
    X, Y, Z = ref.mesh(model)
    n = len(case['contacts']) + 1
    names = ['sh%d' % i for i in range(n)]
    dip = case['structure'] == 'dip'
    el = {nm: dict(geometry='sheet', structure=case['structure'], contact_model=['flat'], facies=['f1', 'f2', 'f3'],
                   altfacies=[['f2'], ['f3'], ['f1']], dip=[30., 30.] if dip else [0., 40.],
                   azimuth=[60., 60.] if dip else [-90., 90.], dipset_dist=0.35 if dip else None,
                   lens_thickness=case['t'], size_ztrend=case['trend']) for nm in names}
    con = [[c[0], c[1] + z0] + c[2:] for c in case['contacts']]
    st = dict(strata=['s%d' % i for i in range(n)], strata_contact_models=con, ae=names,
              ae_in_strata=[[nm] for nm in names], ae_prob=[[1.]]*n, ae_z_mean=[[1e6]]*n, avul_prob=[[0]]*n,
              avul=[[0, 0]]*n, bg_facies=['f4']*n, bg_azim=[0.]*n, bg_dip=[0.]*n)
    o = scene.run(scene.ini({}, model, st, el, scene.hydraulics()), chooser=Fixed(case['noise'], fractions=FRAC))
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data
    problems = []
    # the contacts limit the sheets: the elements are the same as without a division into sheets
    key = repr((case['contacts'], case['noise'], z0))
    if key not in _whole:
        if len(_whole) > 100:
            _whole.clear()
        one = {nm: dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f1'], lens_thickness=-1)
               for nm in names}
        w = scene.run(scene.ini({}, model, st, one, scene.hydraulics()), chooser=Fixed(case['noise'], fractions=FRAC))
        _whole[key] = w.error or w.reals[0].data
    w = _whole[key]
    if isinstance(w, str):
        return Result(['failed: ' + w], 'error')
    for a in ('strata', 'ae', 'hat'):
        if not np.array_equal(w[a], d[a]):
            i = scene.first_bad(w[a] != d[a])
            problems.append('%s of cell %s is %d, but %d if the element is not divided into sheets' % (a, i, d[a][i], w[a][i]))
    if not set(np.unique(d['facies'])) <= {1, 2, 3}:
        problems.append('facies %s' % np.unique(d['facies']))
    if (d['ha'] < 0).any():
        problems.append('cells outside of the sheets')
    trend = case['trend']
    for ae in np.unique(d['ae']):
        m = d['ae'] == ae
        z, ha = Z[m], d['ha'][m]
        si = np.unique(d['strata'][m])
        if len(si) != 1:
            problems.append('element %d in strata %s' % (ae, si))
            continue
        si = int(si[0])
        if case['t'] == -1:
            if len(np.unique(ha)) != 1:
                problems.append('massive bedding consists of %d sheets' % len(np.unique(ha)))
            continue
        # the levels of the AE (known if the contacts are flat)
        top = con[n - 1 - si][1] if si > 0 else z0 + 4.
        bot = con[n - 2 - si][1] if si < n - 1 else z0
        flat_top = si == 0 or con[n - 1 - si][0] == 'flat' or case['noise'] == 'zero'
        flat_bot = si == n - 1 or con[n - 2 - si][0] == 'flat' or case['noise'] == 'zero'
        if flat_top and flat_bot:
            f = 1. if trend is None else trend[0] + ((top + bot)/2 - z0)/4.*(trend[1] - trend[0])
            lo = hi = case['t']*f
        elif trend is None:
            lo = hi = case['t']
        else:
            lo, hi = case['t']*min(trend), case['t']*max(trend)
        if lo != hi:
            # only the order of the sheets is known
            for h in np.unique(ha)[1:]:
                if z[ha == h].max() > z[ha < h].min() + 1e-9:
                    problems.append('sheet %d is not below the previous ones' % h)
            continue
        t = lo
        # sheet number from the top: P0 - (k+1) t <= z <= P0 - k t for one P0
        k = ha - ha.min()
        a, b = np.max(z + k*t), np.min(z + (k + 1)*t)
        if a > b + 1e-6:
            problems.append('the sheets are not slabs of thickness %g' % t)
        elif flat_top:
            # P0 is the top of the element (sheets without cells may be missing)
            off = [j for j in range(0, int(4/t) + 2) if a - 1e-6 <= top - j*t <= b + 1e-6]
            if not off:
                problems.append('the sheets do not start at the top %g of the element (%g..%g)' % (top, a, b))
        if not dip:
            for h in np.unique(ha):
                for key in ('facies', 'azim', 'dip'):
                    if len(np.unique(d[key][m][ha == h])) != 1:
                        problems.append('massive sheet with several %s' % key)
        else:
            nv = ref.normal(60., 30.)
            for h in np.unique(ha):
                mm = d['ha'] == h
                u = (nv[0]*X + nv[1]*Y + nv[2]*Z)[mm]/0.35
                if not ref.phases(u, d['facies'][mm], 3):
                    problems.append('no beds of thickness 0.35 in sheet %d' % h)
                    break
    return Result(problems, [d['ha'], d['facies']], n + len(np.unique(d['ha'])))
