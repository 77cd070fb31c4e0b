"""C14: internal structure of troughs."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a trough with an internal structure (dipping beds, bulb, bulb sets, random), orientation, distance of '
        'the beds, maximum dip, rotation and shift; facies and angles of every cell are compared with parallel beds or '
        'ellipsoidal shells; outcome = facies, azimuth and dip arrays')
BOUNDS = {'quick': 'beds: 8 dips x 8 azimuths x 6 rotations x 2 distances x periodic/not, 108 deep narrow troughs; shells: 5 maximum dips x 12 rotations x 3 '
                   'sizes x 3 distances x 3 shifts x periodic/not; random: all draws of the structure',
          'thorough': 'beds: 16 dips x 16 azimuths x 9 rotations x 3 distances x 2 shifts x periodic/not, 288 deep narrow troughs; shells: 7 maximum dips x 24 '
                      'rotations x 5 sizes x 4 distances x 4 shifts x periodic/not; random: all draws of the structure'}

MODEL = dict(dx=0.5, dy=0.4, dz=0.25, lx=4., ly=3.2, lz=2., x0=7., y0=-2., z0=1., hydraulics=False)
POS = [[9.1, -0.55, 2.93], [7.3, 0.93, 2.99]]
SIZES = [[3.4, 2.3, 1.6], [2.1, 3., 1.9], [2.9, 2.9, 0.8], [3.7, 1.1, 1.3], [8., 5., 3.]]


def cases(tier):
    q = tier == 'quick'
    for d, a, al, dist, per, f in itertools.product(
            (-75, -40, -12, 0, 8, 25, 60, 90) if q else range(-90, 91, 12), range(-180, 180, 45) if q else range(-180, 180, 22),
            (-120, -45, 0, 30, 90, 170) if q else range(-160, 200, 40), (0.3, 0.9) if q else (0.2, 0.45, 0.9),
            (False, True), (0.28125,) if q else (0.28125, 0.9990234375)):
        yield {'st': 'dip', 'dip': d, 'azim': a, 'alpha': al, 'dist': dist, 'per': per, 'frac': f, 'size': SIZES[0]}
    # deep and narrow troughs with many beds
    for d, a, dist, sz in itertools.product((-75, -12, 0, 8, 25, 60) if q else range(-90, 91, 12), (-130, 0, 70), (0.093, 0.21),
                                            ([1.3, 1.05, 1.9], [1.7, 0.9, 3.7], [0.9, 3.1, 1.8])):
        yield {'st': 'dip', 'dip': d, 'azim': a, 'alpha': 30, 'dist': dist, 'per': False, 'frac': 0.28125, 'size': sz}
    for st in ('bulb', 'bulb_sets'):
        for md, al, s, dist, f, per in itertools.product(
                (0., 12., 30., 60., 90.) if q else (0., 7., 12., 30., 45., 60., 90.), range(-180, 180, 30 if q else 15),
                SIZES[:3] if q else SIZES, (0.2, 0.45, 1.1) if q else (0.13, 0.2, 0.45, 1.1),
                (0.28125, 0., 0.9990234375) if q else (0.28125, 0., 0.9990234375, 0.5), (False, True)):
            if st == 'bulb' and (dist != 0.45 or f != 0.28125):
                continue
            if per and max(s[:2]) > 3.2:
                s = [s[0]*0.4, s[1]*0.4, s[2]]
            yield {'st': st, 'maxdip': md, 'alpha': al, 'size': s, 'dist': dist, 'frac': f, 'per': per}
    for al in (0, 40):
        yield {'st': 'random', 'alpha': al, 'size': SIZES[0], 'per': False}


def element(case, pos):
    L, W, Dp = case['size']
    st = case['st']
    dip = [case['dip']]*2 if st == 'dip' else [case.get('maxdip', 25.)]*2
    az = [case.get('azim', 33.)]*2
    return dict(geometry='trough', structure=st, contact_model=['flat'], facies=['f1', 'f2', 'f3'],
                altfacies=[['f2'], ['f3'], ['f1']], dip=dip, azimuth=az, dipset_dist=case.get('dist', 0.3),
                bulbset_dist=case.get('dist', 0.3), length=L, width=W, depth=Dp, agg=1., trough_density=0.1,
                paleoflow=[case['alpha']]*2, te_xyz=[pos])


def matches_shell_angles(d, m, t, X, Y, Z, maxdip):
    """azimuth and dip are those of the ellipsoids through the cells, limited by the maximum dip"""
    g = t.gradient(X, Y, Z)[m]
    ok = ~np.isnan(g[:, 0])
    g = g[ok]
    az, dip = d['azim'][m][ok], d['dip'][m][ok]
    g = g*np.where(g[:, 2:] < 0, -1., 1.)            # upward
    ang = np.degrees(np.arccos(np.clip(g[:, 2], -1, 1)))
    n = np.moveaxis(ref.normal(az, dip), 0, -1)
    free = ang < maxdip - 1e-6
    cut = ang > maxdip + 1e-6
    bad = free & (np.abs(np.abs((n*g).sum(axis=1)) - 1) > 1e-9)
    if bad.any():
        i = np.argmax(bad)
        return 'normal %s instead of %s' % (np.round(n[i], 4), np.round(g[i], 4))
    bad = cut & (np.abs(np.abs(dip) - maxdip) > 1e-7)
    if bad.any():
        return 'dip %g instead of +-%g' % (dip[np.argmax(bad)], maxdip)
    if maxdip > 0:
        # same horizontal direction as the upward normal of the ellipsoid
        h = np.hypot(g[:, 0], g[:, 1])
        steep = cut & (g[:, 2] > 1e-9) & (h > 1e-9)
        gh = g[:, :2]/np.where(h > 0, h, 1)[:, None]
        # a limited dip keeps the azimuth of the ellipsoid
        full = np.moveaxis(ref.normal(az, np.sign(dip)*90.), 0, -1)[:, :2]
        bad = steep & (np.abs((full*gh).sum(axis=1) - 1) > 1e-7)
        if bad.any():
            i = np.argmax(bad)
            return 'direction %s instead of %s' % (np.round(full[i], 4), np.round(gh[i], 4))
    return None


def check(case):
    model = dict(MODEL, periodic=case['per'])
    pos = POS[1] if case['per'] else POS[0]
    X, Y, Z = ref.mesh(model)
    el = element(case, pos)
    L, W, Dp = case['size']
    t = ref.Trough(model, pos, L, W, Dp, case['alpha'])
    text = scene.ini({}, model, scene.strata1('e'), {'e': el}, scene.hydraulics())
    if case['st'] == 'random':
        return random_structure(case, model, text, t, X, Y, Z)
    f = case['frac']
    o = scene.run(text, chooser=Chooser(fractions=(f, 0.3, 0.6)))
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data
    m = d['ha'] >= 0
    problems = []
    if m.sum() < 5:
        problems.append('the trough has only %d cells' % m.sum())
    elif not set(np.unique(d['facies'][m])) <= {1, 2, 3}:
        problems.append('facies %s' % np.unique(d['facies'][m]))
    elif case['st'] == 'dip':
        p = is_dip(d, m, t, X, Y, Z, case['azim'] + case['alpha'], case['dip'], case['dist'])
        if p:
            problems.append(p)
    elif case['st'] == 'bulb':
        if len(np.unique(d['facies'][m])) != 1:
            problems.append('several facies in a bulb')
        p = matches_shell_angles(d, m, t, X, Y, Z, case['maxdip'])
        if p:
            problems.append(p)
    else:
        p = is_sets(d, m, t, X, Y, Z, case['dist']) or matches_shell_angles(d, m, t, X, Y, Z, case['maxdip'])
        if p:
            problems.append(p)
    return Result(problems, [d['facies'], np.round(d['azim'], 6), np.round(d['dip'], 6)], int(m.sum()))


def is_dip(d, m, t, X, Y, Z, azim, dip, dist):
    n = ref.normal(azim, dip)
    dx, dy, dz = t.local(X, Y, Z)
    u = (n[0]*dx + n[1]*dy + n[2]*dz)[m]/dist
    if not ref.phases(u, d['facies'][m], 3):
        return 'the facies do not form beds of thickness %g with dip %g and azimuth %g' % (dist, dip, azim)
    if not (np.allclose(d['azim'][m], azim) and np.allclose(d['dip'][m], dip)):
        return 'angles'


def is_sets(d, m, t, X, Y, Z, dist):
    u = t.dist(X, Y, Z)[m]*t.c/dist
    if not ref.phases(u, d['facies'][m], 3):
        return 'the facies do not form shells of thickness %g' % dist


def random_structure(case, model, text, t, X, Y, Z):
    """all draws of the structure: each one gives one of the four structures, and all four occur"""
    problems, kinds, outcomes = [], set(), set()
    ch = Chooser()
    o = scene.run(text, chooser=ch)
    todo = [[]] + ch.children(1)
    for dev in todo:
        o = scene.run(text, deviations=dev)
        if o.error:
            problems.append('failed: %s' % o.error)
            break
        d = o.reals[0].data
        m = d['ha'] >= 0
        flat = len(np.unique(d['facies'][m])) == 1
        az = 33. + case['alpha']
        got = set()
        if flat and np.allclose(d['azim'][m], az) and np.allclose(d['dip'][m], 25.):
            got.add('massive')
        if not flat and is_dip(d, m, t, X, Y, Z, az, 25., 0.3) is None:
            got.add('dip')
        if matches_shell_angles(d, m, t, X, Y, Z, 25.) is None:
            if flat:
                got.add('bulb')
            elif is_sets(d, m, t, X, Y, Z, 0.3) is None:
                got.add('bulb_sets')
        if len(got) != 1:
            problems.append('the structure is %s (draws %s)' % (got or 'none of the four', dev))
        kinds |= got
        outcomes.add(str(got) + str(d['facies'].ravel().tolist()))
    if not problems and len(kinds) < 4:
        problems.append('only the structures %s occur' % sorted(kinds))
    return Result(problems, outcomes, len(todo), evaluations=len(todo))
