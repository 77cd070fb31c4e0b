"""C37: objects do not depend on the resolution of the grid."""
import copy

import numpy as np

from lib.engine import Result, digest
from lib import scene, zoo
from checks.c34 import snap_all

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is (scene, deviations of the random answers from the default ones); the scene is simulated on a grid and on '
        'refined grids with the same random answers, whose cells include cells with the same centres; the values of all '
        'arrays must agree at common centres; outcome = arrays of the coarse grid')
FACTORS = {'quick': [(3, 3, 1), (1, 1, 3), (1, 3, 1)], 'thorough': [(3, 3, 3), (5, 1, 1), (1, 5, 1), (1, 1, 5), (3, 1, 1), (1, 3, 3)]}
CASE_TIMEOUT = {'quick': 200, 'thorough': 600}
ASSUMPTIONS = ['all lengths of the scenes are multiples of 1/64 and all refined spacings too, so that the centres agree exactly',
               'contacts that are not flat and internal heterogeneity are random fields on the grid, and are left out']


def scenes():
    res = {}
    for name, (m, s, e) in zoo.scenes().items():
        m = dict(m, dx=0.46875, dy=0.234375, dz=0.234375, lx=0.46875*6, ly=0.234375*6, lz=0.234375*10,
                 heterogeneity_level='facies')
        e = {k: dict(v, contact_model=['flat']) for k, v in e.items()}
        if any('te_xyz' in v for v in e.values()):
            s = dict(s, ae_z_mean=[[1e6]])
        s = dict(s, strata_contact_models=[['flat', c[1]] for c in s['strata_contact_models']])
        res[name] = (m, snap_all(s), {k: snap_all(x) for k, x in e.items()})
    # many channels and wide cells: cells that are skipped because they are far away from the channels
    m, s, e = res['channel-dip']
    res['channel-wide'] = (dict(m, lx=m['dx']*14, ly=m['dy']*14, lz=m['dz']*4), s,
                           {'e': dict(e['e'], channel_no=3, width=0.5, depth=0.5, agg=0.25, flow_angle=70.)})
    res['channel-narrow'] = (dict(m, lx=m['dx']*14, ly=m['dy']*10, lz=m['dz']*4), s,
                             {'e': dict(e['e'], structure='massive', channel_no=1, width=1., depth=1., agg=0.125)})
    # beds and lenses that are thinner than the cells
    m, s, e = res['sheet-dip']
    res['sheet-fine'] = (m, s, {'e': dict(e['e'], lens_thickness=0.15625, dipset_dist=0.078125, dip=[0., 0.])})
    m, s, e = res['trough-dip']
    res['trough-fine'] = (m, s, {'e': dict(e['e'], dipset_dist=0.078125, agg=0.15625)})
    m, s, e = res['trough-bulb_sets']
    res['trough-sets-fine'] = (m, s, {'e': dict(e['e'], bulbset_dist=0.078125)})
    m, s, e = res['channel-dip']
    res['channel-fine'] = (m, s, {'e': dict(e['e'], dipset_dist=0.078125, ds=0.25)})
    return res


BOUNDS = {'quick': '%d scenes x all executions with at most 1 deviation at every 9th choice point x 3 refinements (1 of them for executions with a deviation)' % len(scenes()),
          'thorough': '%d scenes x all executions with at most 1 deviation at every choice point x 6 refinements' % len(scenes())}


def refined(sc, f):
    m, s, e = copy.deepcopy(sc)
    for a, n in zip('xyz', f):
        m['d' + a] /= n
    return m, s, e


def cases(tier):
    for n in sorted(scenes()):
        yield {'scene': n, 'dev': [], 'tier': tier}


def check(case):
    sc = scenes()[case['scene']]
    problems = []
    ref = scene.run(zoo.text(sc), case['dev'])
    if ref.error or len(ref.reals) != 1:
        return Result(['%s: %s' % (case['scene'], ref.error)], 'error')
    r = ref.reals[0]
    children = ref.chooser.children(1)
    if case['tier'] == 'quick':
        children = [c for c in children if c[-1][0] % 9 == len(case['scene']) % 9]
    n = 1
    factors = FACTORS[case['tier']]
    if case['tier'] == 'quick' and case['dev']:
        factors = [factors[case['dev'][-1][0] % 3]]
    for f in factors:
        o = scene.run(zoo.text(refined(sc, f)), case['dev'])
        n += 1
        where = '%s refined by %r: ' % (case['scene'], f)
        if o.error or len(o.reals) != 1:
            problems.append(where + str(o.error))
            continue
        q = o.reals[0]
        if o.chooser.points != ref.chooser.points or o.chooser.kinds != ref.chooser.kinds:
            problems.append(where + 'other random numbers are drawn')
            continue
        if set(q.data) != set(r.data):
            problems.append(where + 'different arrays')
            continue
        cut = tuple(slice(k//2, None, k) for k in f)
        for k in sorted(r.data):
            a, b = r.data[k], q.data[k][cut]
            if a.shape != b.shape:
                problems.append(where + 'shape of ' + k)
            else:
                bad = ~np.isclose(a, b, rtol=1e-6, atol=1e-7, equal_nan=True) if a.dtype.kind == 'f' else a != b
                if bad.any():
                    i = scene.first_bad(bad)
                    problems.append(where + '%s%r is %r instead of %r (%d cells)' % (k, i, b[i], a[i], bad.sum()))
    out = digest([[k, v] for k, v in sorted(r.data.items())])
    return Result(problems[:6], out, n, [dict(case, dev=c) for c in children], evaluations=n)
