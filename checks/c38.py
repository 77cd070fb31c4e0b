"""C38: the unit of length does not matter."""
import copy

import numpy as np

from lib.engine import Result, digest
from lib import scene, zoo
from checks import c34

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is (scene, deviations of the random answers from the default ones); the scene is simulated with its lengths '
        'given in one unit and in several other ones, with the same random answers; all arrays must agree and the grid must '
        'be scaled; outcome = arrays')
UNITS = {'quick': [2.**-14, 0.125, 1024.], 'thorough': [2.**-20, 2.**-14, 2.**-10, 0.125, 0.5, 2., 4., 1024., 2.**20]}
CASE_TIMEOUT = {'quick': 200, 'thorough': 600}
ASSUMPTIONS = ['all lengths of the scenes are multiples of 1/64 and all units are powers of two, so that no comparison '
               'changes by rounding',
               'channels are left out: their centrelines are interpolated at a fixed distance of 0.1']

LENGTHS = {'agg', 'length', 'width', 'depth', 'lag_height', 'te_xyz', 'migrate', 'lens_thickness', 'dipset_dist', 'bulbset_dist'}
HYDRO = {'ycorlengths', 'ncorlengths'}
MODEL = {a + b for a in ('d', 'l') for b in 'xyz'} | {a + '0' for a in 'xyz'}


def times(v, f):
    return [times(x, f) for x in v] if isinstance(v, (list, tuple)) else v*f


def scenes():
    res = {}
    for name, (m, s, e) in c34.scenes().items():
        keep = [k for k in e if e[k]['geometry'] != 'channel']
        if not keep or (name.startswith('channel')):
            continue
        e = {k: dict(v) for k, v in e.items() if k in keep}
        s = dict(s)
        s['ae'] = [a for a in s['ae'] if a in keep]
        ins, probs, zm = [], [], []
        for i, names in enumerate(s['ae_in_strata']):
            j = [x for x in range(len(names)) if names[x] in keep]
            ins.append([names[x] for x in j] or [keep[0]])
            probs.append([s['ae_prob'][i][x] for x in j] or [1.])
            zm.append([s['ae_z_mean'][i][x] for x in j] or [s['ae_z_mean'][i][0]])
        s.update(ae_in_strata=ins, ae_prob=probs, ae_z_mean=zm)
        res[name] = (m, s, e)
    return res


BOUNDS = {'quick': '%d scenes x all executions with at most 1 deviation at every 9th choice point x 3 units' % len(scenes()),
          'thorough': '%d scenes x all executions with at most 1 deviation at every choice point x 9 units' % len(scenes())}


def scaled(sc, f):
    m, s, e = copy.deepcopy(sc)
    m = {k: times(v, f) if k in MODEL else v for k, v in m.items()}
    s['strata_contact_models'] = [contact(c, f, 1) for c in s['strata_contact_models']]
    for k in ('ae_z_mean', 'avul'):
        s[k] = times(s[k], f)
    for el in e.values():
        for k in el:
            if k in LENGTHS and el[k] is not None and not (k == 'lens_thickness' and el[k] == -1):
                el[k] = times(el[k], f)
        if 'trough_density' in el:
            el['trough_density'] /= f*f
        el['contact_model'] = contact(el['contact_model'], f, 0)
    return m, s, e


def contact(c, f, level):
    """['flat'(, z)] or ['random'(, z), variance, correlation lengths]"""
    c = list(c)
    if level:
        c[1] *= f
    if c[0] == 'random':
        c[-3:] = [c[-3]*f*f, c[-2]*f, c[-1]*f]
    return c


def hydro(name, f):
    hy = dict(c34.TREND if name.endswith('trend') else scene.hydraulics())
    for k in HYDRO:
        hy[k] = times(hy[k], f)
    return hy


def cases(tier):
    for n in sorted(scenes()):
        yield {'scene': n, 'dev': [], 'tier': tier}


def check(case):
    name = case['scene']
    sc = scenes()[name]
    problems = []
    ref = scene.run(zoo.text(sc, hydro(name, 1.)), case['dev'])
    if ref.error or len(ref.reals) != 1:
        return Result(['%s: %s' % (name, ref.error)], 'error')
    r = ref.reals[0]
    children = ref.chooser.children(1)
    if case['tier'] == 'quick':
        children = [c for c in children if c[-1][0] % 9 == len(name) % 9]
    n = 1
    for f in UNITS[case['tier']]:
        o = scene.run(zoo.text(scaled(sc, f), hydro(name, f)), case['dev'])
        n += 1
        where = '%s with all lengths multiplied by %r: ' % (name, f)
        if o.error or len(o.reals) != 1:
            problems.append(where + str(o.error))
            continue
        q = o.reals[0]
        if o.chooser.points != ref.chooser.points or o.chooser.kinds != ref.chooser.kinds:
            problems.append(where + 'other random numbers are drawn')
            continue
        if set(q.data) != set(r.data):
            problems.append(where + 'different arrays')
            continue
        for k in sorted(r.data):
            a, b = r.data[k], q.data[k]
            if a.shape != b.shape:
                problems.append(where + 'shape of ' + k)
                continue
            bad = ~np.isclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True) if a.dtype.kind == 'f' else a != b
            if bad.any():
                i = scene.first_bad(bad)
                problems.append(where + '%s%r is %r instead of %r (%d cells)' % (k, i, b[i], a[i], bad.sum()))
        for a in 'xyz':
            pa, pb = getattr(r.grid, a, None), getattr(q.grid, a, None)
            if pa is not None and pb is not None and not np.allclose(np.asarray(pa)*f, np.asarray(pb), rtol=1e-9):
                problems.append(where + 'coordinates')
    out = digest([[k, v] for k, v in sorted(r.data.items())])
    return Result(problems[:6], out, n, [dict(case, dev=c) for c in children], evaluations=n)
