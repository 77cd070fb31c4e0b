"""C23: spatial trends of conductivity and porosity."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, zoo
from checks.c09 import Fixed

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a model with internal heterogeneity and a set of trends (of conductivity and porosity, in x and z, of two '
        'types of elements and of the whole domain); it is executed with and without the trends and with the same random '
        'answers; the ratio of the results in every cell is the product of the linear factors of its own element and of the '
        'domain, and conductivity tensors follow; outcome = conductivities and porosities')
BOUNDS = {'quick': '4 models (2-3 strata or alternating elements, 3 grids) and 2 with a single element x 16 subsets of trends of the first type x 4 of the '
                   'second x 16 global subsets x 2 sets of values (increasing and decreasing), one noise',
          'thorough': '7 models x 16 x 16 x 16 subsets x 3 sets of values'}
KEYS = ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend')
VALUES = [dict(k_h=[1e-1, 1e-2, 1e-3, 1e-4, 1e-5], a=[[0.5, 1.5], [2., 0.25], [0.9, 1.2], [1.3, 0.7]], b=[[3., 0.1], [0.2, 0.4], [1.1, 0.8], [0.6, 0.7]],
               g=[[0.4, 1.1], [1.6, 2.5], [0.75, 1.05], [1.15, 0.85]]),
          dict(k_h=[30., 2., 100., 0.5, 7.], a=[[1.5, 1.5], [1., 0.5], [0.5, 0.5], [1., 0.7]], b=[[0.1, 3.], [1., 1.], [0.8, 1.1], [0.7, 0.6]],
               g=[[2., 2.], [1., 0.01], [0.6, 0.6], [0.85, 1.]]),
          dict(k_h=[1e-8, 1e3, 1., 1e-2, 50.], a=[[1., 10.], [10., 1.], [0.1, 1.], [1., 0.1]], b=[[5., 1.], [1., 5.], [0.3, 0.9], [0.9, 0.3]],
               g=[[1e-2, 1e2], [1e3, 1e-3], [0.5, 1.5], [1.5, 0.5]])]
SUBSETS = list(itertools.product((0, 1), repeat=4))


def models():
    t = zoo.trough(trough_density=0.5)
    s = zoo.sheet(structure='dip')
    c = zoo.channel()
    g1 = dict(zoo.BASE)
    g2 = dict(zoo.BASE, dx=0.25, lx=1., dy=0.5, ly=1., dz=0.25, lz=1.)          # nx == nz
    g3 = dict(zoo.BASE, dx=1., lx=1., dz=0.5, lz=2.5)                           # a single cell in x
    return [(g1, zoo.strata(['a', 'b'], [['a'], ['b']], [['flat', 2.1]]), {'a': t, 'b': s}),
            (g2, zoo.strata(['a', 'b'], [['b', 'a']], zmean=[[0.3, 0.3]], avul_prob=0), {'a': s, 'b': c}),
            (g1, zoo.strata(['a', 'b'], [['a'], ['b'], ['a']], [['flat', 1.8], ['flat', 2.9]]), {'a': s, 'b': t}),
            (g3, zoo.strata(['a', 'b'], [['a', 'b']], zmean=[[0.6, 0.7]], avul_prob=0), {'a': t, 'b': s}),
            (g1, zoo.strata(['b', 'a'], [['a'], ['b']], [['random', 2.1, 0.1, 1., 1.]]), {'b': c, 'a': t}),
            (dict(g1, lz=0.25), zoo.strata(['a', 'b'], [['a']]), {'a': s, 'b': t}),
            (g1, zoo.strata(['a'], [['a']]), {'a': t})]


def cases(tier):
    t = tier == 'thorough'
    for m in range(7) if t else (0, 1, 2, 3, 5, 6):
        for a, b, g in itertools.product(range(16), range(16) if t else (0, 5, 10, 15), range(16)):
            for v in range(3 if t else 2):
                if a or b or g:
                    yield {'model': m, 'a': a, 'b': b, 'g': g, 'v': v}


_plain = {}


def run(m, values, a, b, g):
    mod, st, el = models()[m]
    el = {k: dict(v) for k, v in el.items()}
    for nm, sub in (('a', a), ('b', b)):
        el.get(nm, {}).update({k: values[nm][i] for i, k in enumerate(KEYS) if SUBSETS[sub][i]})
    hy = scene.hydraulics(k_h=values['k_h'], **{k: values['g'][i] for i, k in enumerate(KEYS) if SUBSETS[g][i]})
    return scene.run(zoo.text((mod, st, el), hy), chooser=Fixed('g'))


def check(case):
    v = VALUES[case['v']]
    key = case['model'], case['v']
    if key not in _plain:
        _plain[key] = run(case['model'], v, 0, 0, 0)
    p = _plain[key]
    o = run(case['model'], v, case['a'], case['b'], case['g'])
    if p.error or o.error:
        return Result(['failed: %s' % (p.error or o.error)], 'error')
    d, q = o.reals[0].data, p.reals[0].data
    problems = []
    for k in ('facies', 'ae', 'ha', 'hat', 'strata', 'azim', 'dip', 'anirat'):
        if not np.array_equal(d[k], q[k]):
            problems.append('%s depends on the trends' % k)
    nx, ny, nz = q['k_iso'].shape
    names = models()[case['model']][1]['ae']
    for qty, first in (('k_iso', 0), ('poros', 2)):
        want = q[qty].copy()
        fz = {}
        for nm, sub, sel in [(n, case[n], q['hat'] == names.index(n)) for n in names] + [('g', case['g'], np.ones(q['hat'].shape, bool))]:
            f = np.ones((nx, ny, nz))
            if SUBSETS[sub][first]:
                f = f*np.linspace(*v[nm][first], nz)[None, None, :]
            if SUBSETS[sub][first + 1]:
                f = f*np.linspace(*v[nm][first + 1], nx)[:, None, None]
            want[sel] *= f[sel]
        if not np.allclose(d[qty], want, rtol=1e-9, atol=0):
            i = scene.first_bad(~np.isclose(d[qty], want, rtol=1e-9, atol=0))
            problems.append('%s in cell %s (type %s): factor %.6g instead of %.6g' % (
                qty, i, names[q['hat'][i]], d[qty][i]/q[qty][i], want[i]/q[qty][i]))
    r = (d['k_iso']/q['k_iso'])[..., None, None]*q['ktensors']
    if not np.allclose(d['ktensors'], r, rtol=1e-9, atol=1e-12*np.max(np.abs(r))):
        problems.append('the conductivity tensors do not follow the trend')
    return Result(problems, [d['k_iso'], d['poros']], 2)
