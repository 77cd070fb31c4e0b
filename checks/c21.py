"""C21: hydraulic parameters without internal heterogeneity are those of the facies."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, zoo
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is (model, order of the facies, way of generating parameters: homogeneous with either level, heterogeneous at the '
        'level of facies, none, with or without internal trends set); in every cell, conductivity, anisotropy ratio and '
        'porosity are those of the facies that is stored for the cell; outcome = facies and conductivity arrays')
BOUNDS = {'quick': 'all %d models of the collection x 24 orders of the facies (with 2 sets of values) x 5 ways of generating parameters, with the default '
                   'random answers' % len(zoo.scenes()),
          'thorough': 'the same with 120 orders of the facies, and all executions with 1 deviation for the default order'}

WAYS = [dict(heterogeneity=False, heterogeneity_level='internal'), dict(heterogeneity=False, heterogeneity_level='facies'),
        dict(heterogeneity=False), dict(heterogeneity=True, heterogeneity_level='facies'), dict(hydraulics=False)]


VALUES = [dict(k_h=[1e-1, 1e-2, 1e-3, 1e-4, 1e-5], n=[0.1, 0.15, 0.2, 0.25, 0.3], k_ratio=[1., 1.5, 2., 2.5, 3.]),
          dict(k_h=[250., 1., 3.5, 1e-9, 40.], n=[1., 0.01, 0.5, 0.9, 0.3], k_ratio=[0.5, 0.01, 1., 300., 0.9])]


def cases(tier):
    perms = [list(p) for p in itertools.permutations(range(5))]
    perms = perms if tier == 'thorough' else perms[::5]
    for name in zoo.scenes():
        for p in perms:
            for w in range(len(WAYS)):
                yield {'scene': name, 'perm': p, 'way': w, 'dev': [],
                       'bound': 1 if tier == 'thorough' and p == [0, 1, 2, 3, 4] and w in (0, 3) else 0}


def check(case):
    p = case['perm']
    names = ['f%d' % i for i in p]
    v = VALUES[sum(i*j for i, j in enumerate(p)) % len(VALUES)]
    hy = scene.hydraulics(names, **{k: [v[k][i] for i in p] for k in v})
    ch = Chooser(case['dev'], fields='generic')
    o = scene.run(zoo.text(zoo.scenes()[case['scene']], hy, model=WAYS[case['way']]), chooser=ch)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data
    problems = []
    if 'hydraulics' in WAYS[case['way']]:
        if any(k in d for k in ('k_iso', 'poros', 'anirat', 'ktensors')):
            problems.append('hydraulic parameters although they are switched off')
        return Result(problems, d['facies'], 1)
    f = d['facies']
    for key, val in (('k_iso', hy['k_h']), ('poros', hy['n']), ('anirat', hy['k_ratio'])):
        want = np.array(val)[f]
        if d[key].shape != f.shape:
            problems.append('shape of ' + key)
        elif not scene.near(d[key], want, 1e-15):
            i = scene.first_bad(~np.isclose(d[key], want, rtol=1e-9, atol=0))
            problems.append('%s in cell %s is %g instead of %g' % (key, i, d[key][i], want[i]))
    if 'ktensors' not in d:
        problems.append('no conductivity tensors')
    return Result(problems, [d['facies'], d['k_iso']], 1, children=[dict(case, dev=c) for c in ch.children(case['bound'])])
