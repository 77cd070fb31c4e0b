"""C18: background values of the elements."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a model of two strata with background values and two types of elements (trough or channel without any '
        'object, and sheets), each with or without an own value of every background parameter; facies and angles of every '
        'cell are compared with the value of the element if it is given, else that of the stratum; outcome = arrays')
BOUNDS = 'all 4^3 combinations of given/omitted parameters per pair of elements x 3 pairs of geometries x 4 sets of values (with 0 and negative values) x both orders of the strata'

VALUES = [dict(f=['f1', 'f2', 'f3', 'f4'], a=[10., 20., 30., 40.], d=[1., 2., 3., 4.]),
          dict(f=['f0', 'f1', 'f0', 'f4'], a=[0., 20., 0., 40.], d=[0., 2., 0., 4.]),
          dict(f=['f3', 'f0', 'f1', 'f0'], a=[-70., 0., 360., 0.], d=[-5., 0., 90., 0.]),
          dict(f=['f4', 'f4', 'f2', 'f1'], a=[180., -1., 0.5, 90.], d=[0.25, -1., 60., -45.])]
MODEL = dict(dx=1., dy=1., dz=0.5, lx=2., ly=2., lz=4., z0=1., hydraulics=False)


def cases(tier):
    for geo in (('trough', 'channel'), ('channel', 'trough'), ('trough', 'trough')):
        for v in range(len(VALUES)):
            for given in itertools.product((False, True), repeat=6):
                for order in (0, 1):
                    yield {'geo': list(geo), 'v': v, 'given': list(given), 'order': order}


def check(case):
    v = VALUES[case['v']]
    el = {}
    for i, g in enumerate(case['geo']):
        gv = case['given'][3*i:3*i + 3]
        e = dict(contact_model=['flat'], facies=['f2'], structure='massive', agg=100., geometry=g, width=1., depth=1.,
                 bg_facies=v['f'][i] if gv[0] else None, bg_azim=v['a'][i] if gv[1] else None, bg_dip=v['d'][i] if gv[2] else None)
        if g == 'trough':
            e.update(length=1., trough_density=0., paleoflow=[0., 0.])
        else:
            e.update(h=0.4, k=0.7, ds=0.5, eps_factor=0., channel_no=1)
        el['e%d' % i] = e
    in_strata = [0, 1] if case['order'] == 0 else [1, 0]
    st = dict(strata=['s0', 's1'], strata_contact_models=[['flat', 3.1]], ae=['e0', 'e1'],
              ae_in_strata=[['e%d' % i] for i in in_strata], ae_prob=[[1.]]*2, ae_z_mean=[[1e6]]*2, avul_prob=[[0]]*2,
              avul=[[0, 0]]*2, bg_facies=v['f'][2:], bg_azim=v['a'][2:], bg_dip=v['d'][2:])
    o = scene.run(scene.ini({}, MODEL, st, el, scene.hydraulics()))
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data
    problems = []
    zc = 1. + 0.5*(np.arange(8) + 0.5)
    for s in (0, 1):
        e = in_strata[s]
        gv = case['given'][3*e:3*e + 3]
        zs = zc > 3.1 if s == 1 else zc < 3.1
        for key, name, g in (('facies', 'f', gv[0]), ('azim', 'a', gv[1]), ('dip', 'd', gv[2])):
            want = v[name][e] if g else v[name][2 + s]
            if name == 'f':
                want = int(want[1])
            got = d[key][:, :, zs]
            if not np.all(got == want):
                problems.append('%s in stratum %d: %s instead of %s' % (key, s, np.unique(got), want))
        if not np.all(d['ha'][:, :, zs] == -1):
            problems.append('object numbers in the background')
        if not np.all(d['hat'][:, :, zs] == e):
            problems.append('type of the element')
    return Result(problems, [d['facies'], d['azim'], d['dip']], 2)
