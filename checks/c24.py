"""C24: conductivity tensors."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, zoo, ref
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a model whose strata have given orientations, conductivities and anisotropy ratios, or a model of the collection; '
        'the tensor of every cell is compared with K (I - (1 - 1/ratio) n n^T), n being the normal of the bedding; symmetry, '
        'eigenvalues and axes are checked separately; outcome = tensors')
BOUNDS = {'quick': 'all 41 azimuths x 37 dips x 4 ratios; 8 conductivities; all models of the collection at 3 levels of heterogeneity',
          'thorough': 'all 145 azimuths x 73 dips x 8 ratios; 8 conductivities; the collection with all executions with 1 deviation'}
FAC = ['f%d' % i for i in range(8)]


def cases(tier):
    t = tier == 'thorough'
    az = np.linspace(-180., 540., 145) if t else np.linspace(-360., 360., 41)
    dips = np.linspace(-90., 90., 73) if t else np.linspace(-90., 90., 37)
    for r in (1., 2.5, 100., 10., 1.0001, 0.5, 1e4, 7.) if t else (1., 2.5, 100., 0.25):
        for a in az:
            yield {'kind': 'grid', 'azim': float(a), 'dips': [float(x) for x in dips], 'ratio': r}
    for name in zoo.scenes():
        for w in range(3):
            yield {'kind': 'zoo', 'scene': name, 'way': w, 'dev': [], 'bound': 1 if t else 0}


def check(case):
    ch = None
    if case['kind'] == 'grid':
        dips = case['dips']
        n = len(dips)
        el = {'e%d' % i: dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=[FAC[i % 8]],
                              azimuth=[case['azim']]*2, dip=[x, x], lens_thickness=-1) for i, x in enumerate(dips)}
        names = list(el)
        st = dict(strata=['s%d' % i for i in range(n)], strata_contact_models=[['flat', float(i + 1)] for i in range(n - 1)],
                  ae=names, ae_in_strata=[[x] for x in names], ae_prob=[[1.]]*n, ae_z_mean=[[1e6]]*n, avul_prob=[[0]]*n,
                  avul=[[0, 0]]*n, bg_facies=['f0']*n, bg_azim=[0.]*n, bg_dip=[0.]*n)
        hy = scene.hydraulics(FAC, k_h=[1., 1e-9, 1e-3, 2e-5, 0.37, 1e3, 4e-7, 0.09], k_ratio=[case['ratio']*(1 + i/16) for i in range(8)])
        text = scene.ini({}, dict(dx=1., dy=1., dz=1., lx=2., ly=1., lz=float(n), heterogeneity=False), st, el, hy)
        o = scene.run(text)
    else:
        m = [dict(), dict(heterogeneity_level='facies'), dict(heterogeneity=False)][case['way']]
        ch = Chooser(case['dev'], fields='generic')
        o = scene.run(zoo.text(zoo.scenes()[case['scene']], model=m), chooser=ch)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data
    problems = []
    if case['kind'] == 'grid':
        if not np.allclose(d['dip'][0, 0], dips) or not np.allclose(d['azim'], case['azim']):
            problems.append('orientation of the strata')
    t = d['ktensors']
    if t.shape != d['k_iso'].shape + (3, 3):
        return Result(['shape of the tensors: %s' % (t.shape,)], 'shape')
    k, a = d['k_iso'], d['anirat']
    want = ref.ktensor(k, d['azim'], d['dip'], a)
    rel = np.max(np.abs(t - want), axis=(3, 4))/(k*np.maximum(1, 1/a))
    bad = ~(rel < 1e-9)
    if bad.any():
        i = scene.first_bad(bad)
        problems.append('tensor %s for K %g, ratio %g, azimuth %g, dip %g' % (
            np.round(t[i]/k[i], 6).tolist(), k[i], a[i], d['azim'][i], d['dip'][i]))
    if not np.array_equal(t, np.swapaxes(t, 3, 4)):
        if np.max(np.abs(t - np.swapaxes(t, 3, 4))/k[..., None, None]) > 1e-12:
            problems.append('tensors are not symmetric')
    ev = np.linalg.eigvalsh((t + np.swapaxes(t, 3, 4))/2/k[..., None, None])
    exp = np.sort(np.stack([np.ones_like(k), np.ones_like(k), 1/a], axis=-1), axis=-1)
    if not np.allclose(ev, exp, atol=1e-9):
        problems.append('eigenvalues of the tensors')
    return Result(problems, np.round(t/k[..., None, None], 9), 1,
                  children=[dict(case, dev=c) for c in ch.children(case['bound'])] if ch else [])
