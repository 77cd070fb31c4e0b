"""C22: internal heterogeneity: distribution of ln(K) and porosity within and between the units."""
import numpy as np

from lib.engine import Result
from lib import scene, zoo, cov

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a small model with internal heterogeneity; it is executed once for every single normal number that is drawn '
        '(answered by 1, all others by 0), which yields the complete linear dependence of ln(K) and porosity on the noise; '
        'mean, variance and covariance of all pairs of cells are compared with those requested per unit (an object\'s cells '
        'of one facies, or the background of an element) with the parameters of its facies, different units and parameters '
        'being independent; outcome = covariance matrices')
BOUNDS = {'quick': 'all %d models of the collection on grids of 4x3x5, 6x4x4 and 1x1x5 cells, one of them also with the same statistics for all facies and parameters' % (len(zoo.scenes()) + 3),
          'thorough': 'all %d models of the collection on 6 grids up to 6x4x7 cells, 3 orders of the facies, and the same statistics for all facies and parameters' % (len(zoo.scenes()) + 3)}
CASE_TIMEOUT = {'thorough': 600}
GRIDS = [dict(dx=0.75, dy=2/3., dz=0.5, lx=3., ly=2., lz=2.5), dict(dx=1., dy=1., dz=0.5, lx=3., ly=2., lz=2.5),
         dict(dx=3., dy=0.5, dz=0.5, lx=3., ly=2., lz=2.5), dict(dx=1.5, dy=0.5, dz=2.5/7, lx=3., ly=2., lz=2.5),
         dict(dx=0.5, dy=0.5, dz=0.625, lx=3., ly=2., lz=2.5),
         dict(dx=3., dy=2., dz=0.5, lx=3., ly=2., lz=2.5)]


FIVE = ['f%d' % i for i in range(5)]


def cases(tier):
    for g in (0,) if tier == 'quick' else (0, 1, 3):
        for name in scenes():
            yield {'scene': name, 'grid': g, 'perm': []}
    if tier == 'quick':
        for name in scenes():
            yield {'scene': name, 'grid': 5, 'perm': [0, 1, 2, 3, 4]}
    for g in (0, 4) if tier == 'quick' else range(len(GRIDS)):
        for perm in ([[0, 1, 2, 3, 4]] if tier == 'quick' else [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 4, 0, 1, 3]]):
            for name in scenes():
                yield {'scene': name, 'grid': g, 'perm': perm}


def scenes():
    res = zoo.scenes()
    five = ['f%d' % i for i in range(5)]
    alt = [[five[(i + 1) % 5]] for i in range(5)]
    # objects of many facies
    res['five-sheet'] = (zoo.BASE, zoo.strata(['e'], [['e']]), {'e': zoo.sheet(
        structure='dip', facies=five, altfacies=alt, lens_thickness=-1, dip=[10., 10.])})
    res['five-trough'] = (zoo.BASE, zoo.strata(['e'], [['e']]), {'e': zoo.trough(
        structure='dip', facies=five, altfacies=alt, length=5., width=4., depth=2.5, dipset_dist=0.41, te_xyz=[[3.5, 0., 3.5]],
        trough_density=0.)})
    # every element has a background of few cells (a single one in the coarsest grid)
    res['few'] = (zoo.BASE, zoo.strata(['a', 'b'], [['a'], ['b'], ['a'], ['b']], [['flat', 1.5], ['flat', 2.], ['flat', 2.5]],
                                       zmean=[[9.]]*4), {'a': zoo.trough(trough_density=0., bg_facies='f1'),
                                                         'b': zoo.trough(trough_density=0., bg_facies='f3')})
    return res


def flat(sc):
    """the same model with flat contacts (the only other use of random fields)"""
    m, s, e = sc
    s = dict(s, strata_contact_models=[['flat', c[1]] for c in s['strata_contact_models']])
    return m, s, {k: dict(v, contact_model=['flat']) for k, v in e.items()}


def hydraulics(perm):
    if not perm:
        # all facies and both parameters have the same statistics
        return scene.hydraulics(FIVE, k_h=[1e-3]*5, n=[.25]*5, sig_y=[.4]*5, sig_n=[.4]*5, ycorlengths=[[2., 1.5, 1.]]*5,
                                ncorlengths=[[2., 1.5, 1.]]*5, k_ratio=[2.]*5)
    pk = lambda v: [v[i] for i in perm]
    return scene.hydraulics(
        ['f%d' % i for i in perm], k_h=pk([1e-1, 1e-2, 1e-3, 1e-4, 1e-5]), n=pk([.1, .15, .2, .25, .3]),
        sig_y=pk([0.3, 0.5, 0.9, 1.3, 0.7]), sig_n=pk([.001, .002, .0005, .003, .004]),
        ycorlengths=pk([[3., 2., 1.], [1., 2., 0.5], [0.7, 0.9, 2.], [4., 4., 4.], [1., 3., 0.3]]),
        ncorlengths=pk([[1., 1., 1.], [2., 0.5, 1.], [0.6, 3., 0.4], [1.5, 2.5, 0.5], [5., 1., 2.]]),
        k_ratio=pk([1., 2., 3., 4., 5.]))


def units(d):
    """list of masks, one per unit, with the facies"""
    res = []
    for h in np.unique(d['ha'][d['ha'] >= 0]):
        for f in np.unique(d['facies'][d['ha'] == h]):
            res.append(((d['ha'] == h) & (d['facies'] == f), int(f)))
    for a in np.unique(d['ae']):
        m = (d['ha'] == -1) & (d['ae'] == a)
        for f in np.unique(d['facies'][m]):
            res.append((m & (d['facies'] == f), int(f)))
    return res


def box_covariance(mask, spacing, var, corl):
    idx = np.argwhere(mask)
    lo, hi = idx.min(axis=0), idx.max(axis=0) + 1
    c = cov.reference(tuple(hi - lo), spacing, var, corl, 'exp')
    sel = mask[tuple(slice(a, b) for a, b in zip(lo, hi))].ravel()
    return c[np.ix_(sel, sel)]


def check(case):
    hy = hydraulics(case['perm'])
    grid = GRIDS[case['grid']]
    text = zoo.text(flat(scenes()[case['scene']]), hy, model=grid)
    first = {}
    count = [0]

    class Failed(Exception):
        pass

    def execute(noise):
        ch = cov.Probe(noise)
        o = scene.run(text, chooser=ch)
        count[0] += 1
        if o.error:
            raise Failed(o.error)
        d = o.reals[0].data
        if not first:
            first.update(d)
        if not (np.all(d['k_iso'] > 0) and np.all(np.isfinite(d['k_iso'])) and np.all(np.isfinite(d['poros']))):
            raise Failed('conductivities that are not positive and finite')
        for k in ('facies', 'ha', 'ae', 'azim', 'dip', 'anirat'):
            if not np.array_equal(d[k], first[k]):
                raise Failed(k + ' depends on the random field')
        return np.concatenate([np.log(d['k_iso']).ravel(), d['poros'].ravel()]), ch.shapes
    try:
        zero, resp, lin = cov.responses(execute)
    except Failed as e:
        return Result(['failed: %s' % e], 'error')
    except AssertionError as e:
        return Result([str(e)], 'error')
    problems = []
    d = first
    f = d['facies'].ravel()
    n = f.size
    for nm, got, want in (('mean of ln(K)', zero[:n], np.log(np.array(hy['k_h']))[f]),
                          ('mean of the porosity', zero[n:], np.array(hy['n'])[f]),
                          ('anisotropy ratio', d['anirat'].ravel(), np.array(hy['k_ratio'])[f])):
        bad = np.abs(got - want) > 1e-9
        if bad.any():
            i = int(np.where(bad)[0][0])
            problems.append('%s in cell %s (facies %d) is %g instead of %g' % (nm, np.unravel_index(i, d['facies'].shape), f[i], got[i], want[i]))
    if lin > 1e-6:
        problems.append('ln(K) or porosity are not linear in the noise: deviation %g' % lin)
    c = cov.covariance(zero, resp)
    want = np.zeros((2*n, 2*n))
    sp = (grid['dx'], grid['dy'], grid['dz'])
    us = units(d)
    for mask, fac in us:
        i = np.where(mask.ravel())[0]
        want[np.ix_(i, i)] = box_covariance(mask, sp, hy['sig_y'][fac], hy['ycorlengths'][fac])
        want[np.ix_(n + i, n + i)] = box_covariance(mask, sp, hy['sig_n'][fac], hy['ncorlengths'][fac])
    bad = np.abs(c - want) > 1e-8
    if bad.any():
        i, j = np.argwhere(bad)[0]
        nm = lambda q: '%s%s' % ('ln(K)' if q < n else 'porosity', tuple(int(x) for x in np.unravel_index(q % n, d['facies'].shape)))
        problems.append('covariance of %s and %s is %.6g instead of %.6g' % (nm(i), nm(j), c[i, j], want[i, j]))
    return Result(problems, np.round(c, 9), len(us), trivial=not us, evaluations=count[0])
