"""C42: large numbers of things are handled like small ones."""
import os

import numpy as np

from lib.engine import Result
from lib import scene, ref
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a kind of things (hydrofacies, strata, elements, types of elements, lenses, troughs, channels, beds, cells along an '
        'axis, realizations, alternatives, characters) and their number, at and around the limits of the usual integer types; '
        'every cell is compared with a formula for its values; outcome = number of different values')
NUM = [1, 2, 3, 10, 99, 100, 101, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300]
BIG = [32766, 32767, 32768, 32769, 32770, 65534, 65535, 65536, 65537]
BOUNDS = {'quick': '15 kinds x up to 18 numbers from 1 to 300; beds, cells and troughs also with 32767 to 32770 (beds and cells to 65537); '
                   '1001 realizations',
          'thorough': 'the same with all numbers from 1 to 300, and 32768 to 65537 troughs'}
ASSUMPTIONS = ['other numbers are represented by those at the limits of 8, 16 and 17 bit integers and of 2 and 3 decimal digits']
KINDS = ['facies', 'facies-bg', 'strata', 'aes', 'types', 'lenses', 'troughs', 'channels', 'beds', 'trough-beds', 'bulb-beds', 'channel-beds', 'cells', 'alternatives', 'names']


def cases(tier):
    nums = NUM if tier == 'quick' else range(1, 301)
    for k in KINDS:
        for n in nums:
            if k == 'cells':
                for ax in 'xyz':
                    yield {'kind': k, 'n': n, 'axis': ax}
            elif k == 'channels' and n > 130 and n != 257:
                continue
            else:
                yield {'kind': k, 'n': n}
    for n in BIG:
        yield {'kind': 'beds', 'n': n}
        for k in ('trough-beds', 'bulb-beds', 'channel-beds'):
            yield {'kind': k, 'n': n}
        for ax in 'xyz':
            yield {'kind': 'cells', 'n': n, 'axis': ax}
    for n in (32769,) if tier == 'quick' else (32768, 32769, 33000, 65537):
        yield {'kind': 'troughs', 'n': n}
    for n in (2, 9, 10, 11, 99, 100, 101, 999, 1000, 1001):
        yield {'kind': 'realizations', 'n': n}


def sheet(**kw):
    d = dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f1'], lens_thickness=-1)
    d.update(kw)
    return d


def many(n):
    names = ['f%d' % i for i in range(n)]
    return scene.hydraulics(names, k_h=[1e-3 + 1e-6*i for i in range(n)], sig_y=[0.1]*n, k_ratio=[1. + i/8 for i in range(n)],
                            n=[0.1 + i/4096 for i in range(n)])


class Mid(Chooser):
    """normal draws are the mean, uniform ones the middle"""


def expect(problems, d, name, want, exact=True):
    got = np.asarray(d[name])
    want = np.broadcast_to(want, got.shape)
    bad = got != want if exact else ~np.isclose(got, want, rtol=1e-12, atol=0)
    if bad.any():
        i = scene.first_bad(bad)
        problems.append('%s of cell %s is %s instead of %s' % (name, i, got[i], want[i]))


def distinct(problems, d, name, group, n):
    """cells have the same value if and only if they are in the same group; there are n of them"""
    group = np.broadcast_to(group, d[name].shape)
    pairs = np.unique(np.stack([d[name].ravel().astype(np.int64), group.ravel()]), axis=1)
    if not (len(np.unique(pairs[0])) == pairs.shape[1] == len(np.unique(pairs[1])) == n):
        problems.append('%d different values of %s for %d of %d' % (len(np.unique(pairs[0])), name, len(np.unique(pairs[1])), n))


def params(problems, d, hyd):
    f = d['facies']
    expect(problems, d, 'k_iso', np.array(hyd['k_h'])[f], False)
    expect(problems, d, 'poros', np.array(hyd['n'])[f], False)
    expect(problems, d, 'anirat', np.array(hyd['k_ratio'])[f], False)


def execute(model, st, el, hyd, run=None, **kw):
    return scene.run(scene.ini(run or {}, model, st, el, hyd), **kw)


def check(case):
    k, n = case['kind'], case['n']
    p = []
    box = dict(dx=1., lx=2., ly=2., lz=2., heterogeneity_level='facies')
    hyd = scene.hydraulics()
    Z = None
    if k in ('facies', 'facies-bg'):
        m = max(n, 2)
        hyd = many(m)
        last = 'f%d' % (m - 1)
        el = sheet(facies=[last]) if k == 'facies' else dict(
            geometry='trough', structure='massive', contact_model=['flat'], facies=['f0'], length=1., width=1., depth=1., agg=100.,
            trough_density=0., bg_facies=last, paleoflow=[0., 0.], dip=[0., 0.], azimuth=[0., 0.])
        o = execute(box, scene.strata1('e'), {'e': el}, hyd)
        if not o.error:
            d = o.reals[0].data
            expect(p, d, 'facies', m - 1)
            params(p, d, hyd)
    elif k == 'strata':
        hyd = many(n)
        box.update(lx=1., ly=2., dz=0.5, lz=float(n))
        names = ['e%d' % i for i in range(n)]
        st = dict(strata=['s%d' % i for i in range(n)], strata_contact_models=[['flat', float(i + 1)] for i in range(n - 1)], ae=names,
                  ae_in_strata=[[x] for x in names], ae_prob=[[1.]]*n, ae_z_mean=[[1e6]]*n, avul_prob=[[0]]*n,
                  avul=[[0, 0]]*n, bg_facies=['f0']*n, bg_azim=[0.]*n, bg_dip=[0.]*n)
        o = execute(box, st, {x: sheet(facies=['f%d' % i]) for i, x in enumerate(names)}, hyd)
        if not o.error:
            d = o.reals[0].data
            level = np.floor(ref.mesh(box)[2]).astype(int)
            expect(p, d, 'facies', level)
            expect(p, d, 'strata', n - 1 - level)
            expect(p, d, 'hat', level)
            distinct(p, d, 'ae', level, n)
            distinct(p, d, 'ha', level, n)
            params(p, d, hyd)
    elif k == 'aes':
        box.update(lx=1., ly=1., dz=0.5, lz=float(n))
        o = execute(box, scene.strata1('e', ae_z_mean=[[1.]]), {'e': sheet()}, hyd)
        if not o.error:
            d = o.reals[0].data
            level = np.floor(ref.mesh(box)[2]).astype(int)
            distinct(p, d, 'ae', level, n)
            distinct(p, d, 'ha', level, n)
    elif k == 'types':
        names = ['e%d' % i for i in range(n)]
        hyd = many(n)
        st = scene.strata1('e0')
        st.update(ae=names, ae_in_strata=[names], ae_prob=[[0.]*(n - 1) + [1.]], ae_z_mean=[[1e6]*n])
        o = execute(box, st, {x: sheet(facies=['f%d' % i]) for i, x in enumerate(names)}, hyd)
        if not o.error:
            d = o.reals[0].data
            expect(p, d, 'hat', n - 1)
            expect(p, d, 'facies', n - 1)
            params(p, d, hyd)
    elif k == 'lenses':
        box.update(lx=1., ly=1., dz=0.25, lz=0.5*n)
        o = execute(box, scene.strata1('e'), {'e': sheet(lens_thickness=0.5)}, hyd)
        if not o.error:
            d = o.reals[0].data
            distinct(p, d, 'ha', np.floor(ref.mesh(box)[2]/0.5).astype(int), n)
            distinct(p, d, 'ae', 0, 1)
    elif k == 'troughs':
        # one in each cell; if there are very many of them, most are in the same cell
        at = list(range(n)) if n < 1000 else [0] + [1]*(n - 2) + [2]
        box.update(lx=float(at[-1] + 1), ly=1., lz=1., hydraulics=n < 1000)
        el = dict(geometry='trough', structure='massive', contact_model=['flat'], facies=['f2'], length=0.9, width=0.9, depth=0.9, agg=100.,
                  trough_density=0., bg_facies='f3', te_xyz=[[i + 0.5, 0.5, 1.] for i in at], paleoflow=[0., 0.],
                  dip=[0., 0.], azimuth=[0., 0.])
        o = execute(box, scene.strata1('e'), {'e': el}, hyd)
        if not o.error:
            d = o.reals[0].data
            expect(p, d, 'facies', 2)
            distinct(p, d, 'ha', ref.mesh(box)[0].astype(int), at[-1] + 1)
            if (d['ha'] < 0).any():
                p.append('ha is %d' % d['ha'].min())
            distinct(p, d, 'ae', 0, 1)
    elif k == 'channels':
        # on levels with a distance of one, each as deep as that
        box.update(lx=2., ly=1., lz=float(n + 1))
        el = dict(geometry='channel', structure='massive', contact_model=['flat'], facies=['f2'], dip=[20., 20.], h=0.4, k=0.7, ds=0.5, eps_factor=0.,
                  channel_no=1, agg=1., width=20., depth=1., buffer=0., flow_angle=0., bg_facies='f3')
        o = execute(box, scene.strata1('e'), {'e': el}, hyd)
        if not o.error:
            d = o.reals[0].data
            level = np.floor(ref.mesh(box)[2]).astype(int)
            m = d['ha'] >= 0
            if not m[level == n - 1].any():
                p.append('no channel on the highest level')
            pairs = np.unique(np.stack([d['ha'][m], level[m]]), axis=1)
            if not (len(np.unique(pairs[0])) == pairs.shape[1] == len(np.unique(pairs[1]))):
                p.append('%d channels on %d levels' % (len(np.unique(pairs[0])), len(np.unique(pairs[1]))))
            expect(p, d, 'facies', np.where(m, 2, 3))
            if len(np.unique(pairs[1])) < n:
                p.append('channels on %d of %d levels' % (len(np.unique(pairs[1])), n))
    elif k.endswith('beds'):
        # beds as thick as a cell, across a vertical column
        box.update(lx=1., ly=1., lz=2., dz=0.0625 if n < 1000 else 0.25)
        t = 2./n
        if n < 1000:
            box['dz'] = 2./max(4*n, 8)
        beds = dict(structure='dip', facies=['f1', 'f2', 'f3'], altfacies=[['f2'], ['f3'], ['f1']], dip=[0., 0.], azimuth=[0., 0.], dipset_dist=t)
        if k == 'beds':
            el = sheet(**beds)
        elif k == 'channel-beds':
            # parallel to the top of the channel, which is at z = 2
            box['lz'] = 3.
            beds.pop('azimuth')
            el = dict(geometry='channel', contact_model=['flat'], h=0.4, k=0.7, ds=0.5, eps_factor=0., channel_no=1, agg=1., width=20.,
                      depth=2., buffer=0.75, flow_angle=0., bg_facies='f0', **beds)
        elif k == 'bulb-beds':
            # on the axis of the trough the beds are horizontal
            beds['bulbset_dist'] = beds.pop('dipset_dist')
            el = dict(geometry='trough', contact_model=['flat'], length=4., width=4., depth=4., agg=100., trough_density=0.,
                      te_xyz=[[0.5, 0.5, 2.]], paleoflow=[0., 0.], **dict(beds, structure='bulb_sets'))
        else:
            el = dict(geometry='trough', contact_model=['flat'], length=4., width=4., depth=4., agg=100., trough_density=0.,
                      te_xyz=[[0.5, 0.5, 2.]], paleoflow=[0., 0.], **beds)
        box['hydraulics'] = False
        o = execute(box, scene.strata1('e'), {'e': el}, hyd, chooser=Mid(fractions=(0.2803 if k == 'bulb-beds' else 0.28125,)))
        if not o.error:
            d = o.reals[0].data
            z = ref.mesh(box)[2]
            m = d['ha'] >= 0
            if k == 'channel-beds':
                if not (m[(z < 2) & (z > 0.5)].all() and not m[z > 2].any()):
                    p.append('cells of the channel')
                distinct(p, {'ha': d['ha'][m]}, 'ha', 0, 1)
            else:
                distinct(p, d, 'ha', 0, 1)
            if not ref.phases((-z if k == 'bulb-beds' else z)[m]/t, d['facies'][m] - 1, 3):
                p.append('the facies do not form beds of thickness %g' % t)
    elif k == 'cells':
        box.update(lx=1., ly=1., lz=1., hydraulics=n < 1000)
        box['l' + case['axis']] = float(n)
        names = ['e0', 'e1']
        # a trough in the last cell of the x- and y-axis, an element in the lowest and highest ones
        top = box['lz']
        el = dict(geometry='trough', structure='massive', contact_model=['flat'], facies=['f2'], length=0.9, width=0.9, depth=0.9, agg=2*n,
                  trough_density=0., bg_facies='f3', te_xyz=[[box['lx'] - 0.5, box['ly'] - 0.5, top]], paleoflow=[0., 0.],
                  dip=[0., 0.], azimuth=[0., 0.])
        o = execute(box, scene.strata1('e'), {'e': el}, hyd)
        if not o.error:
            d = o.reals[0].data
            want = tuple(int(box['l' + a]) for a in 'xyz')
            if d['facies'].shape != want:
                return Result(['shape %s instead of %s' % (d['facies'].shape, want)], 'shape')
            f = np.full(want, 3)
            f[-1, -1, -1] = 2
            expect(p, d, 'facies', f)
            expect(p, d, 'strata', 0)
            g = o.reals[0].grid
            for a in 'xyz':
                c = getattr(g, 'n' + a, None)
                if c is not None and c != want['xyz'.index(a)]:
                    p.append('n%s = %s' % (a, c))
    elif k == 'alternatives':
        m = max(n, 2)
        hyd = many(m)
        names = ['f%d' % i for i in range(m)]
        box.update(lx=1., ly=1., lz=2., dz=2./4/m)
        el = sheet(structure='dip', facies=names, altfacies=[[names[(i + 1) % m]] for i in range(m)], dip=[0., 0.],
                   azimuth=[0., 0.], dipset_dist=2./m)
        o = execute(box, scene.strata1('e'), {'e': el}, hyd, chooser=Mid(fractions=(0.28125,)))
        if not o.error:
            d = o.reals[0].data
            if not ref.phases(ref.mesh(box)[2]/(2./m), d['facies'], m):
                p.append('the facies do not form beds of thickness %g' % (2./m))
            params(p, d, hyd)
    elif k == 'names':
        # names of n characters
        f, s, e = ('q'*n)[:-1] + 'f', ('u'*n)[:-1] + 's', ('v'*n)[:-1] + 'e'
        hyd = scene.hydraulics([f, f + '2'])
        o = execute(box, scene.strata1(e, strata=[s], bg_facies=[f]), {e: sheet(facies=[f + '2'])}, hyd,
                    run=dict(runname=('w'*min(n, 200))[:-1] + 'r'))
        if not o.error:
            d = o.reals[0].data
            expect(p, d, 'facies', 1)
            params(p, d, hyd)
    elif k == 'realizations':
        box.update(lx=1., ly=1., lz=1., hydraulics=False)
        o = execute(box, scene.strata1('e'), {'e': sheet()}, hyd, run=dict(numsim=n, runname='r'))
        if not o.error:
            want = ['real_%03d' % (i + 1) for i in range(n)]
            got = [os.path.basename(r.realdir) for r in o.reals]
            if got != want:
                i = [a == b for a, b in zip(got, want)].index(False) if len(got) == n else len(got)
                p.append('%d realizations, number %d in %s' % (len(got), i + 1, got[i:i+1]))
    if o.error:
        return Result(['%d %s: %s' % (n, k, o.error)], 'error')
    d = o.reals[0].data
    return Result(['%d %s: %s' % (n, k, x) for x in p[:3]], repr([(k, n)] + [len(np.unique(d[x])) for x in ('facies', 'ha', 'ae', 'strata')]), d['facies'].size)
