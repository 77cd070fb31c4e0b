"""C11: of several overlapping objects and elements, the topmost one owns a cell."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a stack of 2-3 strata with flat contacts, each filled with troughs at given positions (in every order), '
        'straight channels, sheets or only background; owner (stratum, element, type, object) of every cell is compared '
        'with a search over all objects from top to bottom without any shortcuts; outcome = object and element arrays')
BOUNDS = {'quick': 'upper stratum: all sequences of 1-3 out of 5 troughs, 3 channel stacks, 2 sheet stacks, empty; lower: 7 '
                   'fillings; 3 strata: all triples of 8 fillings; 2-3 elements in one stratum: all pairs (with another stratum above or below) and triples of 7 fillings',
          'thorough': 'upper stratum: all sequences of 1-4 out of 7 troughs, 3 channel stacks, 2 sheet stacks, empty; lower: 10 '
                      'fillings; 3 strata: all triples of 14 fillings; 2-4 elements in one stratum: all pairs and triples of 9 fillings, all quadruples of 6 (also in two strata); 2 grids'}

GRIDS = [dict(dx=0.5, dy=0.5, dz=0.2, lx=4., ly=3., lz=4., x0=3., y0=-1., z0=2., hydraulics=False),
         dict(dx=0.4, dy=0.6, dz=0.125, lx=3.2, ly=3., lz=3., x0=-3., y0=1., z0=-2., hydraulics=False)]
# relative positions (x, y in units of the domain, z: fraction between bottom and top of the stratum)
P = [[0.3, 0.5, 0.97], [0.55, 0.4, 0.61], [0.5, 0.6, 0.61], [0.35, 0.45, 0.15], [0.8, 0.5, 0.33], [0.1, 0.2, 0.8], [0.6, 0.7, 0.05]]


def fillings(tier):
    few = [['trough', [0]], ['trough', [3, 1]], ['trough', [4, 0, 2]], ['channel', 0], ['channel', 1], ['sheet', 0.55], ['trough', []]]
    return few if tier == 'quick' else few + [['channel', 2], ['sheet', 1.3], ['trough', [6, 5]]]


def cases(tier):
    n, k = (5, 3) if tier == 'quick' else (7, 4)
    up = [['trough', list(t)] for r in range(1, k + 1) for t in itertools.permutations(range(n), r)]
    up += [['channel', i] for i in range(3)] + [['sheet', 0.55], ['sheet', 1.3], ['trough', []]]
    grids = (0,) if tier == 'quick' else (0, 1)
    for g in grids:
        for u in up:
            for lo in fillings(tier):
                yield {'g': g, 'stack': [lo, u]}
    three = fillings(tier) + [['trough', [3]]] + ([['channel', 2], ['trough', [3, 6]], ['sheet', -1]] if tier != 'quick' else [])
    for g in grids:
        for t in itertools.product(three, repeat=3):
            yield {'g': g, 'stack': list(t)}
    # several elements per stratum
    few = [['trough', [0, 3, 1]], ['trough', [4, 2]], ['channel', 1], ['channel', 0], ['sheet', 0.21], ['sheet', -1], ['trough', []]]
    if tier != 'quick':
        few += [['trough', [6, 5, 1, 0]], ['channel', 2]]
    for g in grids:
        for t in itertools.product(few, repeat=2):
            for lo in (['trough', [0, 3]], ['sheet', 0.55], ['channel', 0]):
                yield {'g': g, 'groups': [[lo], list(t)]}
                yield {'g': g, 'groups': [list(t), [lo]]}
        for t in itertools.product(few, repeat=3):
            yield {'g': g, 'groups': [list(t)]}
        if tier != 'quick':
            for t in itertools.product(few[:6], repeat=4):
                yield {'g': g, 'groups': [list(t[:2]), list(t[2:])]}
                yield {'g': g, 'groups': [list(t)]}


class Sequence(Chooser):
    """The types of the elements of a stratum are drawn in the listed order."""

    def __init__(self):
        super().__init__()
        self.seen = {}

    def choice(self, a, size=None, replace=True, p=None):
        if size is None and not isinstance(a, (int, np.integer)) and len(a) > 1 and all(hasattr(x, 'name') for x in a):
            key = tuple(x.name for x in a)
            k = self.seen[key] = self.seen.get(key, -1) + 1
            return a[k % len(a)]
        return super().choice(a, size, replace, p)


CHANNELS = [dict(width=2.3, depth=0.9, agg=0.37, buffer=0., flow_angle=0.), dict(width=3.1, depth=1.7, agg=0.6, buffer=0.1, flow_angle=90.),
            dict(width=1.2, depth=2.2, agg=0.23, buffer=0.3, flow_angle=30.)]


def check(case):
    model = GRIDS[case['g']]
    X, Y, Z = ref.mesh(model)
    groups = case['groups'] if 'groups' in case else [[f] for f in case['stack']]
    n = len(groups)
    z0, lz = model['z0'], model['lz']
    cuts = {1: [], 2: [0.53], 3: [0.42, 0.61]}[n]
    levels = [z0] + [round(z0 + c*lz, 6) for c in cuts] + [z0 + lz]
    el, aes, parts, heights = {}, [], [], []
    for si, fills in enumerate(groups):
        m = len(fills)
        h = (levels[si+1] - levels[si])/(m - 0.4) if m > 1 else 1e6
        heights.append([h]*m)
        cut = [levels[si+1] - j*h for j in range(m)][::-1]
        for (kind, arg), bot, top in zip(fills, [levels[si]] + cut[:-1], cut):
            parts.append((si, kind, arg, bot, top))
    for i, (si, kind, arg, bot, top) in enumerate(parts):
        nm = 'e%d' % i
        aes.append(dict(kind=kind, bot=bot, top=top, type=i, stratum=n - 1 - si, objects=[]))
        common = dict(contact_model=['flat'], facies=['f1'], dip=[0., 0.], azimuth=[0., 0.], structure='massive')
        if kind == 'trough':
            pos = [[model['x0'] + P[j][0]*model['lx'], model['y0'] + P[j][1]*model['ly'], round(bot + P[j][2]*(top - bot), 6)]
                   for j in arg]
            size = [(2.9, 1.9, 1.3), (2.2, 2.6, 1.9), (3., 2., 0.9), (2.6, 1.7, 1.1)][i]
            al = [20., -35., 75., 140.][i]
            # te_xyz without a position inside of the domain: only background
            el[nm] = dict(common, geometry='trough', length=size[0], width=size[1], depth=size[2], agg=1.,
                          trough_density=0.2, paleoflow=[al, al], te_xyz=pos or [[1000., 1000., bot + 0.1]], bg_facies='f%d' % min(2 + i, 4))
            for p in pos:
                t = ref.Trough(model, p, *size, al)
                aes[-1]['objects'].append((p[2],) + t.inside(X, Y, Z))
        elif kind == 'channel':
            c = CHANNELS[arg]
            el[nm] = dict(common, geometry='channel', h=0.4, k=0.7, ds=0.13, eps_factor=0., channel_no=1, bg_facies='f%d' % min(2 + i, 4), **c)
            fa = np.radians(c['flow_angle'])
            lx, ly = model['lx'], model['ly']
            dw = abs(lx*np.sin(fa)) + abs(ly*np.cos(fa))
            dl = abs(lx*np.cos(fa)) + abs(ly*np.sin(fa))
            ys = -dw/2 + 0.28125*dw
            xs = model['x0'] + lx/2 - (dl + c['width'])/2*np.cos(fa) - ys*np.sin(fa)
            yy = model['y0'] + ly/2 - (dl + c['width'])/2*np.sin(fa) + ys*np.cos(fa)
            s = np.arange(0, 3*(dl + c['width']), 0.13 + 1e-10)
            px, py = xs + s*np.cos(fa), yy + s*np.sin(fa)
            k = (px >= model['x0'] - c['width']) & (px <= model['x0'] + lx + c['width'])
            z = top - c['agg']
            ch = ref.Channel(px[k], py[k], z, c['width'], c['depth'])
            while z > bot + c['buffer']*c['depth']:
                ch.ztop = z
                aes[-1]['objects'].append((z,) + inside_channel(ch, X, Y, Z))
                z -= c['agg']
        else:
            el[nm] = dict(common, geometry='sheet', lens_thickness=arg)
            z = top
            while True:
                b = z - arg if arg > 0 else bot
                b = b if b > bot + 1e-9 else bot
                ins = (Z >= b) & (Z <= z)
                und = (np.abs(Z - b) < 1e-6) | (np.abs(Z - z) < 1e-6)
                aes[-1]['objects'].append((z, ins & ~und, und & (Z > b - 1e-5) & (Z < z + 1e-5)))
                if b == bot:
                    break
                z = b
    names, at = [], 0
    for fills in groups:
        names.append(['e%d' % i for i in range(at, at + len(fills))][::-1])
        at += len(fills)
    st = dict(strata=['s%d' % i for i in range(n)], strata_contact_models=[['flat', z] for z in levels[1:-1]],
              ae=['e%d' % i for i in range(at)], ae_in_strata=names, ae_prob=[[1./len(x)]*len(x) for x in names],
              ae_z_mean=heights, avul_prob=[[0]]*n, avul=[[0, 0]]*n, bg_facies=['f0']*n, bg_azim=[0.]*n, bg_dip=[0.]*n)
    ch = Sequence()
    o = scene.run(scene.ini({}, model, st, el, scene.hydraulics()), chooser=ch)
    if any(len(x) > 1 and ch.seen.get(tuple(x), -1) < len(x) - 1 for x in names) and not o.error:
        return Result([], 'types are drawn in another way')
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data
    # reference: search from the top without shortcuts
    own_ae = np.full(Z.shape, -1)
    own_obj = np.full(Z.shape, -1)            # -2: background
    care = np.ones(Z.shape, bool)
    count = 0
    for ai, ae in enumerate(aes[::-1]):
        free = own_ae < 0
        objs = sorted(ae['objects'], key=lambda t: -t[0])
        for j, (z, ins, und) in enumerate(objs):
            tied = [t for i, t in enumerate(objs) if i != j and t[0] == z]
            care &= ~(und & (own_ae < 0))
            for t in tied:
                care &= ~(ins & t[1] & (own_ae < 0))
            new = ins & (own_ae < 0)
            own_ae[new] = ai
            own_obj[new] = count
            count += 1
        if ae['kind'] != 'sheet':
            bg = (Z >= ae['bot']) & (Z <= ae['top']) & (own_ae < 0)
            care &= ~((np.abs(Z - ae['bot']) < 1e-6) | (np.abs(Z - ae['top']) < 1e-6))
            own_ae[bg] = ai
            own_obj[bg] = -2
    problems = []
    kinds = np.array([ae['type'] for ae in aes[::-1]])
    strata = np.array([ae['stratum'] for ae in aes[::-1]])
    for key, want in (('strata', strata[own_ae]), ('ae', own_ae), ('hat', kinds[own_ae])):
        bad = care & (d[key] != want)
        if bad.any():
            i = scene.first_bad(bad)
            problems.append('%s of cell %s is %d instead of %d' % (key, i, d[key][i], want[i]))
    bad = care & ((d['ha'] == -1) != (own_obj == -2))
    if bad.any():
        i = scene.first_bad(bad)
        problems.append('cell %s belongs to object %d instead of %d' % (i, d['ha'][i], own_obj[i]))
    # numbers of objects: one to one
    pairs = set(zip(own_obj[care & (own_obj >= 0)].tolist(), d['ha'][care & (own_obj >= 0)].tolist()))
    if len({a for a, _ in pairs}) != len(pairs) or len({b for _, b in pairs}) != len(pairs):
        problems.append('objects are mixed up: (reference, result) %s' % sorted(pairs))
    return Result(problems, [d['ha'], d['ae']], count + n)


_dist = {}


def inside_channel(ch, X, Y, Z):
    key = (ch.px.tobytes(), ch.py.tobytes(), X.tobytes())
    if key not in _dist:
        if len(_dist) > 50:
            _dist.clear()
        _dist[key] = ch.dist(X[:, :, 0], Y[:, :, 0])[0][:, :, None]
    D = _dist[key]
    h = (Z - ch.ztop) - (4*ch.depth/ch.width**2*D**2 - ch.depth)
    top = Z - ch.ztop
    und = ((np.abs(h) < 1e-6) & (top <= 1e-6)) | ((np.abs(top) < 1e-6) & (h >= -1e-6))
    return (h >= 0) & (top <= 0) & ~und, und
