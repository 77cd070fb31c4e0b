"""C44: an option changes nothing but what it describes."""
import copy
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, zoo
from lib.rng import Chooser, gauss_pattern

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a model and one changed option (or two of them); the model is executed with and without the change, with random answers '
        'that depend only on the requested distribution and on the number of earlier requests of it; every array is compared in every '
        'cell, and differences must lie in the cells and arrays which the changed options describe; outcome = arrays of the changed model')
BOUNDS = {'quick': 'all 32 models of the collection x all single changes of about 50 options of elements, strata, facies, trends, '
                   'flow and output (for every element, stratum and facies) x 2 sets of answers, and all pairs of changes for 3 models',
          'thorough': 'all 32 models x all single changes x 4 sets of answers, and all pairs of changes for all models'}

GEOLOGY = ('strata', 'ae', 'ha', 'hat', 'facies', 'azim', 'dip')
HYDRAULIC = ('k_iso', 'poros', 'anirat', 'ktensors')
ALL = GEOLOGY + HYDRAULIC
BY_FACIES = ('facies',) + HYDRAULIC
BEDS = ('facies', 'azim', 'dip') + HYDRAULIC
FACIES = ['f0', 'f1', 'f2', 'f3', 'f4']


class Keyed(Chooser):
    """Answers depend on the requested distribution and the number of earlier requests of the same one only."""

    def __init__(self, v):
        super().__init__(fields='generic')
        self.v = v
        self.counts = {}

    def turn(self, *key):
        i = self.counts.get(key, 0)
        self.counts[key] = i + 1
        return i + self.v

    def frac(self, i):
        return float(np.modf(0.28125 + 0.3818*i)[0])

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and np.ndim(low) == 0 and np.ndim(high) == 0:
            low, high = float(low), float(high)
            if (low, high) == (0., 1.):
                # used for several purposes
                return self.frac(self.v)
            return low + (high - low)*self.frac(self.turn('u', low, high))
        return super().uniform(low, high, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and np.ndim(loc) == 0 and np.ndim(scale) == 0:
            if (loc, scale) in ((0., 1.), (1., 1.)):
                return float(loc) + 0.25
            return float(loc) + (-0.5, 0.75, 0.25)[self.turn('n', float(loc), float(scale)) % 3]*float(scale)
        return super().normal(loc, scale, size)

    def randn(self, *shape):
        return self.normal() if not shape else super().randn(*shape)

    def field(self, shape):
        return gauss_pattern(shape, self.v)

    def pick(self, kind, alternatives):
        if kind in ('choice', 'randint') and len(alternatives) > 1:
            # positions in lists can be positions in any list: always the same answer
            i = self.v if kind == 'randint' or self.items == (list(range(len(self.items[0]))), None) else self.turn('c', str(self.items))
            return alternatives[i % len(alternatives)]
        return super().pick(kind, alternatives)

    def choice(self, a, size=None, replace=True, p=None):
        items = list(range(int(a))) if isinstance(a, (int, np.integer)) else list(a)
        # (objects are told apart by their positions)
        names = [x.item() if isinstance(x, np.generic) else x if isinstance(x, (int, str)) else i for i, x in enumerate(items)]
        self.items = names, None if p is None else np.asarray(p).tolist()
        return super().choice(a, size, replace, p)


def scenes():
    return zoo.scenes()


GEOMETRY = {
    'trough': dict(length=[2.1], width=[1.9], depth=[0.6, 1.1], agg=[0.4, 0.9], trough_density=[0.17, 0.6], buffer=[0.25], paleoflow=[[-10., 80.]],
                   size_ztrend=[[1.2, 0.7]], migrate=[[0.2, 0.1, -0.3, 0.05]], periodic=[]),
    'channel': dict(width=[0.9], depth=[0.45, 0.9], agg=[0.5, 1.], channel_no=[1, 3], buffer=[0.25], flow_angle=[-35., 90.], h=[0.3], k=[0.5],
                    eps_factor=[0., 0.5], mig=[0.6], ds=[0.4], size_ztrend=[[1.2, 0.7]]),
    'sheet': dict(lens_thickness=[0.4, -1], size_ztrend=[[1.2, 0.7]]),
}
INTERNAL = {
    'trough': dict(facies=[['f2', 'f1', 'f0'], ['f4']], dip=[[12.3, 33.]], azimuth=[[-41.5, 17.]], dipset_dist=[0.26], bulbset_dist=[0.29],
                   lag_height=[0.3, 0.12], lag_facies=['f0'], structure=['massive', 'dip', 'bulb', 'bulb_sets']),
    'channel': dict(facies=[['f3', 'f1', 'f2'], ['f4']], dip=[[11.3, 31.]], dipset_dist=[0.31], lag_height=[0.25, 0.1], lag_facies=['f2'],
                    structure=['massive', 'dip']),
    'sheet': dict(facies=[['f4', 'f2', 'f0'], ['f1']], dip=[[3.3, 19.]], azimuth=[[-81.5, 7.]], dipset_dist=[0.21], structure=['massive', 'dip']),
}
BACKGROUND = dict(bg_facies=['f0', 'f3'], bg_azim=[0., -47.5], bg_dip=[0., 21.5])
TRENDS = dict(k_ztrend=[[0.5, 2.]], k_xtrend=[[1.5, 0.25]], n_ztrend=[[0.7, 1.1]], n_xtrend=[[1.2, 0.9]])


def flat(sc):
    """contacts are flat, and objects are below the top of their elements"""
    return not any('random' in str(c) for c in sc[1]['strata_contact_models']) and \
        all(e['contact_model'][0] == 'flat' and 'te_xyz' not in e for e in sc[2].values())


def changes(name):
    """all changes of one option: (section, option, position or None, value, where it acts, arrays, heterogeneity)"""
    sc = scenes()[name]
    res = []
    for e, el in sc[2].items():
        g = el['geometry']
        for o, vs in INTERNAL[g].items():
            for v in vs:
                if o == 'facies' and 'altfacies' in el:
                    continue
                if o in ('lag_height', 'lag_facies'):
                    extra = {'lag_facies': v, 'lag_height': 0.2} if o == 'lag_facies' else \
                        {'lag_height': v, 'lag_facies': el.get('lag_facies', 'f3')}
                else:
                    extra = {o: v}
                if any(el.get(k) != x for k, x in extra.items()):
                    res.append((e, extra, 'lag' if o[:3] == 'lag' else 'objects', BEDS, 'internal'))
        for o, vs in GEOMETRY[g].items():
            for v in vs:
                if flat(sc) and el.get(o) != v and not (o == 'migrate' and 'te_xyz' in el):
                    res.append((e, {o: v}, 'type', GEOLOGY, 'facies'))
        if g != 'sheet':
            for o, vs in BACKGROUND.items():
                for v in vs:
                    if el.get(o) != v:
                        res.append((e, {o: v}, 'background', BY_FACIES if o == 'bg_facies' else (o[3:], 'ktensors'), 'internal'))
        for o, vs in TRENDS.items():
            for v in vs:
                res.append((e, {o: v}, 'of type', ('k_iso', 'ktensors') if o[0] == 'k' else ('poros',), 'internal'))
    for i in range(len(sc[1]['strata'])):
        for o, v in (('bg_facies', 'f3'), ('bg_facies', 'f4'), ('bg_azim', -33.), ('bg_dip', 44.)):
            if sc[1][o][i] != v:
                new = list(sc[1][o])
                new[i] = v
                res.append(('strata', {o: new, '.': i}, 'stratum', BY_FACIES if o == 'bg_facies' else (o[3:], 'ktensors'), 'internal'))
    hy = scene.hydraulics()
    for i in range(5):
        for o, v, a in (('k_h', 2.5, ('k_iso', 'ktensors')), ('sig_y', 1.7, ('k_iso', 'ktensors')), ('sig_y', 0., ('k_iso', 'ktensors')),
                        ('ycorlengths', [1., 2., 0.5], ('k_iso', 'ktensors')), ('n', 0.37, ('poros',)), ('sig_n', 0.004, ('poros',)), ('sig_n', 0., ('poros',)),
                        ('ncorlengths', [1., 1., 2.], ('poros',)), ('k_ratio', 4.5, ('anirat', 'ktensors'))):
            new = list(hy[o])
            new[i] = v
            for level in ('internal', 'facies', 'none'):
                if level == 'internal' or o in ('k_h', 'n', 'k_ratio') or v == 0.:
                    res.append(('hydraulics', {o: new, '.': i}, 'facies', a if level == 'internal' or o in ('k_h', 'n', 'k_ratio') else (), level))
    for o, vs in TRENDS.items():
        res.append(('hydraulics', {o: vs[0]}, 'all', ('k_iso', 'ktensors') if o[0] == 'k' else ('poros',), 'internal'))
    res.append(('model', {'heterogeneity_level': 'facies'}, 'all', ('k_iso', 'poros', 'ktensors'), 'internal'))
    res.append(('model', {'heterogeneity': False}, 'all', ('k_iso', 'poros', 'ktensors'), 'internal'))
    res.append(('model', {'hydraulics': False}, 'absent', HYDRAULIC, 'internal'))
    for new in ({'runname': 'other'}, {'numsim': 2}, {'outputs': ['mat', 'vtr']}, {'overwrite': True}):
        res.append(('run', new, 'none', (), 'internal'))
    res.append(('flowtrans', {'hin': [9., 8., 7.], 'hout': [1., 2., 3.]}, 'none', (), 'internal'))
    return res


def cases(tier):
    t = tier == 'thorough'
    for name in scenes():
        n = len(changes(name))
        for i in range(n):
            for v in range(4 if t else 2):
                yield {'model': name, 'changes': [i], 'v': v}
        if t or name in ('mixed', 'trough-lag', 'strata-flat'):
            ch = changes(name)
            for i, j in itertools.combinations(range(n), 2):
                if compatible(ch[i], ch[j]) and (t or (i + j) % 5 == 0 or name == 'trough-lag'):
                    yield {'model': name, 'changes': [i, j], 'v': 0}


def compatible(a, b):
    if a[4] != b[4]:
        return False
    return a[0] != b[0] or not set(a[1]) - {'.'} & set(b[1]) - {'.'}


def run(name, which, v, level):
    m, st, el = copy.deepcopy(scenes()[name])
    secs = dict(el, strata=st, hydraulics=scene.hydraulics(), model=m, run=dict(runname='r', outputs=['npz']), flowtrans=dict(hin=[1., 1., 1.], hout=[0., 0., 0.]))
    if level == 'none':
        m.update(heterogeneity=False)
    else:
        m.update(heterogeneity=True, heterogeneity_level=level)
    for c in which:
        secs[c[0]].update({k: x for k, x in c[1].items() if k != '.'})
    text = scene.ini(secs['run'], m, st, el, secs['hydraulics'], secs['flowtrans'])
    return scene.run(text, chooser=Keyed(v))


_plain = {}


def where(c, name, q, d):
    """cells in which a change may act"""
    names = scenes()[name][1]['ae']
    n_st = len(scenes()[name][1]['strata'])
    if c[2] in ('objects', 'lag'):
        return (q['hat'] == names.index(c[0])) & (q['ha'] != -1)
    if c[2] == 'background':
        return (q['hat'] == names.index(c[0])) & (q['ha'] == -1)
    if c[2] == 'of type':
        return q['hat'] == names.index(c[0])
    if c[2] == 'type':
        return (q['hat'] == names.index(c[0])) | (d['hat'] == names.index(c[0]))
    if c[2] == 'stratum':
        own = {'bg_facies': 0, 'bg_azim': 0, 'bg_dip': 0}
        o = [k for k in c[1] if k in own][0]
        res = (q['strata'] == n_st - 1 - c[1]['.']) & (q['ha'] == -1)
        for e, el in scenes()[name][2].items():
            if o in el:
                res &= q['hat'] != names.index(e)
        return res
    if c[2] == 'facies':
        return q['facies'] == c[1]['.']
    return np.full(q['hat'].shape, c[2] in ('all', 'absent'))


def check(case):
    name = case['model']
    ch = [changes(name)[i] for i in case['changes']]
    key = name, case['v'], ch[0][4]
    if key not in _plain:
        _plain[key] = run(name, [], case['v'], ch[0][4])
    p = _plain[key]
    if p.error:
        return Result(['failed: %s' % p.error], 'error')
    o = run(name, ch, case['v'], ch[0][4])
    what = ' and '.join('%s in [%s]' % (', '.join('%s = %s' % x for x in c[1].items() if x[0] != '.'), c[0]) for c in ch)
    if o.error:
        return Result(['%s: failed: %s' % (what, o.error)], 'error')
    q, d = p.reals[0].data, o.reals[0].data
    problems = []
    geometry = any(c[2] == 'type' for c in ch)
    masks = [where(c, name, q, d) for c in ch]
    changed = False
    flat_cells = ((q['azim'] == 0) & (q['dip'] == 0)) | ((d['azim'] == 0) & (d['dip'] == 0))
    for k in sorted(q):
        absent = any(c[2] == 'absent' for c in ch) and k in HYDRAULIC
        if absent or k not in d:
            if absent != (k not in d):
                problems.append('%s: %s is %s' % (what, k, 'missing' if k not in d else 'there'))
            continue
        a, b = q[k], d[k]
        if k in ('ha', 'ae') and geometry:
            # the objects and elements are counted from the top
            if k == 'ae':
                continue
            a, b = a == -1, b == -1
        if a.shape != b.shape:
            problems.append('%s: shape of %s' % (what, k))
            continue
        diff = a != b if k not in HYDRAULIC else ~np.isclose(a, b, rtol=1e-9, atol=1e-12*np.abs(a).max())
        if diff.ndim > 3:
            diff = diff.any(axis=(3, 4))
        changed |= bool(diff.any())
        allowed = np.zeros(diff.shape, bool)
        for c, m in zip(ch, masks):
            if k in c[3] or (c[2] == 'type' and k in HYDRAULIC):
                # cells of the lag have no angles
                allowed |= m if c[2] != 'lag' or k in HYDRAULIC else m & flat_cells
        bad = diff & ~allowed
        if bad.any():
            i = scene.first_bad(bad)
            problems.append('%s changes %s in cell %s (stratum %d, element type %s, %s, facies %d) and %d other cells' % (
                what, k, i, q['strata'][i], q['hat'][i], 'background' if q['ha'][i] == -1 else 'object', q['facies'][i], bad.sum() - 1))
    return Result(problems, [d[k] for k in sorted(d)] if changed else 'no change', 2, trivial=not changed)
