"""C19: number and position of randomly placed troughs."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref, chan
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a trough element (aggradation, buffer, depth, density, migration, contacts) with deviations of the random '
        'draws from the default answers; planes, numbers and positions of the troughs are compared with the reference, and '
        'the object of every cell with the troughs; outcome = positions of the troughs')
BOUNDS = {'quick': '6 aggradations x 4 buffers x 3 depths x 3 densities x 4 migrations x 2 pairs of contacts; 3 more densities (none, very few, many); 1 deviation for 18 of them; 162 variations of the migration; 144 undulating elements',
          'thorough': 'the same, 2 deviations for 18 of them; 162 variations of the migration; 144 undulating elements'}
MODEL = dict(dx=0.5, dy=0.5, dz=0.1, lx=2.5, ly=2., lz=2., x0=4., y0=-3., z0=1., hydraulics=False)


def cases(tier):
    b = 1 if tier == 'quick' else 2
    i = 0
    for agg, buf, dep, den, mig, con in itertools.product(
            (0.23, 0.4, 0.57, 0.9, 1.7, 5.), (None, 0.3, 0.9, 2.5), (0.45, 1.1, 3.), (0.2, 0.45, 3.),
            (None, [0.3, 0., -0.2, 0.], [0., 0.1, 0., 0.1], [-1.1, 0., 0.7, 0.]), ([], [0.77])):
        yield {'agg': agg, 'buffer': buf, 'depth': dep, 'density': den, 'mig': mig, 'cut': con, 'dev': [], 'bound': 0}
        i += 1
        if mig is None and dep == 0.45 and den == 0.2:
            for d in (0., 1e-5, 40.):
                yield {'agg': agg, 'buffer': buf, 'depth': dep, 'density': d, 'mig': mig, 'cut': con, 'dev': [], 'bound': 0}
        if i % 101 == 0:
            yield {'agg': agg, 'buffer': buf, 'depth': dep, 'density': den, 'mig': mig, 'cut': con, 'dev': [], 'bound': b}


    for s0, s3, mig, den, salt in itertools.product((0., 0.2, 0.7), (0., 0.1, 0.5), ([0., 0.], [0.3, -0.2], [-1., 0.4]), (0.2, 0.6), (0, 1, 2)):
        yield {'kind': 'spread', 's': [s0, s3], 'mig': mig, 'density': den, 'salt': salt}
    for agg, buf, dep, noise, both in itertools.product((0.13, 0.23, 0.4), (None, 0.3, 0.9), (0.45, 0.83), ('g', '-g', 'h', '-h'), (0, 1)):
        yield {'kind': 'undulating', 'agg': agg, 'buffer': buf, 'depth': dep, 'noise': noise, 'both': both}


def execute(el, chooser, con):
    n = len(con) + 1
    names = {1: ['t'], 3: ['s', 't', 's']}[n]
    els = {'t': dict(dict(geometry='trough', structure='massive', contact_model=['flat'], facies=['f1'], length=1.7, width=1.3,
                          paleoflow=[0., 0.], bg_facies='f2'), **el),
           's': dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f3'], lens_thickness=-1)}
    st = dict(strata=['s%d' % i for i in range(n)], strata_contact_models=con, ae=['s', 't'],
              ae_in_strata=[[x] for x in names], ae_prob=[[1.]]*n, ae_z_mean=[[1e6]]*n, avul_prob=[[0]]*n, avul=[[0, 0]]*n,
              bg_facies=['f0']*n, bg_azim=[0.]*n, bg_dip=[0.]*n)
    return scene.run(scene.ini({}, MODEL, st, els, scene.hydraulics()), chooser=chooser)


def positions(real):
    try:
        return [(t.x, t.y, t.z) for s in real.strata for a in s.aes for t in a.object_list if hasattr(t, 'x')]
    except AttributeError:
        return None


def moves(pos):
    """movement of every trough from each plane to the next one"""
    per = {}
    for p in pos:
        per.setdefault(round(p[2], 7), []).append(p)
    per = [per[z] for z in sorted(per, reverse=True)]
    if len({len(p) for p in per}) != 1 or len(per) < 3:
        return None
    return np.array([[b[i][:2] for i in range(len(b))] for b in per[1:]]) - np.array([[a[i][:2] for i in range(len(a))] for a in per[:-1]])


def spread(case):
    """The same draws with other variations of the migration."""
    def run(s):
        el = dict(depth=0.6, agg=0.45, trough_density=case['density'], migrate=[case['mig'][0], s[0], case['mig'][1], s[1]])
        return execute(el, chan.Wavy(case['salt']), [])
    s0, s3 = case['s']
    res = []
    for s in (case['s'], [2*s0, s3], [s0, 2*s3], [0., 0.]):
        o = run(s)
        if o.error:
            return Result(['failed: ' + o.error], 'error')
        pos = positions(o.reals[0])
        if pos is None:
            return Result([], 'not accessible', trivial=True)
        m = moves(pos)
        if m is None:
            return Result(['the number of troughs changes from plane to plane, or there are no planes'], 'number')
        res.append(m - np.array(case['mig']))
    a, b, c, zero = res
    problems = []
    if np.abs(zero).max() > 1e-9:
        problems.append('without variation, the troughs migrate by more than the mean')
    for i, s, scaled, other, name in ((0, s0, b, c, 'x'), (1, s3, c, b, 'y')):
        if np.abs(other[..., i] - a[..., i]).max() > 1e-9:
            problems.append('the variation of the other direction changes the migration in %s' % name)
        if s == 0 and np.abs(a[..., i]).max() > 1e-9:
            problems.append('migration in %s varies, although its variation is 0' % name)
        if s > 0 and (np.abs(a[..., i]).min() < 1e-9 or np.any(np.abs(scaled[..., i]) <= np.abs(a[..., i]))):
            problems.append('migration in %s: %s with the variation %g, %s with twice as much'
                            % (name, a[..., i].ravel()[:4], s, scaled[..., i].ravel()[:4]))
    return Result(problems, repr(a.round(6).tolist()), 4*a.shape[0]*a.shape[1], evaluations=4)


def undulating(case):
    """Between undulating contacts: from the mean level of the upper one to the highest point of the lower one."""
    from checks.c09 import Fixed
    bot, top = MODEL['z0'] + 0.41, MODEL['z0'] + 1.57
    con = [['random', bot, 0.012, 1.5, 1.5] if case['both'] else ['flat', bot], ['random', top, 0.012, 1.5, 1.]]
    o = execute(dict(depth=case['depth'], agg=case['agg'], buffer=case['buffer'], trough_density=0.3), Fixed(case['noise']), con)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    pos = positions(o.reals[0])
    if pos is None:
        return Result([], 'not accessible', trivial=True)
    problems = []
    d = o.reals[0].data
    Z = ref.mesh(MODEL)[2]
    low, up = np.unique((d['strata'] == 2).sum(axis=2)), np.unique((d['strata'] == 0).sum(axis=2))
    if len(up) < 2 or (case['both'] and len(low) < 2):
        problems.append('the contacts do not undulate')
    # the highest point of the lower contact is between two layers of cells
    zc = float(Z[d['strata'] == 2].max())
    lim = [x + case['depth']*(case['buffer'] or 0.) for x in ((zc, zc + 0.1) if case['both'] else (bot, bot))]
    got = sorted({round(p[2], 7) for p in pos}, reverse=True)
    most = int(np.ceil((top - lim[0])/case['agg'] - 1e-9))
    least = int(np.ceil((top - lim[1])/case['agg'] - 1e-9))
    want = [top - i*case['agg'] for i in range(max(len(got), 0))]
    if not max(least, 0) <= len(got) <= max(most, 0) or any(abs(a - b) > 1e-6 for a, b in zip(got, want)):
        problems.append('planes %s; expected %d to %d of them from %g on' % (got, least, most, top))
    return Result(problems, repr((got, case['noise'], case['both'])), len(got) + 1)


class Same(Chooser):
    """Many normal numbers that are drawn at once have the same alternatives as a single one."""

    def field(self, shape):
        return np.full(shape, self.pick('field', (0., 2., -2.)))


def check(case):
    if case.get('kind'):
        return globals()[case['kind']](case)
    model = MODEL
    z0, top = model['z0'], model['z0'] + model['lz']
    two = bool(case['cut'])
    L, W = 1.7, 1.3
    el = {'t': dict(geometry='trough', structure='massive', contact_model=['flat'], facies=['f1'], length=L, width=W,
                    depth=case['depth'], agg=case['agg'], buffer=case['buffer'], trough_density=case['density'],
                    paleoflow=[0., 0.], migrate=case['mig'], bg_facies='f2'),
          's': dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f3'], lens_thickness=-1)}
    bot = z0 + (case['cut'][0] if two else 0.)
    n = 2 if two else 1
    names = ['s', 't'] if two else ['t']
    st = dict(strata=['s%d' % i for i in range(n)], strata_contact_models=[['flat', bot]] if two else [], ae=['s', 't'],
              ae_in_strata=[[x] for x in names], ae_prob=[[1.]]*n, ae_z_mean=[[1e6]]*n, avul_prob=[[0]]*n, avul=[[0, 0]]*n,
              bg_facies=['f0']*n, bg_azim=[0.]*n, bg_dip=[0.]*n)
    ch = Same(case['dev'])
    o = scene.run(scene.ini({}, model, st, el, scene.hydraulics()), chooser=ch)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data
    problems = []
    limit = bot + case['depth']*(case['buffer'] or 0.)
    planes, z = [], top
    while z > limit + 1e-9:
        planes.append(z)
        z -= case['agg']
    lam = case['density']*model['lx']*model['ly']
    if any(abs(x - lam) > 1e-9 for x in ch.lams):
        problems.append('expected number of troughs per plane %s instead of %g' % (ch.lams, lam))
    X, Y, Z = ref.mesh(model)
    m = d['ha'] >= 0
    tm = d['hat'] == 1
    tops = [float(Z[d['ha'] == h].max()) for h in np.unique(d['ha'][m & tm])]
    # troughs, if the generated objects are accessible
    pos = None
    try:
        pos = [(t.x, t.y, t.z) for a in o.reals[0].strata[0].aes for t in a.object_list]
    except AttributeError:
        pass
    default = not case['dev']
    num = min(3, max(1, int(round(lam)))) if lam else 0
    if pos is not None:
        for p in pos:
            if not any(abs(p[2] - q) < 1e-9 for q in planes):
                problems.append('a trough at the level %g (planes %s)' % (p[2], planes))
        per = [[p for p in pos if abs(p[2] - q) < 1e-9] for q in planes]
        counts = [len(p) for p in per]
        if default and counts != [num]*len(planes):
            problems.append('%s troughs on the planes instead of %d on each' % (counts, num))
        if case['mig'] is None:
            for p in pos:
                if not (model['x0'] <= p[0] <= model['x0'] + model['lx'] and model['y0'] <= p[1] <= model['y0'] + model['ly']):
                    problems.append('a trough outside of the domain: %s' % (p,))
            if not default and any(c not in (0, num, num + 1) for c in counts):
                problems.append('%s troughs on the planes' % counts)
        else:
            if len(set(counts)) > 1:
                problems.append('the number of migrating troughs changes: %s' % counts)
            elif case['mig'][1] == 0 or default:
                for a, b in zip(per, per[1:]):
                    want = sorted((p[0] + case['mig'][0], p[1] + case['mig'][2]) for p in a)
                    got = sorted((p[0], p[1]) for p in b)
                    if not np.allclose(want, got, atol=1e-9):
                        problems.append('troughs migrate from %s to %s' % (a, b))
        # the cells belong to these troughs, topmost first
        want = np.full(Z.shape, -1)
        care = np.ones(Z.shape, bool)
        for i, p in enumerate(sorted(pos, key=lambda p: -p[2])):
            ins, und = ref.Trough(model, p, L, W, case['depth']).inside(X, Y, Z)
            care &= ~und | (want >= 0)
            want[ins & (want < 0)] = i
        bad = care & ((want >= 0) != (m & tm))
        if bad.any():
            problems.append('cell %s is %s a trough' % (scene.first_bad(bad), 'in' if (m & tm)[scene.first_bad(bad)] else 'not in'))
    for t in tops:
        if not any(q - case['depth'] - 1e-6 <= t <= q + 1e-6 for q in planes):
            problems.append('an object with its topmost cell at %g' % t)
    if pos is None and default and case['mig'] is None and lam > 0 and case['depth'] > case['agg'] + 0.2 and len(planes) > 1:
        # every plane is visible in the cells (at the default draws the troughs of all planes lie above each other)
        for q in planes:
            if not any(q - case['depth'] < t <= q for t in tops):
                problems.append('no object at the plane %g' % q)
    return Result(problems, repr(pos) + repr(tops), len(planes) + 1,
                  children=[dict(case, dev=c) for c in ch.children(case['bound'])])
