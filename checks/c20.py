"""C20: levels, starting points and centrelines of channels."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref, chan
from lib.rng import Chooser, gauss_pattern

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a channel element (aggradation, buffer, depth, trend, number, migration, flow angle, meander parameters) with '
        'deviations of the random draws from the default answers; levels, numbers, starting points and centrelines of the '
        'generated channels are compared with the reference; outcome = levels and centrelines')
BOUNDS = {'quick': 'levels: 6 aggradations x 4 buffers x 3 depths x 3 trends x 2 pairs of contacts x 3 numbers, 144 undulating elements; straight: 16 flow angles x 3 '
                   'numbers x 3 migrations x 3 grids, all executions with up to 1 deviation, 12 flow angles x 4 step lengths; meanders: 12 flow angles x 6 patterns x 4 '
                   'amplitudes; autoregressive model: 8 x 6 parameters, all impulses',
          'thorough': 'the same with up to 2 deviations, 36 flow angles and 20 patterns'}
GRIDS = [dict(dx=0.5, dy=0.5, dz=0.5, lx=4., ly=3., lz=2., x0=7., y0=-2., z0=1.),
         dict(dx=0.5, dy=1., dz=0.5, lx=1., ly=6., lz=2., x0=0., y0=0., z0=0.),
         dict(dx=1., dy=0.5, dz=0.5, lx=6., ly=1., lz=2., x0=-50., y0=30., z0=-3.)]


def cases(tier):
    q = tier == 'quick'
    for agg, buf, dep, tr, cut, no in itertools.product((0.23, 0.43, 0.57, 0.9, 1.7, 5.), (None, 0.3, 0.9, 2.5), (0.45, 1.1, 3.),
                                                        (None, [0.5, 1.5], [2., 1.]), ([], [0.77]), (1, 2, 5)):
        yield {'kind': 'levels', 'agg': agg, 'buffer': buf, 'depth': dep, 'trend': tr, 'cut': cut, 'no': no}
    for fa, no, mig, g in itertools.product(range(0, 360, 45 if q else 15), (1, 2, 4), (None, 0.3, 2.), range(3)):
        yield {'kind': 'straight', 'fa': fa, 'no': no, 'mig': mig, 'g': g, 'dev': [], 'bound': 1 if q else 2}
    for fa, no, g, ds in itertools.product(range(0, 360, 30 if q else 15), (1, 2), range(3), (0.1, 0.12, 0.17, 0.6)):
        yield {'kind': 'straight', 'fa': fa, 'no': no, 'mig': None, 'g': g, 'dev': [], 'bound': 0, 'ds': ds}
    for agg, buf, dep, noise, seed in itertools.product((0.23, 0.43, 0.9), (None, 0.3, 0.9), (0.45, 1.1), ('g', '-g', 'h', '-h'), (0, 1)):
        yield {'kind': 'undulating', 'agg': agg, 'buffer': buf, 'depth': dep, 'noise': noise, 'both': seed}
    for fa in (20, 70, 110, 160, 200, 250, 290, 340):
        yield {'kind': 'straight', 'fa': fa, 'no': 2, 'mig': 0.5, 'g': 0, 'dev': [], 'bound': 1 if q else 2}
    for fa, salt, eps in itertools.product(range(0, 360, 30 if q else 10), range(6 if q else 20), (0.01, 0.1, 0.3, 1.)):
        yield {'kind': 'meander', 'fa': fa, 'salt': salt, 'eps': eps, 'g': salt % 3}
    for fa, salt in itertools.product((90, -90), range(6)):
        yield {'kind': 'heading', 'fa': fa, 'salt': salt}
    for h, k in itertools.product((0.1, 0.3, 0.5, 0.7, 0.9, 0.4, 0.2, 1.), (0.1, 0.3, 0.7, 1.3, 2.2, 3.1)):
        yield {'kind': 'ar', 'h': h, 'k': k}


def check(case):
    return globals()[case['kind']](case)


def execute(model, el, chooser, cut=(), contacts=None):
    n = 2 if cut else 1
    names = ['s', 'c'] if cut else ['c']
    if contacts:
        n, names = 3, ['s', 'c', 's']
    elif cut:
        contacts = [['flat', model['z0'] + cut[0]]]
    els = {'c': el, 's': dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f3'], lens_thickness=-1)}
    st = dict(strata=['s%d' % i for i in range(n)], strata_contact_models=contacts or [],
              ae=['s', 'c'], ae_in_strata=[[x] for x in names], ae_prob=[[1.]]*n, ae_z_mean=[[1e6]]*n, avul_prob=[[0]]*n,
              avul=[[0, 0]]*n, bg_facies=['f0']*n, bg_azim=[0.]*n, bg_dip=[0.]*n)
    return scene.run(scene.ini({}, dict(model, hydraulics=False), st, els, scene.hydraulics()), chooser=chooser)


def grouped(objs):
    """lists of channels per level, from the top"""
    res = {}
    for c in objs:
        res.setdefault(round(c['z'], 7), []).append(c)
    return [(z, res[z]) for z in sorted(res, reverse=True)]


def levels(case):
    model = dict(GRIDS[0], dz=0.1)
    tr = case['trend']
    el = chan.element(agg=case['agg'], buffer=case['buffer'], depth=case['depth'], size_ztrend=tr, channel_no=case['no'], width=1.)
    o = execute(model, el, Chooser(), case['cut'])
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    top, bot = model['z0'] + model['lz'], model['z0'] + (case['cut'][0] if case['cut'] else 0.)
    mid = (top + bot)/2
    f = lambda z: 1. if tr is None else tr[0] + (z - model['z0'])/model['lz']*(tr[1] - tr[0])
    lev = chan.levels(top, bot, case['agg'], case['buffer'] or 0., case['depth']*f(mid))
    problems = []
    objs = chan.objects(o.reals[0])
    if objs is not None:
        got = grouped(objs)
        if len(got) != len(lev) or any(abs(a[0] - b) > 1e-6 for a, b in zip(got, lev)):
            problems.append('levels %s instead of %s' % ([a[0] for a in got], lev))
        elif any(len(c) != case['no'] for _, c in got):
            problems.append('%s channels per level instead of %d' % ([len(c) for _, c in got], case['no']))
    # what is visible in the cells: objects start right below the levels
    d = o.reals[0].data
    X, Y, Z = ref.mesh(dict(model))
    m = (d['ha'] >= 0) & (d['hat'] == 1)
    for h in np.unique(d['ha'][m]):
        t = float(Z[d['ha'] == h].max())
        if not any(z - case['depth']*f(z) - 1e-6 <= t <= z + 1e-6 for z in lev):
            problems.append('an object with its topmost cell at %g' % t)
    if m.any() and not lev:
        problems.append('objects, although there is no room for a channel')
    return Result(problems, repr(lev) + repr(int(m.sum())), len(lev) + 1)


def undulating(case):
    """Between undulating contacts, the mean levels of the contacts count."""
    from checks.c09 import Fixed
    model = dict(GRIDS[0], dz=0.1, hydraulics=False)
    el = chan.element(agg=case['agg'], buffer=case['buffer'], depth=case['depth'], width=1.)
    bot, top = model['z0'] + 0.41, model['z0'] + 1.57
    con = [['random', bot, 0.012, 1.5, 1.5] if case['both'] else ['flat', bot], ['random', top, 0.012, 1.5, 1.]]
    o = execute(model, el, Fixed(case['noise']), contacts=con)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    objs = chan.objects(o.reals[0])
    if objs is None:
        return Result([], 'not accessible', trivial=True)
    problems = []
    d = o.reals[0].data
    if len({int((d['strata'][i, j] == 0).sum()) for i, j in itertools.product(range(8), range(6))}) < 2:
        problems.append('the contact does not undulate')
    lev = chan.levels(top, bot, case['agg'], case['buffer'] or 0., case['depth'])
    got = [z for z, _ in grouped(objs)]
    if len(got) != len(lev) or any(abs(a - b) > 1e-6 for a, b in zip(got, lev)):
        problems.append('levels %s instead of %s' % (got, lev))
    return Result(problems, repr((lev, case['noise'], case['both'])), len(lev) + 1)


def straight(case):
    model = GRIDS[case['g']]
    w, ds = 1.1, case.get('ds', 0.25)
    el = chan.element(channel_no=case['no'], mig=case['mig'], flow_angle=float(case['fa']), width=w, agg=0.6, ds=ds)
    ch = Chooser(case['dev'], skip=('normal',))      # without influence: the channels are straight
    o = execute(model, el, ch)
    kids = [dict(case, dev=c) for c in ch.children(case['bound'])]
    if o.error:
        return Result(['failed: ' + o.error], 'error', children=kids)
    objs = chan.objects(o.reals[0])
    if objs is None:
        return Result([], 'not accessible', trivial=True)
    problems = []
    fa = np.radians(case['fa'])
    c, s = np.cos(fa), np.sin(fa)
    cx, cy = model['x0'] + model['lx']/2, model['y0'] + model['ly']/2
    dw = chan.domain_width(model, case['fa'])
    dl = abs(model['lx']*c) + abs(model['ly']*s)
    X, Y, Z = ref.mesh(model)
    prev, offs, out = None, [], False
    lv = grouped(objs)
    n_lev = len(chan.levels(model['z0'] + model['lz'], model['z0'], 0.6, 0., 1.))
    for z, cs in lv:
        offs = []
        for q in cs:
            off = -(q['x'] - cx)*s + (q['y'] - cy)*c
            along = (q['x'] - cx)*c + (q['y'] - cy)*s
            if np.ptp(off) > 1e-6:
                problems.append('the channel is not straight or not in flow direction')
                break
            offs.append(float(off[0]))
            if len(along) > 1 and np.max(np.abs(np.diff(along) - ds)) > 1e-6:
                problems.append('distance of the points of the centreline')
            if not np.allclose(q['vx']*s - q['vy']*c, 0, atol=1e-9) or np.any(q['vx']*c + q['vy']*s <= 0):
                problems.append('direction of the velocity')
            first = -(dl + w)/2
            xs = cx + first*c - off[0]*s
            if model['x0'] - w <= xs <= model['x0'] + model['lx'] + w and abs(along[0] - first) > 1e-6:
                problems.append('the channel starts at %g instead of %g' % (along[0], first))
            # the channel crosses the domain
            a = (X - cx)*c + (Y - cy)*s
            near = np.abs(-(X - cx)*s + (Y - cy)*c - off[0]) < w
            if near.any() and (a[near].min() < along[0] - 2*ds or a[near].max() > along[-1] + 2*ds):
                problems.append('the channel does not cross the domain: %g to %g' % (along[0], along[-1]))
        if problems:
            break
        if prev is None:
            if any(abs(x) > dw/2 + 1e-9 for x in offs):
                problems.append('starting points %s outside of the domain' % offs)
            if not case['dev'] and case['no'] > 1 and max(offs) - min(offs) < 0.1*dw:
                problems.append('channels of a level start at the same point')
            if not case['dev'] and case['no'] == 1 and abs(offs[0] - (0.28125 - 0.5)*dw) > 1e-9:
                problems.append('starting point %g for the draw %g of the width %g' % (offs[0], 0.28125, dw))
        elif len(prev) == len(offs) == case['no']:
            lim = case['mig'] or 0.
            if any(abs(a - b) > lim + 1e-9 for a, b in zip(sorted(prev), sorted(offs))):
                problems.append('starting points move from %s to %s' % (prev, offs))
            if lim and not case['dev'] and any(abs(a - b) < 1e-9 for a, b in zip(sorted(prev), sorted(offs))):
                problems.append('starting points do not move')
        prev = offs
    # channels are only left out if they have moved out of the domain
    if not case['mig'] and [len(cs) for _, cs in lv] != [case['no']]*n_lev:
        problems.append('%s channels on the levels' % [len(cs) for _, cs in lv])
    return Result(problems, repr([(z, [c['y'][:3].tolist() for c in cs]) for z, cs in lv]), len(objs) + 1, children=kids)


def meander(case):
    model = GRIDS[case['g']]
    w, ds = 1.1, 0.3
    fa = np.radians(case['fa'])
    el = chan.element(channel_no=2, flow_angle=float(case['fa']), width=w, agg=0.6, ds=ds, eps_factor=case['eps'], h=0.3, k=0.6)
    o = execute(model, el, chan.Wavy(case['salt']))
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    objs = chan.objects(o.reals[0])
    if objs is None:
        return Result([], 'not accessible', trivial=True)
    problems = []
    for q in objs:
        dx, dy = np.diff(q['x']), np.diff(q['y'])
        step = np.hypot(dx, dy)
        gap = np.abs(step - ds) > 1e-6
        # the centreline is only interrupted where it leaves the surroundings of the domain
        edge = (np.minimum(np.abs(q['x'] - (model['x0'] - w)), np.abs(q['x'] - (model['x0'] + model['lx'] + w))) <= ds + 1e-6)
        if np.any(gap & ~(edge[:-1] & edge[1:])):
            problems.append('distance of the points of the centreline: %s' % step[gap][:3])
        v = np.hypot(q['vx'], q['vy'])
        k = ~gap
        if np.max(np.abs(q['vx'][:-1]/v[:-1] - dx/step)[k], initial=0) > 1e-6 or np.max(np.abs(q['vy'][:-1]/v[:-1] - dy/step)[k], initial=0) > 1e-6:
            problems.append('the velocity is not tangent to the centreline')
        if np.any(q['x'] < model['x0'] - w - 1e-6) or np.any(q['x'] > model['x0'] + model['lx'] + w + 1e-6):
            problems.append('points far outside of the domain')
    curved = any(np.ptp(np.unwrap(np.arctan2(q['vy'], q['vx']))) > 1e-4 for q in objs if len(q['x']) > 5)
    if objs and max(len(q['x']) for q in objs) > 5 and not curved:
        problems.append('channels are straight')
    return Result(problems, repr([q['y'][:4].tolist() for q in objs]), len(objs) + 1, trivial=not objs)


def heading(case):
    """All points of the centreline are kept: the mean direction is the flow angle."""
    model = dict(GRIDS[0], lx=30., dx=5., ly=1., dy=0.5)
    el = chan.element(flow_angle=float(case['fa']), width=1., agg=0.6, ds=0.25, eps_factor=0.1, h=0.3, k=0.6)
    o = execute(model, el, chan.Wavy(case['salt'], fractions=(0.5,)))
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    objs = chan.objects(o.reals[0])
    if objs is None:
        return Result([], 'not accessible', trivial=True)
    problems = []
    for q in objs:
        th = np.unwrap(np.arctan2(q['vy'], q['vx']))
        if abs(np.degrees(np.mean(th)) - case['fa']) > 1e-6:
            problems.append('mean direction %g instead of %g' % (np.degrees(np.mean(th)), case['fa']))
    return Result(problems, repr([q['x'][:4].tolist() for q in objs]), len(objs) + 1)


class Impulse(Chooser):
    def __init__(self, j):
        super().__init__()
        self.j, self.count = j, 0

    def normal(self, loc=0., scale=1., size=None):
        if size is not None:
            return super().normal(loc, scale, size)
        self.count += 1
        return loc + scale*(1. if self.count - 1 == self.j else 0.)


def ar(case):
    """Curve directions follow the autoregressive model."""
    try:
        from hyvr.geo.channel_utils import ferguson_theta
    except ImportError:
        return Result([], 'not accessible', trivial=True)
    h, k = case['h'], case['k']
    n, eps = 12, 0.37
    s = 0.3*np.arange(n)
    b1, b2 = 2*np.exp(-k*h)*np.cos(k*np.arcsin(h)), -np.exp(-2*k*h)
    problems = []
    base = None
    try:
        for j in range(-1, n - 1):
            with Impulse(j) as ch:
                th = np.array(ferguson_theta(s, eps, k, h), dtype=float)
            if base is None:
                base, draws = th, ch.count
                continue
            if j >= draws:
                break
            r = th - base
            want = np.zeros(n)
            i0 = np.flatnonzero(np.abs(r) > 1e-12)
            if len(i0) == 0:
                problems.append('draw %d has no influence' % j)
                break
            want[i0[0]] = eps
            for i in range(i0[0] + 1, n):
                want[i] = b1*want[i-1] + (b2*want[i-2] if i > 1 else 0.)
            if not np.allclose(r, want, atol=1e-9):
                problems.append('response of the direction %s instead of %s' % (np.round(r, 5).tolist(), np.round(want, 5).tolist()))
                break
    except TypeError:
        return Result([], 'not accessible', trivial=True)
    return Result(problems, repr(np.round(base, 6).tolist()), n, evaluations=n)
