"""C17: alternating facies of beds."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a bedded object (sheet, trough with dipping beds, trough with bulb sets, channel) or one without beds, a facies list, an '
        'altfacies table and answers of the facies draws; in the result, every bed has one facies of the list, and '
        'neighbouring beds follow the table, and all listed alternatives occur in one of the executions; outcome = facies array')
BOUNDS = {'quick': '4 objects with and 4 without beds x 6 facies lists x all altfacies tables over 2-3 facies with 1-2 alternatives each; default '
                   'draws and all executions with 1 deviation for 9 tables; reachability of all listed alternatives by all periodic sequences of answers of length 2, 4 and 5',
          'thorough': 'the same with up to 2 deviations for 9 tables; reachability for all tables'}

MODEL = dict(dx=0.5, dy=0.5, dz=0.125, lx=3., ly=2., lz=2., hydraulics=False)


def tables(names):
    subs = [c for r in (1, 2) for c in itertools.combinations(names, r)]
    return [list(map(list, t)) for t in itertools.product(subs, repeat=len(names))]


def irreducible(names, table):
    """Whether every facies can follow every other one after some beds."""
    if table is None:
        return True
    step = dict(zip(names, table))
    for a in names:
        seen, new = set(), set(step[a])
        while new:
            seen |= new
            new = {c for b in new for c in step[b]} - seen
        if not set(names) <= seen:
            return False
    return True


WHOLE = {'sheet': 'massive sheet', 'dip': 'massive trough', 'bulb_sets': 'bulb trough', 'channel': 'massive channel'}


def cases(tier):
    lists = [['f1', 'f2'], ['f3', 'f0'], ['f1', 'f2', 'f3'], ['f4', 'f0', 'f2'], ['f2'], ['f4', 'f3', 'f2', 'f1', 'f0']]
    for obj in ('sheet', 'dip', 'bulb_sets', 'channel'):
        for fl in lists:
            tabs = tables(fl) if len(fl) < 4 else []
            for i, t in enumerate([None] + tabs):
                deep = i % 17 == 0 or len(fl) == 2
                yield {'obj': obj, 'facies': fl, 'alt': t, 'dev': [], 'bound': (1 if tier == 'quick' else 2) if deep else 0}
                if (deep or tier == 'thorough') and irreducible(fl, t):
                    yield {'obj': obj, 'facies': fl, 'alt': t, 'reach': True}
            if obj in WHOLE:
                # objects without beds: one facies of the list
                yield {'obj': WHOLE[obj], 'facies': fl, 'alt': None, 'dev': [], 'bound': 2}
                yield {'obj': WHOLE[obj], 'facies': fl, 'alt': None, 'reach': True}
            if len(fl) == 5:
                t = [[fl[(i + 1) % 5]] for i in range(5)]
                yield {'obj': obj, 'facies': fl, 'alt': t, 'dev': [], 'bound': 2}
                t = [[fl[(i + 2) % 5], fl[i]] for i in range(5)]
                yield {'obj': obj, 'facies': fl, 'alt': t, 'dev': [], 'bound': 1 if tier == 'quick' else 2}


def execute(case, ch):
    obj = {w: o for o, w in WHOLE.items()}.get(case['obj'], case['obj'])
    X, Y, Z = ref.mesh(MODEL)
    common = dict(contact_model=['flat'], facies=case['facies'], altfacies=case['alt'], azimuth=[0., 0.])
    if obj == 'sheet':
        el = dict(common, geometry='sheet', structure='dip', dip=[0., 0.], dipset_dist=0.3, lens_thickness=-1)
        u = Z/0.3
    elif obj in ('dip', 'bulb_sets'):
        el = dict(common, geometry='trough', structure=obj, dip=[0., 0.] if obj == 'dip' else [90., 90.], dipset_dist=0.3,
                  bulbset_dist=0.3, length=5., width=4., depth=2.2, agg=10., trough_density=0., paleoflow=[0., 0.],
                  te_xyz=[[1.6, 1.05, 1.97]])
        tr = ref.Trough(MODEL, [1.6, 1.05, 1.97], 5., 4., 2.2)
        u = Z/0.3 if obj == 'dip' else tr.dist(X, Y, Z)*2.2/0.3
    else:
        el = dict(common, geometry='channel', structure='dip', dip=[0., 0.], dipset_dist=0.3, width=9., depth=2.3, h=0.3,
                  k=0.5, ds=0.5, eps_factor=0., channel_no=1, agg=0.03, buffer=0.84, flow_angle=0.)
        u = Z/0.3
    if case['obj'] != obj:
        el['structure'] = case['obj'].split()[0]
        u = np.zeros(Z.shape)
    return scene.run(scene.ini({}, MODEL, scene.strata1('e', bg_facies=['f0']), {'e': el}, scene.hydraulics()), chooser=ch), u


class Pattern(Chooser):
    """The answers to the draws of one kind are the periodic continuation of a sequence."""

    def __init__(self, block, **kw):
        super().__init__(fractions=(0.05, 0.17, 0.28, 0.41, 0.55, 0.7, 0.83, 0.95), **kw)
        self.block, self.count = block, {}

    def pick(self, kind, alternatives):
        n = len(alternatives)
        if n == 1 or kind in self.skip:
            return alternatives[0]
        j = self.count[kind] = self.count.get(kind, -1) + 1
        return alternatives[self.block[j % len(self.block)] % n]

    def choice(self, a, size=None, replace=True, p=None):
        if size is None:
            return super().choice(a, p=p)
        return np.array([super(Pattern, self).choice(a, p=p) for _ in range(int(np.prod(size)))]).reshape(size)

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return self.choice(np.arange(low, high + bool(endpoint)), size)

    integers = randint


BLOCKS = ([list(b) for b in itertools.product(range(5), repeat=2)] + [list(b) for b in itertools.product(range(2), repeat=5)] +
          [list(b) for b in itertools.product(range(3), repeat=4)] + [list(b) for b in itertools.product(range(8), repeat=2)])


def reach(case):
    """Every facies, and every alternative that the table lists, occurs in one of the executions."""
    names = ['f0', 'f1', 'f2', 'f3', 'f4']
    num = [names.index(f) for f in case['facies']]
    pairs, facies, n = set(), set(), 0
    alt = case['alt'] or [case['facies']]*len(num)
    want = {(a, names.index(b)) for a, row in zip(num, alt) for b in row if names.index(b) != a}
    if case['alt'] is None and case['obj'] not in WHOLE.values():
        want |= {(a, a) for a in num}
    for b in BLOCKS:
        o, u = execute(case, Pattern(b, skip=('normal', 'poisson')))
        n += 1
        if o.error:
            return Result(['failed: ' + o.error], 'error')
        d = o.reals[0].data
        for h in np.unique(d['ha'][d['ha'] >= 0]):
            m = d['ha'] == h
            order = np.argsort(u[m], kind='stable')
            line = d['facies'][m][order].tolist()
            uu = u[m][order]
            start = 0
            for i in range(1, len(line) + 1):
                if i == len(line) or line[i] != line[start]:
                    if uu[i - 1] - uu[start] > 1 + 1e-6:
                        pairs.add((line[start], line[start]))      # neighbouring beds with the same facies
                    start = i
            facies |= set(line)
            pairs |= {(a, b) for a, b in zip(line, line[1:]) if a != b}
            if case['obj'] in WHOLE.values():
                pairs |= want
        if set(num) <= facies and (want <= pairs or want <= {(b, a) for a, b in pairs}):
            break
    problems = []
    if not set(num) <= facies:
        problems.append('facies %s never occur' % sorted(set(num) - facies))
    elif not (want <= pairs or want <= {(b, a) for a, b in pairs}):
        problems.append('only the sequences %s of facies occur, but the table lists %s' % (sorted(pairs), sorted(want)))
    return Result(problems, repr((sorted(pairs), sorted(facies))), n, evaluations=n)


def check(case):
    if case.get('reach'):
        return reach(case)
    obj = case['obj']
    X, Y, Z = ref.mesh(MODEL)
    ch = Chooser(case['dev'], skip=('uniform', 'uniforms', 'normal', 'poisson'))
    o, u = execute(case, ch)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    d = o.reals[0].data
    names = ['f0', 'f1', 'f2', 'f3', 'f4']
    num = [names.index(f) for f in case['facies']]
    problems = []
    has = [h for h in np.unique(d['ha']) if h >= 0]
    for h in has:
        m = d['ha'] == h
        fac = d['facies'][m]
        if not set(fac.tolist()) <= set(num):
            problems.append('facies %s are not in the list %s' % (np.unique(fac), num))
            continue
        if obj in WHOLE.values():
            if len(set(fac.tolist())) > 1:
                problems.append('several facies in an object without beds')
            continue
        if obj == 'channel' and len(np.unique(Z[m])) < 2:
            continue
        follow = None
        if case['alt'] is not None:
            follow = {a: {names.index(f) for f in al} for a, al in zip(num, case['alt'])}
        if not ref.layering(u[m], fac, follow):
            line = fac[np.argsort(u[m], kind='stable')].tolist()
            problems.append('the beds do not follow the table: %s' % [a for a, b in zip(line, [None] + line) if a != b])
    if not has:
        problems.append('no object')
    return Result(problems, d['facies'], len(has), children=[dict(case, dev=c) for c in ch.children(case['bound'])])
