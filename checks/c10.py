"""C10: every realization assigns every cell completely and consistently."""
import numpy as np

from lib.engine import Result
from lib import scene, zoo
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a model of the collection and a set of deviations of the random draws from the default answers; all '
        'executions with up to k deviations are explored; the arrays of every realization are checked cell by cell: all '
        'assigned, object/element/type/stratum consistent, facies and angles legal for the owner; outcome = arrays')
BOUNDS = {'quick': '%d models, all executions with up to 1 deviation' % len(zoo.scenes()),
          'thorough': '%d models, all executions with up to 2 deviations' % len(zoo.scenes())}


def cases(tier):
    for name in zoo.scenes():
        yield {'scene': name, 'dev': [], 'bound': 1 if tier == 'quick' else 2}


def check(case):
    sc = zoo.scenes()[case['scene']]
    ch = Chooser(case['dev'])
    o = scene.run(zoo.text(sc), chooser=ch)
    kids = [dict(case, dev=c) for c in ch.children(case['bound'])]
    if o.error:
        return Result(['failed: ' + o.error], 'error', children=kids)
    if len(o.reals) != 1:
        return Result(['%d realizations' % len(o.reals)], 'error')
    d = o.reals[0].data
    problems = invariants(sc, d)
    if 'went wrong' in o.stdout:
        problems.append('cells without stratum are reported')
    return Result(problems, [d['facies'], d['ha'], d['hat'], d['ae'], d['strata']], len(ch.points), children=kids)


def invariants(sc, d):
    model, st, el = sc
    shape = tuple(int(round(model['l' + a]/model['d' + a])) for a in 'xyz')
    problems = []
    for k in ('facies', 'strata', 'ae', 'ha', 'hat', 'azim', 'dip'):
        if k not in d:
            return ['no array ' + k]
        if d[k].shape != shape:
            return ['shape of %s: %s instead of %s' % (k, d[k].shape, shape)]
    fac, ha, hat, ae, s = d['facies'], d['ha'], d['hat'], d['ae'], d['strata']
    names = st['ae']
    n = len(st['strata'])

    def require(ok, what):
        if not np.all(ok):
            i = scene.first_bad(~ok)
            problems.append('cell %s: %s (facies %s, stratum %s, element %s, object %s, type %s)' % (i, what, fac[i], s[i], ae[i], ha[i], hat[i]))
    require((ae >= 0) & (hat >= 0) & (hat < len(names)) & (s >= 0) & (s < n) & (fac >= 0) & (fac < 5) & (ha >= -1), 'not assigned')
    require(np.isfinite(d['azim']) & np.isfinite(d['dip']), 'no angles')
    if problems:
        return problems
    for a in np.unique(ae):
        m = ae == a
        for nm, arr in (('types', hat), ('strata', s)):
            if len(np.unique(arr[m])) != 1:
                problems.append('element %d has several %s' % (a, nm))
    for h in np.unique(ha[ha >= 0]):
        if len(np.unique(ae[ha == h])) != 1:
            problems.append('object %d is in several elements' % h)
    for i in range(n):
        allowed = [names.index(t) for t, p in zip(st['ae_in_strata'][i], st['ae_prob'][i]) if p > 0]
        m = s == n - 1 - i
        require(~m | np.isin(hat, allowed), 'type of element not possible in the stratum')
    for j, nm in enumerate(names):
        e = el[nm]
        own = (hat == j) & (ha >= 0)
        legal = [int(f[1:]) for f in e['facies']] + ([int(e['lag_facies'][1:])] if 'lag_facies' in e else [])
        require(~own | np.isin(fac, legal), 'facies not possible in the object')
        if e['geometry'] == 'sheet':
            require(~(hat == j) | (ha >= 0), 'background in an element of sheets')
        for i in range(n):
            m = (hat == j) & (ha == -1) & (s == n - 1 - i)
            for key, name in ((fac, 'bg_facies'), (d['azim'], 'bg_azim'), (d['dip'], 'bg_dip')):
                v = e.get(name, st[name][i])
                require(~m | (key == (int(v[1:]) if name == 'bg_facies' else v)), name)
    random = any(c[0] == 'random' for c in st['strata_contact_models']) or any(e['contact_model'][0] == 'random' for e in el.values())
    if not random:
        require(np.concatenate([ae[:, :, 1:] <= ae[:, :, :-1], np.ones(shape[:2] + (1,), bool)], axis=2), 'an older element above a younger one')
        require(np.concatenate([s[:, :, 1:] <= s[:, :, :-1], np.ones(shape[:2] + (1,), bool)], axis=2), 'a lower stratum above a higher one')
    for k in ('k_iso', 'poros', 'anirat', 'ktensors'):
        if k not in d:
            problems.append('no array ' + k)
        elif d[k].shape[:3] != shape or not np.all(np.isfinite(d[k])):
            problems.append('%s is not finite everywhere' % k)
    if not problems and not np.all(d['k_iso'] > 0):
        problems.append('conductivities that are not positive')
    return problems
