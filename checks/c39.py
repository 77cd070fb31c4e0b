"""C39: names and the order of definitions do not matter."""
import copy

import numpy as np

from lib.engine import Result, digest
from lib import scene, zoo

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is (scene, deviations of the random answers from the default ones); the scene is simulated as it is and with '
        'its facies, elements and strata renamed, its list of hydrofacies or of elements reordered or extended by unused '
        'ones, and its sections and options shuffled, with the same random answers; all arrays must agree after '
        'translation of the indices; outcome = arrays')
CASE_TIMEOUT = {'quick': 200, 'thorough': 600}
ASSUMPTIONS = ['heterogeneity within facies is left out, as the order of its random fields may follow the order of the facies']
NF = 5
PERMS = [[4, 3, 2, 1, 0], [1, 2, 3, 4, 0], [2, 0, 3, 1, 4], [0, 4, 1, 2, 3]]
FNAMES = [['fffff', 'f', 'ffff', 'ff', 'fff'], ['1', '0', '10', '-1', 'None'], ['s0', 'strata', 'e', 'flat', 'F'],
          ['facies', 'Facies', 'FACIES', 'f_1', 'f-1']]
ENAMES = [['abc', 'a', 'ab'], ['AE', 'ae', 'Ae'], ['trough', 'sheet', 'channel'], ['sheet', 'trough', 'bg'], ['0', '1', '2'], ['f0', 's0', 'flat']]
SNAMES = [['abc', 'ab', 'a'], ['2', '1', '0'], ['f0', 'e', 'random'], ['z', 'Z', 'flat']]


def scenes():
    res = {}
    for name, (m, s, e) in zoo.scenes().items():
        res[name] = (dict(m, heterogeneity_level='facies'), s, e)
    # alternating facies that are given as several lists, and elements of the same type
    m, s, e = res['mixed']
    res['alike'] = (m, zoo.strata(['p', 'q', 'r'], [['p', 'q'], ['r', 'p']], [['flat', 2.4]]),
                    {'p': zoo.trough(altfacies=[['f2', 'f1'], ['f1']], bg_facies='f3'), 'q': zoo.sheet(structure='dip', facies=['f4', 'f0']),
                     'r': zoo.trough(facies=['f4', 'f0', 'f2'], structure='bulb_sets', lag_height=0.2, lag_facies='f2')})
    return res


VARIANTS = (['facies%d' % i for i in range(4)] + ['elements%d' % i for i in range(6)] + ['strata%d' % i for i in range(4)]
            + ['hydro%d' % i for i in range(4)] + ['ae0', 'ae1', 'more', 'shuffle0', 'shuffle1', 'shuffle2'])
BOUNDS = {'quick': '%d scenes x all executions with at most 1 deviation at every 12th choice point x %d variants (each execution '
                   'with a deviation x 4 of them)' % (len(scenes()), len(VARIANTS)),
          'thorough': '%d scenes x all executions with at most 1 deviation at every choice point x %d variants' % (len(scenes()), len(VARIANTS))}
PERF = ('k_h', 'sig_y', 'ycorlengths', 'k_ratio', 'n', 'sig_n', 'ncorlengths')


def deep(v, f):
    return [deep(x, f) for x in v] if isinstance(v, (list, tuple)) else f.get(v, v)


def refacies(s, e, h, f):
    s['bg_facies'] = deep(s['bg_facies'], f)
    for el in e.values():
        for k in ('facies', 'altfacies', 'lag_facies', 'bg_facies'):
            if k in el:
                el[k] = deep(el[k], f)
    h['hydrofacies'] = deep(h['hydrofacies'], f)


def shuffled(lines, how):
    if how == 0:
        return lines[::-1]
    if how == 1:
        return sorted(lines, key=lambda x: x[::-1])
    return sorted(lines, key=lambda x: (len(x), x))


def variant(sc, v):
    """Text of the ini-file, new index of each facies, new index of each element."""
    m, s, e = copy.deepcopy(sc)
    h = scene.hydraulics()
    fac, els = list(range(NF)), list(range(len(s['ae'])))
    kind, i = (v[:-1], int(v[-1])) if v[-1].isdigit() else (v, 0)
    if kind == 'facies':
        refacies(s, e, h, dict(zip(h['hydrofacies'], FNAMES[i])))
    elif kind == 'elements':
        f = dict(zip(s['ae'], ENAMES[i]))
        s['ae'], s['ae_in_strata'] = deep(s['ae'], f), deep(s['ae_in_strata'], f)
        e = {f[k]: x for k, x in e.items()}
    elif kind == 'strata':
        s['strata'] = SNAMES[i][:len(s['strata'])]
    elif kind == 'hydro':
        p = PERMS[i]
        for k in ('hydrofacies',) + PERF:
            h[k] = [h[k][j] for j in p]
        fac = [p.index(j) for j in range(NF)]
    elif kind == 'ae':
        n = len(s['ae'])
        p = [list(range(n))[::-1], list(range(1, n)) + [0]][i]
        s['ae'] = [s['ae'][j] for j in p]
        els = [p.index(j) for j in range(n)]
    elif kind == 'more':
        for k, x in zip(('hydrofacies',) + PERF, ('unused', 77., 3., [9., 9., 9.], 5., 0.9, 0.05, [9., 9., 9.])):
            h[k] = [x] + list(h[k])
        fac = [j + 1 for j in range(NF)]
        s['ae'] = ['spare'] + s['ae'] + ['spare2']
        els = [j + 1 for j in els]
        e = dict({'spare': zoo.sheet(facies=['unused'])}, **e, spare2=zoo.trough(buffer=3.))
    t = scene.ini({}, m, s, e, h)
    if kind == 'shuffle':
        secs = [x.strip().split('\n') for x in t.split('\n\n') if x.strip()]
        t = '\n'.join('\n'.join(x[:1] + shuffled(x[1:], i)) for x in shuffled(secs, (i + 1) % 3)) + '\n'
    return t, fac, els


def cases(tier):
    for n in sorted(scenes()):
        yield {'scene': n, 'dev': [], 'tier': tier}


def check(case):
    sc = scenes()[case['scene']]
    problems = []
    t = zoo.text(sc)
    ref = scene.run(t, case['dev'])
    if ref.error or len(ref.reals) != 1:
        return Result(['%s: %s' % (case['scene'], ref.error)], 'error')
    r = ref.reals[0]
    children = ref.chooser.children(1)
    vs = VARIANTS
    if case['tier'] == 'quick':
        children = [c for c in children if c[-1][0] % 12 == len(case['scene']) % 12]
        if case['dev']:
            j = case['dev'][-1][0]//12 + case['dev'][-1][1]
            vs = [VARIANTS[(j*7 + x*5) % len(VARIANTS)] for x in range(4)]
    n = 1
    for v in vs:
        t, fac, els = variant(sc, v)
        o = scene.run(t, case['dev'])
        n += 1
        where = '%s, %s: ' % (case['scene'], v)
        if o.error or len(o.reals) != 1:
            problems.append(where + str(o.error))
            continue
        q = o.reals[0]
        if set(q.data) != set(r.data):
            problems.append(where + 'different arrays')
            continue
        for k in sorted(r.data):
            a, b = r.data[k], q.data[k]
            if k == 'facies':
                a = np.array(fac)[a.astype(int)]
            elif k == 'hat':
                a = np.array(els)[a.astype(int)]
            if a.shape != b.shape:
                problems.append(where + 'shape of ' + k)
                continue
            bad = ~np.isclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True) if a.dtype.kind == 'f' else a != b
            if bad.any():
                i = scene.first_bad(bad)
                problems.append(where + '%s%r is %r instead of %r (%d cells)' % (k, i, b[i], a[i], bad.sum()))
    out = digest([[k, v] for k, v in sorted(r.data.items())])
    return Result(problems[:6], out, n, [dict(case, dev=c) for c in children], evaluations=n)
