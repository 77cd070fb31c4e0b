"""C33: succession of architectural elements within the strata."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref
from lib.rng import Chooser

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is a model of 1-3 strata with up to 3 types of elements each (probabilities, mean thicknesses, avulsion, '
        'contact types); all executions that deviate at up to k random draws from the default answers are explored; in every '
        'one, order, type, thickness and contacts of the elements are compared with the drawn values, the set and the '
        'frequency of the types at the top with the given probabilities, and topmost elements occur with and without avulsion; outcome = element and type arrays')
BOUNDS = {'quick': '80 configurations, up to 2 deviations (1 for most with 3 types)',
          'thorough': '80 configurations, up to 3 deviations (2 for most with 3 types)'}
CASE_TIMEOUT = {'thorough': 3000}
FRAC = (0.28125, 0.0009765625, 0.9990234375, 0.5)

PROBS = {1: [[1.]], 2: [[0.5, 0.5], [0.25, 0.75], [1., 0.], [0., 1.], [0.6, 0.4]],
         3: [[0.2, 0.3, 0.5], [0.5, 0., 0.5], [0., 0., 1.], [0.25, 0.5, 0.25], [1., 1., 2.], [0.1, 0.1, 0.05]]}
MEANS = {1: [[1.3], [9.]], 2: [[1.3, 0.9], [0.8, 2.]], 3: [[0.9, 1.3, 1.7]]}


def cases(tier):
    bound = 2 if tier == 'quick' else 3
    for n in (1, 2, 3):
        for p in PROBS[n]:
            for zm in MEANS[n]:
                for av in ([[0], [0, 0]], [[1], [0.1, 0.3]], [[0.5], [0.4, 0.4] if n == 1 else [0.2, 0.2]]):
                    yield {'strata': [{'p': p, 'zm': zm, 'av': av}], 'cut': None,
                           'bound': bound - (1 if n == 3 and av[0] != [1] else 0)}
    # two strata with different settings
    a = {'p': [0.25, 0.75], 'zm': [0.9, 1.3], 'av': [[0], [0, 0]]}
    b = {'p': [1., 0.], 'zm': [1.1, 0.7], 'av': [[1], [0.1, 0.1]]}
    c = {'p': [0.5, 0., 0.5], 'zm': [1.5, 0.7, 0.9], 'av': [[0], [0, 0]]}
    for s in itertools.permutations([a, b, c], 2):
        yield {'strata': list(s), 'cut': 1.62, 'bound': 1 if tier == 'quick' else 2}
    # contacts between elements follow the type of the lower element
    for p in ([0.5, 0.5], [0.25, 0.75]):
        for av in ([[0], [0, 0]], [[1], [0.1, 0.3]]):
            yield {'strata': [{'p': p, 'zm': [1.1, 1.2], 'av': av}], 'cut': None, 'bound': bound, 'random': 1}
            yield {'strata': [{'p': p, 'zm': [1.1, 1.2], 'av': av}], 'cut': None, 'bound': bound, 'random': 0}


    # an undulating contact between two strata: the elements below are counted from its mean
    for zm in ([0.6], [0.5]):
        for av in ([[0], [0, 0]], [[1], [0.1, 0.2]]):
            yield {'strata': [{'p': [1.], 'zm': zm, 'av': av}, {'p': [1.], 'zm': [0.8], 'av': [[0], [0, 0]]}],
                   'cut': 1.62, 'bound': 1 if tier == 'quick' else 2, 'relief': 0.06}
            # a stratum that vanishes, because its lower contact lies above its upper one
            for up in (0.5, 1.4):
                e = {'p': [1.], 'zm': [0.7], 'av': [[0], [0, 0]]}
                yield {'strata': [{'p': [1.], 'zm': zm, 'av': av}, e, e], 'cut': 1.62, 'bound': 1 if tier == 'quick' else 2,
                       'relief': 0, 'cross': up}


DZ = 0.05


def build(case):
    rnd = case.get('random')
    nx = 4 if rnd is not None or case.get('relief') else 1
    model = dict(dx=1., dy=1., dz=DZ, lx=float(nx), ly=1., lz=4., z0=0.5, hydraulics=False)
    names, st = [], dict(strata=[], strata_contact_models=[], ae=[], ae_in_strata=[], ae_prob=[], ae_z_mean=[],
                         avul_prob=[], avul=[], bg_facies=[], bg_azim=[], bg_dip=[])
    el = {}
    n_st = len(case['strata'])
    for i, s in enumerate(case['strata']):
        st['strata'].append('s%d' % i)
        tn = ['t%d%d' % (i, j) for j in range(len(s['p']))]
        for j, t in enumerate(tn):
            el[t] = dict(geometry='sheet', structure='massive', facies=['f%d' % j], dip=[0, 0], azimuth=[0, 0],
                         lens_thickness=-1, contact_model=['random', 0.03, 0.7, 1.] if rnd == j else ['flat'])
        names += tn
        st['ae_in_strata'].append(tn)
        st['ae_prob'].append(s['p'])
        st['ae_z_mean'].append(s['zm'])
        st['avul_prob'].append(s['av'][0])
        st['avul'].append(s['av'][1])
        st['bg_facies'].append('f4')
        st['bg_azim'].append(0.)
        st['bg_dip'].append(0.)
    st['ae'] = names
    if 'cross' in case:
        st['strata_contact_models'] = [['flat', 0.5 + case['cut'] + case['cross']], ['flat', 0.5 + case['cut']]]
    elif n_st == 2:
        st['strata_contact_models'] = [['random', 0.5 + case['cut'], case['relief'], 0.7, 1.] if 'relief' in case
                                       else ['flat', 0.5 + case['cut']]]
    return model, names, scene.ini({}, model, st, el, scene.hydraulics())


def check(case):
    model, names, text = build(case)
    problems, outcomes, n, trans = [], set(), 0, 0
    thicks = {}           # thicknesses of the two topmost elements
    first = {}            # number of executions per type of the topmost element, first choice explored
    frontier = [[]]
    while frontier:
        dev = frontier.pop(0)
        ch = Chooser(dev, fractions=FRAC, fields='generic', weighted=40)
        o = scene.run(text, chooser=ch)
        n += 1
        if o.error:
            problems.append('failed: %s (deviations %s)' % (o.error, dev))
            break
        d = o.reals[0].data
        p, aes, tops = examine(case, model, names, d) if 'relief' not in case else below(case, model, d)
        for k, v in enumerate(tops[1:3]):
            thicks.setdefault(k, []).append(v)
        trans += aes
        outcomes.add(str(d['ae'].ravel().tolist()) + str(d['hat'].ravel().tolist()))
        if p:
            problems.append('%s (deviations %s)' % (p, dev))
            if len(problems) > 3:
                break
        if ch.kinds[:1] == ['choice'] and (not dev or (len(dev) == 1 and dev[0][0] == 0)):
            first[tops[0]] = first.get(tops[0], 0) + 1
        # alternatives of choices occur several times: one of each kind is enough below the first level
        if dev and dev[0][0] == 0 and repeated(ch, *dev[0]):
            continue
        for c in ch.children(case['bound']):
            if (c[-1][0] == 0 and len(c) == 1) or not repeated(ch, *c[-1]):
                frontier.append(c)
    s = case['strata'][-1]
    if not problems and len(case['strata']) == 1 and 0 < s['av'][0][0] < 1 and s['av'][1][0] == s['av'][1][1] and \
            len(s['p']) == 1 and s['zm'][0] < 2:
        for k in (0, 1):
            for what, v in (('no', s['zm'][0]), ('only', s['zm'][0] - s['av'][1][0])):
                if not any(abs(t - v) <= DZ*1.05 for t in thicks.get(k, [])):
                    problems.append('element %d from the top has %s avulsion in all executions' % (k, {
                        'no': 'an', 'only': 'no'}[what]))
    if first and not problems:
        s = case['strata'][-1]
        tot = sum(first.values())
        for j, pr in enumerate(s['p']):
            f = first.get(names.index('t%d%d' % (len(case['strata']) - 1, j)), 0)/tot
            if abs(f - pr/sum(s['p'])) > 0.03:
                problems.append('type %d is at the top in a fraction %g of the cases instead of %g' % (j, f, pr/sum(s['p'])))
    return Result(problems, outcomes, trans, evaluations=n)


def repeated(ch, pos, alt):
    a = ch.alternatives.get(pos)
    return a is not None and a[alt] in a[:alt]


def examine(case, model, names, d):
    """(problem, number of elements, types of the topmost elements)"""
    ae, hat, st = d['ae'], d['hat'], d['strata']
    nx, ny, nz = ae.shape
    tops = [int(hat[0, 0, -1])]
    z0 = model['z0']
    n_st = len(case['strata'])
    zc = model['z0'] + DZ*(np.arange(nz) + 0.5)
    order = ae[0, 0, ::-1]
    ids = []
    for a in order:
        if not ids or ids[-1] != a:
            ids.append(int(a))
    if ids != sorted(set(ids)) or ids[0] != 0:
        return 'elements from the top: %s' % ids, len(ids), tops
    for si in range(n_st):
        s = case['strata'][n_st - 1 - si]
        tower = [a for a in ids if (st[0, 0][ae[0, 0] == a] == si).any()]
        top = z0 + (4. if si == 0 else case['cut'])
        bot = z0 + (case['cut'] if (si == 0 and n_st == 2) else 0.)
        m = st[0, 0] == si
        if (zc[m] > top + 1e-9).any() or (zc[m] < bot - 1e-9).any() or not m.any():
            return 'extent of stratum %d' % si, len(ids), tops
        prev = top
        for k, a in enumerate(tower):
            sel = ae[0, 0] == a
            if len(np.unique(st[ae == a])) != 1 or len(np.unique(hat[ae == a])) != 1:
                return 'element %d has several strata or types' % a, len(ids), tops
            h = int(hat[0, 0][sel][0])
            nm = names[h]
            if not nm.startswith('t%d' % (n_st - 1 - si)):
                return 'element of type %s in stratum %d' % (nm, n_st - 1 - si), len(ids), tops
            j = int(nm[2:])
            if s['p'][j] == 0:
                return 'element of a type with probability 0', len(ids), tops
            if not (d['facies'][ae == a] == j).all():
                return 'facies of element %d' % a, len(ids), tops
            # contact below
            low = np.array([[zc[ae[ix, iy] == a].min() if (ae[ix, iy] == a).any() else np.nan
                             for iy in range(ny)] for ix in range(nx)])
            last = k == len(tower) - 1
            if case.get('random') is not None and np.nanmin(low) < bot + 0.5:
                break                       # the contact may be cut by the bottom of the stratum
            if np.isnan(low).any():
                return 'element %d does not reach all columns' % a, len(ids), tops
            z = float(np.mean(low)) - DZ/2
            if not last:
                nxt = int(names[int(hat[0, 0][ae[0, 0] == tower[k+1]][0])][2:])
                flat = case.get('random') != nxt
                if flat and np.ptp(low) > 1e-9:
                    return 'contact below element %d is not flat, although the lower element has flat contacts' % a, len(ids), tops
                if not flat and np.ptp(low) < 1e-9:
                    return 'contact below element %d is flat, although the lower element has random contacts' % a, len(ids), tops
            thick = prev - z
            mean = s['zm'][j]
            ap, (a0, a1) = s['av'][0][0], s['av'][1]
            ranges = []
            if ap < 1:
                ranges.append((0., 0.))
            if ap > 0:
                ranges.append((a0, a1))
            tol = 1.05*DZ
            ok = any(mean*f - hi - tol <= thick <= mean*f - lo + tol for f in (1., 1.2, 0.8) for lo, hi in ranges)
            if last:
                ok = thick <= 1.2*mean + tol and abs(z - bot) <= tol/2
            if not ok:
                return 'element %d (mean thickness %g) is %g thick' % (a, mean, thick), len(ids), tops
            if si == 0 and not last and len(tops) == k + 1:
                tops.append(thick)
            prev = z
    return None, len(ids), tops


def below(case, model, d):
    """The topmost element of the lower stratum ends its mean thickness below the mean of the contact."""
    ae, st = d['ae'], d['strata']
    zc = model['z0'] + DZ*(np.arange(ae.shape[2]) + 0.5)
    tops = [int(d['hat'][0, 0, -1])]
    s = case['strata'][0]
    n = len(np.unique(ae))
    low = len(case['strata']) - 1
    if (st == low).any(axis=2).all() and (st == 0).any(axis=2).all() and np.all((st == 0) | (st == low)):
        contact = np.array([[zc[st[ix, iy] == 0].min() - DZ/2 for iy in range(ae.shape[1])] for ix in range(ae.shape[0])])
        if case['relief'] and np.ptp(contact) < 2*DZ:
            return 'contact of the strata is flat', n, tops
        a = ae[st == low].min()
        b = ae[st == low]
        if not (b > a).any():
            return 'one element in the lower stratum', n, tops
        nxt = b[b > a].min()
        z = max(zc[ae[ix, iy] == nxt].max() for ix in range(ae.shape[0]) for iy in range(ae.shape[1])
                if (ae[ix, iy] == nxt).any()) + DZ/2
        thick = contact.mean() - z
        lo, hi = s['av'][1] if s['av'][0][0] else (0., 0.)
        if not any(s['zm'][0]*f - hi - 1.05*DZ <= thick <= s['zm'][0]*f - lo + 1.05*DZ for f in (1., 1.2, 0.8)):
            return 'the topmost element of the lower stratum (mean thickness %g) is %g thick' % (s['zm'][0], thick), n, tops
    else:
        return 'the strata are %s' % np.unique(st).tolist(), n, tops
    return None, n, tops
