"""C04: ini-file -> configuration."""
import itertools
import math
import os

import numpy as np

from lib.engine import Result
from lib.rng import Chooser
from lib import scene
from lib.fullini import base, OPTIONAL, FACIES

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is a complete ini-file (all sections, all three geometries, a distinct value for every option) with '
        'one number replaced, up to two options removed, replaced by invalid entries, or with the facies list permuted; the configuration read by '
        'the real code is compared with a reference table; outcome = configuration or kind of rejection')
BOUNDS = {'quick': 'every number replaced by each of up to 21 values, 15 sizes of the lists, all single removals, all pairs of removals within a section, all single invalid entries, '
                   '120 facies orders, all contact-model texts, all structure/dependency and output/flowtrans combinations',
          'thorough': 'additionally all pairs of removals across sections'}

ERR = ('MissingOptionError', 'ValueError', 'ShapeError', 'MissingSectionError')


def text(cfg, directory):
    secs = {k: v for k, v in cfg.items() if v is not None}
    el = {k: v for k, v in secs.items() if k not in ('run', 'model', 'strata', 'hydraulics', 'flowtrans')}
    t = scene.ini(secs.get('run'), secs.get('model'), secs.get('strata'), el, secs.get('hydraulics'), secs.get('flowtrans'))
    return t.replace('@DIR@', directory)


def read(cfg, name='stem.ini'):
    import contextlib
    import io
    from hyvr.input.parameters import parameters
    d = scene.fresh_dir()
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        f.write(text(cfg, d))
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            run, model, strata, hydraulics, flowtrans, elements = parameters(path)
        res = dict(run=run, model=model, strata=strata, hydraulics=hydraulics, flowtrans=flowtrans, **elements)
        return res, None, d
    except Exception as e:     # noqa
        return None, type(e).__name__, d
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def expected(cfg, d):
    """Reference: (configuration, set of acceptable errors)"""
    errors = set()
    want = {}
    b = base()
    for sec in ('run', 'model', 'strata', 'hydraulics'):
        if cfg.get(sec) is None:
            return None, {'MissingSectionError'}
    facies = cfg['hydraulics'].get('hydrofacies')
    for sec in cfg:
        if cfg[sec] is None:
            continue
        want[sec] = {}
        for o in b[sec]:
            v = cfg[sec].get(o)
            if v is None:
                if o in OPTIONAL[sec]:
                    v = OPTIONAL[sec][o]
                    if v == 'STEM':
                        v = 'stem'
                    elif v == 'INIDIR':
                        v = d
                    elif v == 'DX':
                        v = cfg['model'].get('dx')
                elif o in ('dipset_dist', 'bulbset_dist'):
                    s = cfg[sec].get('structure')
                    if s == 'random' or (o, s) in (('dipset_dist', 'dip'), ('bulbset_dist', 'bulb_sets')):
                        errors.add('MissingOptionError')
                elif o == 'lag_facies':
                    if cfg[sec].get('lag_height'):
                        errors.add('ValueError')
                    continue
                else:
                    errors.add('MissingOptionError')
            elif o == 'modeldir':
                v = v.replace('@DIR@', d)
            if facies is not None and v not in (None, 'NONE'):
                try:
                    if o == 'bg_facies' and sec == 'strata' or o == 'facies':
                        v = [facies.index(x) for x in v]
                    elif o == 'bg_facies':
                        v = facies.index(v)
                    elif o == 'lag_facies':
                        v = facies.index(v) if cfg[sec].get('lag_height') else 'ANY'
                    elif o == 'altfacies':
                        v = [[facies.index(x) for x in r] for r in v]
                except ValueError:
                    errors.add('ValueError')
            want[sec][o] = v
    if cfg.get('flowtrans') is None and set(cfg['run'].get('outputs') or []) & {'mf', 'mf6', 'hgs'}:
        errors.add('MissingSectionError')
    return want, errors


def equal(got, want, o):
    if want == 'ANY':
        return True
    if want == 'NONE':
        return got in (-1, None)
    if want == 'NAN':
        return isinstance(got, float) and math.isnan(got)
    if o == 'modeldir':
        return os.path.realpath(str(got)) == os.path.realpath(want)
    if want is None:
        return got is None
    if isinstance(want, bool):
        return got is want
    return got == want


def compare(cfg):
    got, err, d = read(cfg)
    want, errors = expected(cfg, d)
    problems = []
    if errors:
        if err is None:
            problems.append('accepted, but expected one of %s' % sorted(errors))
        elif err not in errors:
            problems.append('raised %s, expected %s' % (err, sorted(errors)))
        return problems, 'rejected ' + '/'.join(sorted(errors))
    if err is not None:
        return ['rejected with %s although it is valid' % err], 'x'
    for sec in want:
        for o, v in want[sec].items():
            if sec == 'strata' and o == 'strata_contact_models' or o == 'contact_model':
                continue
            g = got[sec].get(o, 'absent')
            if not equal(g, v, o):
                problems.append('[%s] %s = %r, expected %r' % (sec, o, g, v))
    cm = want['strata'].get('strata_contact_models')
    problems += contact(got['strata'].get('contact_models'), cm, True)
    for e in ('tro', 'cha', 'she'):
        if e in want:
            problems += contact([got[e]['contact_model']], [want[e]['contact_model']], False)
    rd = os.path.join(os.path.realpath(want['run']['modeldir']), want['run']['runname'])
    if os.path.realpath(str(got['run'].get('rundir'))) != rd:
        problems.append('run directory %s, expected %s' % (got['run'].get('rundir'), rd))
    return problems, repr(sorted((s, sorted(map(repr, v.items()))) for s, v in want.items() if s != 'run'))


def contact(got, want, deep):
    res = []
    if len(got) != len(want):
        return ['%d contact models instead of %d' % (len(got), len(want))]
    for g, w in zip(got, want):
        exp = {'mode': w[0]}
        rest = list(w[1:])
        if deep:
            exp['z'] = float(rest.pop(0))
        if rest:
            exp.update(var=float(rest[0]), corlx=float(rest[1]), corly=float(rest[2]))
        gg = {k: v for k, v in g.items() if k in exp or k != 'z' or deep}
        if gg != exp:
            res.append('contact model %r read as %r' % (w, g))
    return res


CONTACT = [['flat'], ['random', 0.5, 2., 3.], ['random'], ['random', 0.5], ['random', 0.5, 2.], ['flat', 1.],
           ['random', 0.5, 2., 3., 4.], ['dem'], ['wavy', 0.5, 2., 3.], ['random', 'x', 2., 3.], ['flat', 1., 2., 3.]]
CONTACT_OK = [0, 1]
DEEP = [['flat', 2.], ['random', 2., 0.5, 2., 3.], ['flat'], ['random', 2., .5, 2.], ['flat', 2., 3.], ['flat', 'x'],
        ['random'], ['random', 2., .5, 2., 3., 4.], ['wavy', 2.]]
DEEP_OK = [0, 1]

BADVALS = [('run', 'numsim', 'many'), ('run', 'outputs', ['csv']), ('run', 'outputs', ['npz', 'xyz']),
           ('run', 'overwrite_old_output', 'perhaps'),
           ('model', 'dx', 'wide'), ('model', 'lx', '[1]'), ('model', 'periodic', 'sometimes'),
           ('model', 'heterogeneity_level', 'ae'), ('model', 'heterogeneity_level', 'none'), ('model', 'hydraulics', 'x'),
           ('tro', 'geometry', 'blob'), ('tro', 'structure', 'spiral'), ('cha', 'structure', 'bulb'),
           ('she', 'structure', 'bulb_sets'), ('she', 'structure', 'random'), ('cha', 'structure', 'random'),
           ('tro', 'dip', [1., 2., 3.]), ('tro', 'paleoflow', [1.]), ('tro', 'te_xyz', [[1., 2.]]),
           ('tro', 'te_xyz', [[1., 2., 3.], [4., 5.]]),
           ('tro', 'migrate', [1., 2.]), ('cha', 'channel_no', 1.5), ('cha', 'channel_no', 'two'),
           ('she', 'lens_thickness', 'thick'), ('she', 'altfacies', [['gravel']]),
           ('strata', 'ae_prob', [[1.0], [0.5, 0.5], [0.5, 0.5]]), ('strata', 'ae_z_mean', [[1.0], [1.0]]),
           ('strata', 'avul', [[1.0], [1.0], [2.0]]), ('strata', 'bg_facies', ['silt', 'peat']),
           ('strata', 'bg_azim', [1., 2.]), ('strata', 'strata_contact_models', [['flat', 1.]]),
           ('strata', 'strata_contact_models', [['flat', 1.], ['flat', 2.], ['flat', 3.]]),
           ('strata', 'ae_in_strata', [['tro'], ['cha']]),
           ('hydraulics', 'k_h', [1., 2.]), ('hydraulics', 'n', ['a', 'b', 'c', 'd', 'e']),
           ('hydraulics', 'ycorlengths', [[1., 2.]]*5), ('hydraulics', 'k_ztrend', [1.]),
           ('flowtrans', 'hin', [1., 2.]), ('flowtrans', 'gradh', 'steep')]
BADFACIES = [('strata', 'bg_facies', ['silt', 'nofacies', 'gravel']), ('tro', 'facies', ['sand', 'nofacies']),
             ('cha', 'facies', ['nofacies']), ('she', 'facies', ['clay', 'nofacies', 'peat']),
             ('tro', 'bg_facies', 'nofacies'), ('she', 'bg_facies', 'nofacies'), ('cha', 'bg_facies', 'nofacies'),
             ('tro', 'lag_facies', 'nofacies'), ('cha', 'lag_facies', 'nofacies'),
             ('tro', 'altfacies', [['clay'], ['nofacies']]), ('she', 'altfacies', [['gravel'], ['nofacies', 'clay'], ['clay']])]
EXPANSIONS = [('strata', 'bg_facies', 'sand', ['sand']*3), ('strata', 'bg_azim', 5., [5.]*3),
              ('strata', 'avul_prob', 0.25, [[0.25]]*3), ('strata', 'avul', [0.1, 0.2], [[0.1, 0.2]]*3),
              ('strata', 'ae_z_mean', 0.75, [[.75], [.75, .75], [.75]*3]),
              ('hydraulics', 'k_h', 0.125, [0.125]*5), ('hydraulics', 'ycorlengths', [1., 2., 3.], [[1., 2., 3.]]*5),
              ('hydraulics', 'ncorlengths', 2., [[2.]*3]*5), ('tro', 'dip', 4., [4., 4.]), ('cha', 'k_ztrend', 2., [2., 2.])]


# values for every number in the ini-file
ANY = ('x0', 'y0', 'z0', 'te_xyz', 'gradh', 'q_in', 'kw_gradh', 'kw_q_in', 'hin', 'hout', 'flow_angle', 'paleoflow', 'azimuth',
       'bg_azim', 'bg_dip', 'dip')
NONNEG = ('buffer', 'lag_height', 'avul', 'eps_factor', 'mig', 'trough_density', 'sig_y', 'sig_n')
SHARE = ('avul_prob', 'ae_prob', 'n')
POSITIVE = [1e-12, 0.001, 0.04, 0.3, 1., 2., 7.5, 60., 1000., 123456.789]


def values(o, old):
    if isinstance(old, bool):
        return [True, False]
    if isinstance(old, int):
        return [1, 2, 3, 10, 99, 100, 1001]
    if o in ANY:
        return [-x for x in POSITIVE] + [0.] + POSITIVE
    if o in SHARE:
        return [0., 0.001, 0.5, 1.]
    return ([0.] if o in NONNEG else []) + POSITIVE


def leaves(v, path=()):
    if isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    elif not isinstance(v, str):
        yield path, v


def cases(tier):
    b = base()
    for s in b:
        for o in b[s]:
            if o == 'ae_prob':          # the sum is 1
                continue
            for path, old in leaves(b[s][o]):
                for v in values(o, old):
                    yield {'k': 'value', 's': s, 'o': o, 'path': list(path), 'v': v}
    # sizes of the lists
    for n, m in itertools.product((1, 2, 3, 4, 7), (1, 2, 3)):
        yield {'k': 'sizes', 'strata': n, 'facies': m}
    opts = [(s, o) for s in b for o in b[s]]
    yield {'k': 'remove', 'rm': []}
    for so in opts:
        yield {'k': 'remove', 'rm': [list(so)]}
    for a, c in itertools.combinations(opts, 2):
        if a[0] == c[0] or tier == 'thorough':
            yield {'k': 'remove', 'rm': [list(a), list(c)]}
    for s in b:
        yield {'k': 'section', 'section': s}
    for i in range(len(BADVALS)):
        yield {'k': 'bad', 'i': i}
    for names in itertools.product(('flat', 'Flat', 'FLAT', 'random', 'Random'), repeat=2):
        yield {'k': 'letters', 'names': list(names)}
    for s in ('tro', 'cha', 'she'):
        yield {'k': 'nosection', 'section': s}
    for i in range(len(BADFACIES)):
        yield {'k': 'badfacies', 'i': i}
    for i in range(len(EXPANSIONS)):
        yield {'k': 'expand', 'i': i}
    for p in itertools.permutations(range(5)):
        yield {'k': 'perm', 'p': list(p)}
    for e in ('tro', 'cha', 'she'):
        for i in range(len(CONTACT)):
            yield {'k': 'contact', 'e': e, 'i': i}
    for i, j in itertools.product(range(len(DEEP)), repeat=2):
        yield {'k': 'deep', 'ij': [i, j]}
    for e, structs in (('tro', ['massive', 'dip', 'bulb', 'bulb_sets', 'random', 'flat']), ('cha', ['massive', 'dip']),
                       ('she', ['massive', 'dip'])):
        for s in structs:
            for dd in (True, False):
                for bd in (True, False) if e == 'tro' else (True,):
                    yield {'k': 'struct', 'e': e, 's': s, 'dd': dd, 'bd': bd}
    fmts = ['npz', 'mat', 'py', 'h5', 'vtr', 'mf', 'mf6', 'hgs']
    for r in range(0, 3):
        for c in itertools.combinations(fmts, r):
            for ft in (True, False):
                yield {'k': 'outputs', 'o': list(c), 'ft': ft}


def check(case):
    cfg = base()
    k = case['k']
    desc = repr(case)
    if k == 'value':
        if case['path']:
            v = cfg[case['s']][case['o']]
            for i in case['path'][:-1]:
                v = v[i]
            v[case['path'][-1]] = case['v']
        else:
            cfg[case['s']][case['o']] = case['v']
    elif k == 'sizes':
        n, m = case['strata'], case['facies']
        st = cfg['strata']
        pick = lambda v: [v[i % 3] for i in range(n)]
        for o in ('ae_in_strata', 'ae_prob', 'ae_z_mean', 'avul_prob', 'avul', 'bg_azim', 'bg_dip'):
            st[o] = pick(st[o])
        st['strata'] = ['s%d' % i for i in range(n)]
        st['strata_contact_models'] = [['flat', 4. + 0.125*i] for i in range(n - 1)]
        names = FACIES[:m]
        st['bg_facies'] = [names[i % m] for i in range(n)]
        for o in cfg['hydraulics']:
            if not o.endswith('trend'):
                cfg['hydraulics'][o] = cfg['hydraulics'][o][:m]
        for e in ('tro', 'cha', 'she'):
            cfg[e].update(facies=names[::-1], altfacies=[names[:i + 1] for i in range(m)], bg_facies=names[-1])
            if e != 'she':
                cfg[e]['lag_facies'] = names[m//2]
    elif k == 'remove':
        for s, o in case['rm']:
            cfg[s][o] = None
    elif k == 'section':
        s = case['section']
        if s in ('tro', 'cha', 'she'):
            del cfg[s]
        else:
            cfg[s] = None
    elif k in ('bad', 'badfacies'):
        s, o, v = (BADVALS if k == 'bad' else BADFACIES)[case['i']]
        cfg[s][o] = v
        got, err, d = read(cfg)
        probs = [] if err in ('ValueError', 'ShapeError') else [
            '[%s] %s = %r was %s' % (s, o, v, 'accepted' if err is None else 'answered with ' + err)]
        return Result(probs, 'rejected')
    elif k == 'letters':
        res = []
        for names in (case['names'], [x.lower() for x in case['names']]):
            cm = [[n, 1.1, .01, 2., 3.] if n.lower() == 'random' else [n, 1.1] for n in names[:1]]
            n = names[1]
            st = scene.strata1('a', strata=['s0', 's1'], ae_in_strata=[['a']]*2, ae_prob=[[1.]]*2, ae_z_mean=[[.4]]*2,
                               avul_prob=[[0]]*2, avul=[[0, 0]]*2, bg_facies=['f0']*2, bg_azim=[0.]*2, bg_dip=[0.]*2,
                               strata_contact_models=cm)
            el = dict(geometry='sheet', structure='massive', facies=['f1', 'f2'], lens_thickness=-1,
                      contact_model=[n, .01, 2., 3.] if n.lower() == 'random' else [n])
            o = scene.run(scene.ini({}, dict(dx=.5, dz=.1, lx=2., ly=2., lz=2., hydraulics=False), st, {'a': el},
                                    scene.hydraulics()), chooser=Chooser([]))
            res.append(o)
        a, b = res
        bad = a.error or b.error or not all(np.array_equal(a.reals[0].data[x], b.reals[0].data[x])
                                            for x in b.reals[0].data)
        refused = a.error and not a.reals and b.error is None and a.error.startswith('ValueError')
        return Result([] if not bad or refused else ['contact types %r: %s' % (case['names'], a.error or b.error or 'other model')],
                      desc, 2)
    elif k == 'nosection':
        del cfg[case['section']]
        cfg['run'].update(modeldir=None, outputs=[], numsim=1)
        o = scene.run(text(cfg, ''), chooser=Chooser([]))
        ok = o.error is not None and o.error.startswith('MissingSectionError')
        return Result([] if ok else ['section %s is missing: %s' % (case['section'], o.error or 'accepted')], 'rejected')
    elif k == 'expand':
        s, o, v, full = EXPANSIONS[case['i']]
        cfg[s][o] = v
        got, err, d = read(cfg)
        cfg[s][o] = full
        got2, err2, d2 = read(cfg)
        probs = []
        if err or err2:
            probs = ['[%s] %s = %r rejected: %s %s' % (s, o, v, err, err2)]
        elif got[s][o] != got2[s][o]:
            probs = ['[%s] %s = %r read as %r instead of %r' % (s, o, v, got[s][o], got2[s][o])]
        return Result(probs, desc, 2)
    elif k == 'perm':
        cfg['hydraulics']['hydrofacies'] = [FACIES[i] for i in case['p']]
    elif k == 'contact':
        cfg[case['e']]['contact_model'] = CONTACT[case['i']]
        if case['i'] not in CONTACT_OK:
            got, err, d = read(cfg)
            return Result([] if err in ('ValueError', 'ShapeError') else
                          ['contact model %r: %s' % (CONTACT[case['i']], err or 'accepted')], 'rejected')
    elif k == 'deep':
        cfg['strata']['strata_contact_models'] = [DEEP[i] for i in case['ij']]
        if not all(i in DEEP_OK for i in case['ij']):
            got, err, d = read(cfg)
            return Result([] if err in ('ValueError', 'ShapeError') else
                          ['contact models %r: %s' % ([DEEP[i] for i in case['ij']], err or 'accepted')], 'rejected')
    elif k == 'struct':
        cfg[case['e']]['structure'] = case['s']
        if not case['dd']:
            cfg[case['e']]['dipset_dist'] = None
        if not case['bd']:
            cfg[case['e']]['bulbset_dist'] = None
    elif k == 'outputs':
        cfg['run']['outputs'] = case['o']
        if not case['ft']:
            cfg['flowtrans'] = None
    if k == 'section' and case['section'] == 'flowtrans':
        pass
    problems, outcome = compare(cfg)
    return Result([desc + ': ' + p for p in problems[:4]], outcome)
