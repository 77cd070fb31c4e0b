"""C05: old-format ini-files give the same model as their translation to the new format."""
import itertools
import os
import shutil

import numpy as np

from lib.engine import Result, digest
from lib import scene
from lib.rng import Chooser

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is an ini-file in the old format and its translation to the new format according to the documented '
        'renamings; both are executed with the same answers of the random number generator, and grids, all data arrays, '
        'names and outputs are compared; outcome = resulting arrays')
BOUNDS = {'quick': 'per geometry and structure: all combinations of lag, own background, altfacies, size trend, contact '
                   'type and prefixed/plain option names; strata contacts, hydraulics switches, anisotropy, overwriting and trends varied separately; '
                   '63-93 other values per geometry, every single option omitted (defaults, required options), 46 wrong values per geometry',
          'thorough': 'the same combined with flat/random strata contacts and with every single deviation of the random answers'}

NAMES = ['f0', 'f1', 'f2', 'f3', 'f4']


def build(c):
    """(old ini, new ini)"""
    pre = c.get('prefix', False)

    def p(prefix, name):
        return prefix + '_' + name if pre else name
    g = c['geometry']
    rc = c.get('ssm_contact', 'flat')
    model = dict(x0=1.0, y0=-1.0, z0=2.0, dx=0.5, dy=0.75, dz=0.25, lx=3.0, ly=3.0, lz=2.0)
    if c.get('no_dy'):
        model.update(dy=None, dz=None)
    old = dict(run={}, model=dict(model), strata={}, elements={}, hydraulics={}, flowtrans=dict(hin=[1, 0, 0], hout=[0, 0, 0]))
    new = dict(run={}, model=dict(model), strata={}, elements={}, hydraulics={}, flowtrans=dict(hin=[1, 0, 0], hout=[0, 0, 0]))
    old['run'].update({p('l', 'dataoutputs'): ['npz'], 'runname': 'r', 'numsim': c.get('numsim', 1)})
    new['run'].update(outputs=['npz'], runname='r', numsim=c.get('numsim', 1))
    if c.get('modelout'):
        old['run'][p('l', 'modeloutputs')] = ['mf6', 'hgs']
        new['run']['outputs'] = ['mf6', 'hgs', 'npz']
    if 'het' in c:
        old['run'][p('flag', 'het')] = c['het']
        new['model']['heterogeneity'] = c['het']
    if 'anisotropy' in c:
        old['run'][p('flag', 'anisotropy')] = c['anisotropy']
        new['model']['anisotropy'] = c['anisotropy']
    if 'flag_ow' in c:
        old['run']['flag_ow'] = c['flag_ow']
        new['run']['overwrite_old_output'] = c['flag_ow']
    if 'periodic' in c:
        old['model'][p('flag', 'periodic')] = c['periodic']
        new['model']['periodic'] = c['periodic']
    old['model']['hetlev'] = c.get('hetlev', 'facies')
    new['model']['heterogeneity_level'] = c.get('hetlev', 'facies')
    if 'gen' in c:
        old['hydraulics'][p('flag', 'gen')] = c['gen']
        new['model']['hydraulics'] = c['gen']
    # strata
    bg = [3, 7.0, 4.0]
    old['strata'].update({p('l', 'ssm'): ['low', 'up'], p('r', 'ssm_top'): [3.0, 4.0],
                          p('l', 'ae'): ['el', 'sh'], p('ll', 'ssm_ae'): [['sh'], ['el']], p('ll', 'ae_prob'): [[1.0], [1.0]],
                          p('ll', 'ae_z_mean'): [[0.5], [0.75]], p('ll', 'avul_prob'): [[0], [0.5]],
                          p('ll', 'avul'): [[0, 0], [0.1, 0.2]], 'bg': bg, 'ssm_contact': rc})
    if rc == 'random':
        old['strata'][p('ll', 'ssm_contact_model')] = [[0.05, 6, 7], [0.01, 3, 3]]
    new['strata'].update(strata=['low', 'up'], ae=['el', 'sh'], ae_in_strata=[['sh'], ['el']], ae_prob=[[1.0], [1.0]],
                         ae_z_mean=[[0.5], [0.75]], avul_prob=[[0], [0.5]], avul=[[0, 0], [0.1, 0.2]],
                         bg_facies=['f3']*2, bg_azim=[7.0]*2, bg_dip=[4.0]*2,
                         strata_contact_models=[['flat', 3.0] if rc == 'flat' else ['random', 3.0, 0.05, 6, 7]])
    # sheet element below
    so = {'geometry': 'sheet', 'structure': 'massive', 'contact': 'flat', p('l', 'facies'): [4], 'lens_thickness': -1}
    sn = dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f4'], lens_thickness=-1)
    o, n = {}, {}
    o['geometry'] = {'trough': 'trunc_ellip', 'channel': 'ext_par', 'sheet': 'sheet'}[g]
    n['geometry'] = g
    s = c['structure']
    o['structure'] = {'bulb_sets': 'bulb_l'}.get(s, s)
    n['structure'] = s
    if c.get('contact') == 'random':
        o.update({'contact': 'random', p('r', 'contact_model'): [0.01, 4, 5]})
        n['contact_model'] = ['random', 0.01, 4, 5]
    else:
        o['contact'] = 'flat'
        n['contact_model'] = ['flat']
    o[p('l', 'facies')] = [2, 1]
    n['facies'] = ['f2', 'f1']
    if c.get('alt'):
        o[p('ll', 'altfacies')] = [[1], [2, 1]]
        n['altfacies'] = [['f1'], ['f2', 'f1']]
    if c.get('size'):
        o[p('r', 'geo_ztrend')] = [0.5, 1.5]
        n['size_ztrend'] = [0.5, 1.5]
    for t in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
        if t in c.get('trends', ()):
            o[p('r', t)] = [0.5, 2.0]
            n[t] = [0.5, 2.0]
    if c.get('bg'):
        o['bg'] = [1, 33.0, 12.0]
        n.update(bg_facies='f1', bg_azim=33.0, bg_dip=12.0)
    o[p('r', 'dip')] = [5, 20]
    n['dip'] = [5, 20]
    if g != 'channel':
        o[p('r', 'azimuth')] = [-30, 60]
        n['azimuth'] = [-30, 60]
    if g == 'sheet':
        o['lens_thickness'] = 0.3
        n['lens_thickness'] = 0.3
        if s == 'dip':
            o['dipset_d'] = 0.2
            n['dipset_dist'] = 0.2
    else:
        for d in (o, n):
            d.update(agg=0.25, buffer=0.25, width=1.5, depth=0.5)
        o['dipset_d'] = 0.2
        n['dipset_dist'] = 0.2
        if c.get('lag'):
            o[p('r', 'lag')] = [0.2, 4]
            n.update(lag_height=0.2, lag_facies='f4')
    if g == 'trough':
        for d in (o, n):
            d.update(length=2.0)
        o['bulbset_d'] = 0.15
        n['bulbset_dist'] = 0.15
        o['el_z'] = 0.2
        n['trough_density'] = 0.2
        o[p('r', 'paleoflow')] = [-20, 50]
        n['paleoflow'] = [-20, 50]
        if c.get('mig'):
            o[p('r', 'migrate')] = [0.5, 0.1, 0.25, 0.2]
            n['migrate'] = [0.5, 0.1, 0.25, 0.2]
        if c.get('te'):
            o[p('ll', 'te_xyz')] = [[2.0, 0.0, 3.9], [3.0, 1.0, 3.5]]
            n['te_xyz'] = [[2.0, 0.0, 3.9], [3.0, 1.0, 3.5]]
    if g == 'channel':
        for d in (o, n):
            d.update(h=0.4, k=0.8, ds=0.5, eps_factor=0.1, channel_no=2)
        n['flow_angle'] = 0
    old['elements'] = {'el': o, 'sh': so}
    new['elements'] = {'el': n, 'sh': sn}
    hy = scene.hydraulics(NAMES)
    new['hydraulics'].update(hy)
    h2 = {p('l', 'hydro'): NAMES}
    for k in ('k_h', 'sig_y', 'k_ratio', 'n', 'sig_n'):
        h2[p('r', k)] = hy[k]
    for k in ('ycorlengths', 'ncorlengths'):
        h2[p('ll', k)] = hy[k]
    for t in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
        if t in c.get('gtrends', ()):
            h2[p('r', t)] = [0.25, 3.0]
            new['hydraulics'][t] = [0.25, 3.0]
    old['hydraulics'].update(h2)
    for name, val in c.get('vals', ()):
        if name == 'bg':
            o['bg'] = val
            n.update(bg_facies='f%d' % val[0], bg_azim=val[1], bg_dip=val[2])
        elif name == 'strata bg':
            old['strata']['bg'] = val
            new['strata'].update(bg_facies=['f%d' % val[0]]*2, bg_azim=[val[1]]*2, bg_dip=[val[2]]*2)
        elif name == 'lag':
            o[p('r', 'lag')] = val
            n.update(lag_height=val[0], lag_facies='f%d' % val[1])
        elif name == 'facies':
            o[p('l', 'facies')] = val
            n['facies'] = ['f%d' % i for i in val]
        elif name == 'altfacies':
            o[p('ll', 'altfacies')] = val
            n['altfacies'] = [['f%d' % i for i in v] for v in val]
        elif name == 'origin':
            old['model'].update(zip(('x0', 'y0', 'z0'), val))
            new['model'].update(zip(('x0', 'y0', 'z0'), val))
            old['strata'][p('r', 'ssm_top')] = [val[2] + 1., val[2] + 2.]
            new['strata']['strata_contact_models'] = [['flat', val[2] + 1.]]
        else:
            sec, prefix = WHERE.get(name, ('el', None))
            od, nd = (o, n) if sec == 'el' else (old[sec], new[sec])
            od[p(prefix, name) if prefix else name] = val
            nd[RENAMED.get(name, [name])[0]] = val
    if 'omit' in c:
        sec, name = c['omit']
        for d, names in ((old, [name] + [q + '_' + name for q in ('l', 'll', 'r', 'flag')]), (new, RENAMED.get(name, [name]))):
            if name == '*':
                d[sec] = None
                continue
            t = d['elements']['el'] if sec == 'el' else d[sec]
            for x in names:
                t.pop(x, None)
        if name == 'dataoutputs':
            new['run']['outputs'] = ['mf6', 'hgs']
        if name == 'modeloutputs':
            new['run']['outputs'] = ['npz']
        if name == 'ssm_contact':
            new['strata']['strata_contact_models'] = [['flat', 3.0]]
    for sec, name, val in c.get('set', ()):
        t = old['elements']['el'] if sec == 'el' else old[sec]
        t[name] = val
    return scene.ini(**old), scene.ini(**new)


# omitting an old option means omitting these in the new format (default: the same name)
RENAMED = {'hetlev': ['heterogeneity_level'], 'ssm': ['strata'], 'ssm_top': ['strata_contact_models'],
           'ssm_contact_model': ['strata_contact_models'], 'ssm_ae': ['ae_in_strata'], 'bg': ['bg_facies', 'bg_azim', 'bg_dip'],
           'contact': ['contact_model'], 'contact_model': ['contact_model'], 'geo_ztrend': ['size_ztrend'],
           'dipset_d': ['dipset_dist'], 'bulbset_d': ['bulbset_dist'], 'lag': ['lag_height', 'lag_facies'],
           'el_z': ['trough_density'], 'hydro': ['hydrofacies'], 'flag_ow': ['overwrite_old_output'],
           'het': [], 'anisotropy': [], 'gen': []}
WHERE = {'avul': ('strata', 'll'), 'avul_prob': ('strata', 'll'), 'ae_z_mean': ('strata', 'll'), 'dip': ('el', 'r'),
         'azimuth': ('el', 'r'), 'paleoflow': ('el', 'r'), 'migrate': ('el', 'r'), 'geo_ztrend': ('el', 'r'), 'k_ztrend': ('el', 'r'),
         'hin': ('flowtrans', None), 'hout': ('flowtrans', None), 'gradh': ('flowtrans', None), 'q_in': ('flowtrans', None),
         'numsim': ('run', None)}
VALS = [('bg', [f, a, d]) for f in (0, 1, 4) for a in (0, -33., 90.) for d in (0, 12., -5.)] + \
       [('strata bg', [f, a, d]) for f in (0, 4) for a in (0, -33.) for d in (0, 12.)] + \
       [('facies', v) for v in ([0, 1], [4, 0], [0, 4], [1, 1], [3, 2])] + [('altfacies', [[1], [1]]), ('altfacies', [[1, 2], [2]])] + \
       [('origin', v) for v in ([0., 0., 0.], [-4., 100., -30.])] + \
       [('avul', [[0, 0], [0., 0.]]), ('avul', [[0, 0], [0.05, 0.05]]), ('avul_prob', [[0], [1.0]]), ('avul_prob', [[0], [0.0]]),
        ('ae_z_mean', [[0.5], [0.4]]), ('ae_z_mean', [[0.5], [30.]]), ('dip', [0, 0]), ('dip', [30, 30]), ('geo_ztrend', [0.25, 0.25]),
        ('k_ztrend', [0., 1.]), ('hin', [0, 0, 0]), ('hout', [2.5, 1, 1]), ('gradh', 0.), ('gradh', 0.01), ('q_in', 0.), ('q_in', 0.3),
        ('numsim', 3)]
VALS_SHEET = [('lens_thickness', v) for v in (-1, 0.1, 0.7, 50.)] + [('dipset_d', v) for v in (0.05, 1., 20.)] + \
             [('azimuth', v) for v in ([0, 0], [-180, 180], [90, 90])]
VALS_EROSIVE = [('lag', [h, f]) for h in (0.001, 0.1, 0.5) for f in (0, 1, 4)] + [('agg', v) for v in (0.1, 0.4, 5.)] + \
               [('buffer', v) for v in (0., 1., 10.)] + [('width', v) for v in (0.3, 1., 5.)] + [('depth', v) for v in (0.1, 2.)] + \
               [('dipset_d', v) for v in (0.05, 1.)]
VALS_GEO = dict(
    sheet=VALS_SHEET,
    trough=VALS_EROSIVE + [('length', v) for v in (0.4, 6.)] + [('el_z', v) for v in (0., 0.02, 1.)] + [('bulbset_d', v) for v in (0.05, 1.)] +
    [('paleoflow', v) for v in ([0, 0], [-180, 180])] + [('migrate', v) for v in ([0, 0, 0, 0], [-1, 0, 2, 0.5])] +
    [('azimuth', v) for v in ([0, 0], [-180, 180])],
    channel=VALS_EROSIVE + [('h', v) for v in (0.1, 0.9)] + [('k', v) for v in (0.1, 3.)] + [('ds', v) for v in (0.2, 1.)] +
    [('eps_factor', v) for v in (0., 1.)] + [('channel_no', v) for v in (1, 5)])
# required in the old format only
REQUIRED = [('model', 'hetlev'), ('flowtrans', '*'), ('strata', 'ssm_top'), ('strata', 'ssm_contact_model'), ('el', 'contact_model')]
OMIT = dict(
    run=['runname', 'numsim', 'dataoutputs', 'modeloutputs'],
    model=['x0', 'y0', 'z0', 'dx', 'dy', 'dz', 'lx', 'ly', 'lz', 'hetlev', 'periodic'],
    strata=['ssm', 'ssm_top', 'ssm_contact', 'ssm_contact_model', 'ae', 'ssm_ae', 'ae_prob', 'ae_z_mean', 'avul_prob', 'avul', 'bg'],
    hydraulics=['hydro', 'k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'ncorlengths'],
    flowtrans=['hin', 'hout', '*'])
OMIT_EL = ['geometry', 'structure', 'contact', 'contact_model', 'facies', 'altfacies', 'geo_ztrend', 'k_ztrend', 'k_xtrend',
           'n_xtrend', 'n_ztrend', 'bg', 'dip']
OMIT_GEO = dict(
    sheet=['lens_thickness', 'dipset_d', 'azimuth'],
    trough=['agg', 'buffer', 'lag', 'length', 'width', 'depth', 'el_z', 'paleoflow', 'azimuth', 'dipset_d', 'bulbset_d',
            'te_xyz', 'migrate'],
    channel=['agg', 'buffer', 'lag', 'width', 'depth', 'h', 'k', 'ds', 'eps_factor', 'channel_no', 'dipset_d'])
WRONG = [
    ('el', 'facies', [2, 5]), ('el', 'facies', [-1, 2]), ('el', 'facies', ['f2', 'f1']), ('el', 'facies', [5]),
    ('el', 'altfacies', [[5], [2]]), ('el', 'altfacies', [[1], [-1]]), ('el', 'altfacies', [[1], [2], [1]]),
    ('el', 'bg', [5, 0, 0]), ('el', 'bg', [-1, 0, 0]), ('el', 'bg', [1, 2]), ('strata', 'bg', [5, 0, 0]), ('strata', 'bg', [-1, 0, 0]),
    ('strata', 'bg', [0, 1]), ('el', 'geometry', 'trough'), ('el', 'geometry', 'ellipse'), ('el', 'structure', 'bulb_sets'),
    ('el', 'structure', 'wavy'), ('el', 'contact', 'user'), ('el', 'contact', 'wavy'), ('strata', 'ssm_contact', 'user'),
    ('strata', 'ssm_contact', 'wavy'), ('strata', 'ssm_top', [3.0]), ('strata', 'ssm_top', [3.0, 4.0, 5.0]),
    ('strata', 'ssm_ae', [['sh']]), ('strata', 'ssm_ae', [['sh'], ['nope']]), ('strata', 'ae', ['sh']), ('strata', 'ae_prob', [[1.0], [0.5, 0.5]]),
    ('strata', 'ae_z_mean', [[1.0], [0.5, 0.5]]), ('strata', 'avul', [[0, 0], [0.1, 0.2], [0, 0]]), ('strata', 'avul_prob', [[0.1], [0.2], [0.3]]),
    ('run', 'dataoutputs', ['npz', 'csv']), ('run', 'modeloutputs', ['mf5']), ('run', 'numsim', 'two'), ('run', 'het', 'maybe'),
    ('model', 'hetlev', 'all'), ('model', 'dx', 'wide'), ('hydraulics', 'k_h', [1.0, 2.0]), ('hydraulics', 'ycorlengths', [[1, 2]]),
    ('hydraulics', 'gen', 'perhaps'), ('flowtrans', 'hin', [1, 2]), ('el', 'dip', [1, 2, 3]), ('el', 'geo_ztrend', [1, 2, 3])]
WRONG_EROSIVE = [('el', 'lag', [0.2, 5]), ('el', 'lag', [0.2, -1]), ('el', 'lag', [0.2]), ('el', 'agg', 'x')]

STRUCT = {'trough': ['massive', 'dip', 'bulb', 'bulb_sets', 'random', 'flat'], 'channel': ['massive', 'dip'],
          'sheet': ['massive', 'dip']}
KEYS = ['lag', 'bg', 'alt', 'size', 'prefix']


def cases(tier):
    for c in _cases(tier):
        if tier == 'thorough' and not c.get('refuse') and not c.get('prefix'):
            c['bound'] = 1
        yield c


def _cases(tier):
    for g in STRUCT:
        for s in STRUCT[g]:
            for flags in itertools.product([False, True], repeat=len(KEYS)):
                f = {k: True for k, v in zip(KEYS, flags) if v}
                if g == 'sheet' and f.get('lag'):
                    continue
                for contact in ('flat', 'random'):
                    for ssm in ('flat', 'random') if tier == 'thorough' else ('flat' if contact == 'flat' else 'random',):
                        yield dict(geometry=g, structure=s, contact=contact, ssm_contact=ssm, **f)
            for kw in (dict(hetlev='internal'), dict(het=False), dict(gen=False), dict(gen=True, het=True),
                       dict(periodic=True), dict(periodic=False), dict(numsim=2), dict(mig=True), dict(te=True),
                       dict(te=True, periodic=True), dict(modelout=True), dict(no_dy=True),
                       dict(hetlev='internal', trends=['k_ztrend', 'n_xtrend']),
                       dict(hetlev='internal', trends=['k_xtrend', 'n_ztrend'])):
                for pre in (False, True):
                    yield dict(geometry=g, structure=s, prefix=pre, **kw)
            full = dict(geometry=g, structure=s, bg=True, alt=True, size=True, lag=True, te=True, mig=True, periodic=True, het=True,
                        anisotropy=True, gen=True, modelout=True, numsim=2, hetlev='internal',
                        trends=['k_ztrend', 'n_xtrend', 'k_xtrend', 'n_ztrend'], ssm_contact='random', contact='random')
            for pre in (False, True):
                for name in OMIT_EL + OMIT_GEO[g]:
                    yield dict(full, omit=['el', name], prefix=pre)
                    if name == 'contact_model':
                        yield dict(full, omit=['el', name], prefix=pre, contact='flat')
            for name in ('azimuth', 'dip'):
                yield dict(geometry=g, structure=s, omit=['el', name])
        for sec, names in OMIT.items():
            for name in names:
                yield dict(full, omit=[sec, name], prefix=True)
                yield dict(geometry=g, structure='massive', omit=[sec, name], modelout=True, numsim=2)
        for v in VALS + VALS_GEO[g]:
            for pre in (False, True):
                yield dict(geometry=g, structure='dip', vals=[list(v)], prefix=pre, hetlev='internal')
        for w in WRONG + (WRONG_EROSIVE if g != 'sheet' else []):
            yield dict(geometry=g, structure='dip', set=[list(w)])
    for ow in (None, False, True):
        for arg in (None, False, True):
            kw = {} if ow is None else dict(flag_ow=ow)
            yield dict(geometry='sheet', structure='massive', twice=arg, **kw)
    for an, het, gen in itertools.product((None, False, True), repeat=3):
        for lev in ('facies', 'internal'):
            kw = {k: v for k, v in (('anisotropy', an), ('het', het), ('gen', gen)) if v is not None}
            for pre in (False, True):
                yield dict(geometry='sheet', structure='massive', hetlev=lev, prefix=pre, **kw)
    for t in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
        for pre in (False, True):
            yield dict(geometry='sheet', structure='massive', hetlev='internal', gtrends=[t], prefix=pre)
            yield dict(geometry='sheet', structure='massive', hetlev='internal', trends=[t], prefix=pre)
    # options that cannot be translated have to be refused
    for extra in ('ae_table', 'hetlev_ae', 'save_aelu', 'display'):
        yield dict(geometry='sheet', structure='massive', refuse=extra)


def run(text, dev):
    return scene.run(text, chooser=Chooser(dev))


def rejected(text):
    d = scene.fresh_dir()
    try:
        a = scene.run(text, directory=d)
        left = sorted(f for f in os.listdir(d) if f != 'm.ini')
        if a.error is None:
            return ['the ini-file is accepted']
        if a.reals or left:
            return ['the ini-file is rejected (%s) only after %s' % (a.error, left)]
        return []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def twice(old, new, flag):
    """A second run of the same model in the same directory."""
    seen = []
    for text in (old, new):
        d = scene.fresh_dir()
        try:
            seen.append([(scene.run(text, directory=d, flag_ow=flag, keep_outputs=True).error or 'done').split(':')[0]
                         for _ in range(2)] + [sorted(os.listdir(os.path.join(d, 'r')))])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    bad = [] if seen[0] == seen[1] else ['running the model twice: %r with the old, %r with the new format' % tuple(seen)]
    return bad, repr(seen[1]), 4


def check(case):
    c = dict(case)
    dev = c.pop('dev', [])
    bound = c.pop('bound', 0)
    refuse = c.pop('refuse', None)
    old, new = build(c)
    if refuse:
        old = {'ae_table': old.replace('[strata]\n', '[strata]\nae_table = table.txt\n'),
               'hetlev_ae': old.replace('hetlev = facies', 'hetlev = ae'),
               'save_aelu': old.replace('[strata]\n', '[strata]\nsave_aelu = true\n'),
               'display': old.replace('[model]\n', '[model]\ndisplay = true\n')}[refuse]
        a = run(old, [])
        ok = a.error is not None and a.error.startswith('ValueError') and not a.reals
        return Result([] if ok else ['%s: %s' % (refuse, a.error or 'accepted')], 'refused')
    if 'set' in c:
        return Result(['%r: %s' % (c['set'], p) for p in rejected(old)], 'rejected')
    if 'omit' in c and (tuple(c['omit']) in REQUIRED or (c['omit'][0] == 'el' and (
            (c['geometry'] != 'sheet' and c['omit'][1] == 'dip') or (c['geometry'] == 'trough' and c['omit'][1] == 'azimuth')))):
        if c['omit'][1] not in ('contact_model', 'ssm_contact_model') or c.get(
                {'contact_model': 'contact'}.get(c['omit'][1], 'ssm_contact')) == 'random':
            return Result(['without %r: %s' % (c['omit'], p) for p in rejected(old)], 'required')
        new = build({k: v for k, v in c.items() if k != 'omit'})[1]
    if 'omit' in c and run(new, dev).error:
        return Result(['without %r: %s' % (c['omit'], p) for p in rejected(old)], 'required')
    if 'twice' in c:
        return Result(*twice(old, new, c['twice']))
    a, b = run(old, dev), run(new, dev)
    problems = []
    if a.error or b.error:
        problems.append('old format: %s; new format: %s' % (a.error, b.error))
        return Result(problems, 'error')
    if len(a.reals) != len(b.reals):
        problems.append('%d realizations instead of %d' % (len(a.reals), len(b.reals)))
    for ra, rb in zip(a.reals, b.reals):
        if (ra.runname, sorted(ra.outputs)) != (rb.runname, sorted(rb.outputs)):
            problems.append('name/outputs %r instead of %r' % ((ra.runname, ra.outputs), (rb.runname, rb.outputs)))
        for k in 'xyz':
            if not np.array_equal(getattr(ra.grid, k), getattr(rb.grid, k)):
                problems.append('grid coordinates differ in ' + k)
        if bool(ra.grid.periodic) != bool(rb.grid.periodic):
            problems.append('periodicity differs')
        if set(ra.data) != set(rb.data):
            problems.append('arrays %s instead of %s' % (sorted(ra.data), sorted(rb.data)))
            continue
        for k in rb.data:
            if ra.data[k].shape != rb.data[k].shape or not np.allclose(ra.data[k], rb.data[k], rtol=1e-12, atol=0, equal_nan=True):
                problems.append('array %s differs between the formats' % k)
        if getattr(ra.model, 'generate_anisotropy', None) != getattr(rb.model, 'generate_anisotropy', None):
            problems.append('anisotropy setting differs')
        fa = {k: v for k, v in ra.model.flowtrans.items()}
        fb = {k: v for k, v in rb.model.flowtrans.items()}
        if fa != fb:
            problems.append('flowtrans settings differ')
    children = [dict(case, dev=d) for d in b.chooser.children(bound)]
    return Result(problems, digest([{k: v for k, v in r.data.items()} for r in b.reals]), len(a.chooser.points) + 1,
                  children)
