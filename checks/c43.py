"""C43: results depend on nothing but the ini-file and the random numbers."""
import itertools
import json
import os
import shutil
import subprocess
import sys

from lib.engine import Result, VERIF
from lib import scene, zoo
from checks import c41

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is an environment of the process (hash seed, locale, encoding, optimization, time zone, working directory, permissions of new '
        'files, variables, streams, options of numpy and of the interpreter, position among other runs); several models are run in it with all formats, '
        'and some that are invalid; files and errors are compared with those in a plain environment; outcome = environment')
BOUNDS = {'quick': '58 environments that differ in one respect from the plain one and 24 that differ in two; 8 models in 8 formats, 21 invalid '
                   'ini-files',
          'thorough': 'all environments that differ in one or two respects; 12 models in 8 formats, 21 invalid ini-files'}
ASSUMPTIONS = ['the plain environment: UTF-8, hash seed 0, no other variables, output into a file']

PLAIN = dict(env={'PYTHONHASHSEED': '0', 'LC_ALL': 'C.UTF-8'}, args=[])
CHANGES = {}
for h in range(1, 11):
    CHANGES['hash%d' % h] = dict(env={'PYTHONHASHSEED': str(h)})
for loc in ('C', 'POSIX', 'C.UTF-8', 'en_US.UTF-8', 'de_DE.UTF-8', 'xx'):
    CHANGES['lc-' + loc] = dict(env={'LC_ALL': loc})
    CHANGES['lc-%s-ascii' % loc] = dict(env={'LC_ALL': loc, 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, quiet=True)     # (not everything can be printed)
CHANGES.update({
    'utf8': dict(env={'PYTHONUTF8': '1'}), 'latin1': dict(env={'PYTHONIOENCODING': 'latin-1:replace'}),
    'O': dict(args=['-O']), 'OO': dict(args=['-OO']), 'B': dict(args=['-B']), 'dev': dict(args=['-X', 'dev']), 'u': dict(args=['-u']),
    's': dict(args=['-s']), 'isolated-warnings': dict(args=['-W', 'ignore']),
    'tz1': dict(env={'TZ': 'Asia/Kathmandu'}), 'tz2': dict(env={'TZ': 'America/St_Johns'}),
    'cwd-root': dict(cwd='/'), 'cwd-model': dict(cwd='model'), 'cwd-tmp': dict(cwd='other'),
    'umask0': dict(umask=0), 'umask77': dict(umask=0o077), 'umask27': dict(umask=0o027),
    'home': dict(env={'HOME': '/nonexistent'}), 'user': dict(env={'USER': 'nobody', 'LOGNAME': 'nobody'}), 'columns': dict(env={'COLUMNS': '10', 'LINES': '2'}),
    'threads1': dict(env={'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}), 'threads8': dict(env={'OMP_NUM_THREADS': '8', 'OPENBLAS_NUM_THREADS': '8'}),
    'pipe': dict(stdout='pipe'), 'null': dict(stdout='null'), 'quiet': dict(quiet=True), 'tmp': dict(env={'TMPDIR': '/nonexistent'}),
    'print': dict(before='print'), 'decimal': dict(before='decimal'), 'python': dict(before='python'), 'recursion': dict(before='recursion'),
    'gc': dict(before='gc'), 'locale': dict(before='locale'), 'tempdir': dict(before='tempdir'), 'mpl': dict(env={'MPLBACKEND': 'svg', 'DISPLAY': ':77'}),
    'reverse': dict(order='reverse'), 'twice': dict(order='twice')})
PAIRS = [('hash1', 'O'), ('hash2', 'lc-C'), ('hash3', 'cwd-root'), ('hash4', 'reverse'), ('hash5', 'print'), ('hash6', 'twice'),
         ('OO', 'lc-C-ascii'), ('OO', 'reverse'), ('OO', 'umask77'), ('O', 'twice'), ('O', 'print'), ('lc-C-ascii', 'cwd-tmp'),
         ('lc-C-ascii', 'umask0'), ('lc-POSIX-ascii', 'twice'), ('tz1', 'reverse'), ('tz2', 'lc-C'), ('cwd-model', 'reverse'),
         ('cwd-model', 'umask77'), ('print', 'reverse'), ('print', 'twice'), ('decimal', 'print'), ('threads8', 'reverse'), ('home', 'cwd-root'),
         ('quiet', 'OO')]
FORMATS = ['npz', 'py', 'mat', 'h5', 'vtr', 'mf', 'mf6', 'hgs']
MODELS = ['mixed-random', 'trough-random', 'channel-lag', 'strata-random', 'sheet-ztrend', 'trough-bulb_sets', 'strata-prob', 'channel-dip',
          'trough-periodic', 'ties', 'trough-lag', 'order']


def cases(tier):
    q = tier == 'quick'
    n = 7 if q else 11
    yield {'env': [], 'n': n}
    for k in CHANGES:
        yield {'env': [k], 'n': n}
    for a, b in (PAIRS if q else itertools.combinations(CHANGES, 2)):
        if not q and (a.startswith('hash') and b.startswith('hash') or a.startswith('lc-') and b.startswith('lc-')):
            continue
        yield {'env': [a, b], 'n': n}


def inis(n):
    """name -> text of the ini-files; those which are invalid start with x"""
    res = {}
    sc = zoo.scenes()
    for i, m in enumerate(MODELS[:n]):
        level = ('internal', 'facies', 'internal')[i % 3]
        res[m] = zoo.text(sc[m], run=dict(runname=m, outputs=FORMATS, numsim=2 if i == 1 else 1),
                          model=dict(heterogeneity_level=level, lx=2., ly=1.5, lz=2.), flowtrans=dict(hin=[1, 0, 0], hout=[0, 0, 0]))
    # names that are not ASCII
    t = zoo.text(sc['sheet-massive'], run=dict(runname='n', outputs=['npz', 'h5', 'py', 'mat']), model=dict(lx=1., ly=1., lz=2.))
    for old, new in (('f1', 'grès'), ('f2', '砂'), ('s0', 'Größe'), ('[e]', '[été]'), ('[[e]]', '[[été]]'), ('ae = [e]', 'ae = [été]')):
        t = t.replace(old, new)
    res['names'] = t
    good = zoo.text(sc['sheet-massive'], run=dict(runname='BAD', outputs=['npz']))
    for i, (old, new) in enumerate([('k_h = [', 'k_h = [1.0, '), ('geometry = sheet', 'geometry = cube'), ('ae_prob = [[1.0]]', 'ae_prob = [[1.0, 2.0]]'),
                                    ('facies = [f2, f4]', 'facies = [f2, zz]'), ('dx = 0.5', 'dx = abc'), ('outputs = [npz]', 'outputs = [zip]'),
                                    ('outputs = [npz]', 'outputs = [mf]'), ('bg_facies = [f0]', 'bg_facies = [zz]'), ('ae_in_strata = [[e]]', 'ae_in_strata = [[zz]]'),
                                    ('[hydraulics]', '[hydraulic]'), ('lens_thickness', 'bg_facies = zz\nlens_thickness'),
                                    ('lens_thickness', 'altfacies = [[zz], [f2]]\nlens_thickness'), ('structure = massive', 'structure = wavy'),
                                    ('strata_contact_models = []', 'strata_contact_models = [[flat, 1.0]]'), ('dip = [5.0, 25.0]', 'dip = [5.0]'),
                                    ('dip = [5.0, 25.0]', 'dip = [[5.0], 25.0]'), ('lx = 3.0', ''), ('contact_model = [flat]', ''),
                                    ('[s0]', '[s0'), ('[strata]', '[strata'),
                                    ('dipset_dist', 'other_dist')]):
        assert old in good, old
        if new == 'other_dist':
            good = good.replace('structure = massive', 'structure = dip')
        res['x%d' % i] = good.replace(old, new, 1).replace('BAD', 'x%d' % i)
    return res


def execute(env, n):
    """(errors, files) of the models in an environment"""
    c = dict(env=dict(PLAIN['env']), args=[], cwd='other')
    for k in env:
        for key, v in CHANGES[k].items():
            if key == 'env':
                c['env'].update(v)
            elif key == 'args':
                c['args'] = c['args'] + v
            else:
                c[key] = v
    top = os.path.realpath(scene.fresh_dir())
    for d in ('model', 'other', 'log'):
        os.mkdir(os.path.join(top, d))
    texts = inis(n)
    names = list(texts)
    if c.get('order') == 'reverse':
        names.reverse()
    runs = []
    for i, m in enumerate(texts):
        with open(os.path.join(top, 'model', m + '.ini'), 'w', encoding='utf-8') as f:
            f.write(texts[m])
    for m in names:
        runs.append(dict(ini=os.path.join(top, 'model', m + '.ini'), seed=1 + list(texts).index(m)))
    if c.get('order') == 'twice':
        runs += [dict(r, flag=True) for r in runs]
    req = os.path.join(top, 'log', 'request')
    ans = os.path.join(top, 'log', 'answer')
    with open(req, 'w', encoding='utf-8') as f:
        json.dump(dict(runs=runs, answer=ans, umask=c.get('umask', 0o022), before=c.get('before'), quiet=c.get('quiet')), f)
    e = {'PATH': os.environ.get('PATH', ''), 'PYTHONPATH': os.environ['VERIF_SRC'], 'MPLBACKEND': 'Agg', 'HOME': top}
    e.update(c['env'])
    cwd = os.path.join(top, c['cwd'])
    out = subprocess.DEVNULL if c.get('stdout') == 'null' else subprocess.PIPE if c.get('stdout') == 'pipe' else open(
        os.path.join(top, 'log', 'out'), 'wb')
    try:
        p = subprocess.Popen([sys.executable] + c['args'] + [os.path.join(VERIF, 'lib', 'envrun.py'), req], env=e, cwd=cwd,
                             stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT)
        p.communicate()
        try:
            with open(ans, encoding='utf-8') as f:
                errors = json.load(f)
        except OSError:
            return None, None
        m = len(names)
        res = dict(zip(names, errors))
        if c.get('order') == 'twice':
            for k, v in zip(names, errors[m:]):
                if v != res[k]:
                    res[k] = '%s, then %s' % (res[k], v)
        left = [x for x in os.listdir(os.path.join(top, 'other'))]
        files = c41.content(os.path.join(top, 'model'))
        if left:
            files['in the working directory'] = left
        return res, files
    finally:
        if hasattr(out, 'close'):
            out.close()
        shutil.rmtree(top, ignore_errors=True)


_plain = {}


def check(case):
    n = case['n']
    if n not in _plain:
        _plain[n] = execute([], n)
    base, want = _plain[n]
    if base is None:
        return Result(['the runs in a plain environment are not finished'], 'error')
    problems = []
    if not case['env']:
        for k, v in base.items():
            if (v is not None) != k.startswith('x'):
                problems.append('%s: %s in a plain environment' % (k, v or 'accepted'))
    errors, files = execute(case['env'], n)
    what = 'with the environment %s: ' % {k: CHANGES[k] for k in case['env']}
    if errors is None:
        return Result([what + 'the runs are not finished'], 'error')
    for k in base:
        if errors[k] != base[k]:
            problems.append(what + '%s: %s instead of %s' % (k, errors[k], base[k] or 'success'))
    bad = sorted(k for k in set(want) | set(files) if want.get(k) != files.get(k))
    if bad and not problems:
        problems.append(what + 'other files: %s' % bad[:5])
    return Result(problems[:4], repr(case['env']), len(base), evaluations=len(base))
