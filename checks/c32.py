"""C32: the command line program does what its arguments say and reports success or failure."""
import contextlib
import io
import itertools
import os
import runpy
import shutil
import subprocess
import sys
import warnings

import numpy as np

from lib.engine import Result
from lib import scene
from lib.fsutil import snap, diff

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is a history of program starts (ini-file, position of --overwrite, ini option overwrite_old_output, absolute or '
        'relative path) in one model directory, plus the removal of the results by the user; after every start the exit code, '
        'the messages and the whole tree are compared with a reference model; outcome = final tree and exit codes')
BOUNDS = {'quick': 'all histories of 2 starts over 24 operations in process, 46 histories with real processes, the built-in test case (4 files, 1 and 2 realizations)',
          'thorough': 'all histories of 3 starts over 24 operations in process, all histories of length 2 over 10 operations '
                      'with real processes, the built-in test case'}

# [kind, ini option, where --overwrite is given, relative path]
GOOD = [['good', ow, fl, rel] for ow in (None, False, True) for fl in (None, 'before', 'after')
        for rel in ((False, True) if ow is not True else (False,))]
BAD = [['bad', k, fl] for k in ('missing', 'facies', 'section', 'nofile') for fl in (None, 'before')]
OPS = GOOD + BAD + [['rm']]
REAL = [['good', None, None, True], ['good', None, 'before', False], ['good', False, 'after', False],
        ['good', True, None, True], ['good', False, None, False], ['bad', 'facies', 'before'],
        ['bad', 'nofile', None], ['bad', 'missing', 'before'], ['bad', 'section', None], ['rm']]


def ini_text(ow, bad=None, facies='f1', **kw):
    run = dict(outputs=['npz'], overwrite_old_output=ow, **kw)
    model = dict(dx=1., lx=2., ly=2., lz=2., hydraulics=False)
    el = {'sh': dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=[facies], lens_thickness=-1)}
    hy = scene.hydraulics()
    if bad == 'missing':
        model['lx'] = None
    elif bad == 'facies':
        el['sh']['facies'] = ['nofacies']
    elif bad == 'section':
        hy = None
    return scene.ini(run, model, scene.strata1('sh'), el, hy)


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for pre in itertools.product(range(len(OPS)), repeat=n - 1):
        yield {'real': False, 'prefix': [OPS[i] for i in pre], 'last': OPS}
    for op in REAL:
        for last in REAL if tier == 'thorough' else REAL[:7:2]:
            yield {'real': True, 'prefix': [op], 'last': [last]}
    if tier == 'quick':
        yield {'real': True, 'prefix': [], 'last': REAL[4:]}
    for bad in (None, 'missing', 'facies', 'section'):
        for numsim in (None, 2):
            for args in ([], ['--overwrite']):
                yield {'testcase': bad, 'numsim': numsim, 'args': args}


def start(args, cwd, real):
    """exit code, stderr"""
    if real:
        p = subprocess.run([sys.executable, '-m', 'hyvr'] + args, cwd=cwd, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=90)
        return p.returncode, p.stderr.decode(errors='replace')
    out, err = io.StringIO(), io.StringIO()
    old_argv, old_cwd = sys.argv, os.getcwd()
    code = 0
    sys.argv = ['hyvr'] + args
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                runpy.run_module('hyvr', run_name='__main__', alter_sys=True)
            except SystemExit as e:
                if isinstance(e.code, str):
                    code = 1
                    print(e.code, file=err)
                else:
                    code = 0 if e.code is None else int(e.code)
            except Exception as e:       # an uncaught exception: traceback and exit code 1
                code = 1
                print('Traceback', repr(e), file=err)
    finally:
        sys.argv = old_argv
        os.chdir(old_cwd)
    return code, err.getvalue()


def history(ops, real):
    top = os.path.realpath(scene.fresh_dir())
    mdir = os.path.join(top, 'model')
    os.makedirs(os.path.join(mdir, 'other'))
    for p in ('model/neighbour.txt', 'model/other/x.npz'):
        with open(os.path.join(top, p), 'w') as f:
            f.write('precious ' + p)
    rd = os.path.join(mdir, 'm')
    problems, codes = [], []
    try:
        for step, op in enumerate(ops):
            if op[0] == 'rm':
                shutil.rmtree(rd, ignore_errors=True)
                continue
            where = 'step %d %r of %r: ' % (step, op, ops)
            kind = op[1] if op[0] == 'bad' else None
            ow = op[1] if op[0] == 'good' else True
            fl = op[2]
            ini = os.path.join(mdir, 'm.ini')
            if kind == 'nofile':
                if os.path.exists(ini):
                    os.remove(ini)
            else:
                with open(ini, 'w') as f:
                    f.write(ini_text(ow, kind, 'f%d' % (step + 1)))
            before = snap(top)
            rel = op[0] == 'good' and op[3]
            name = 'm.ini' if rel else ini
            args = (['--overwrite'] if fl == 'before' else []) + [name] + (['--overwrite'] if fl == 'after' else [])
            exists = os.path.isdir(rd)
            code, err = start(args, mdir if rel else top, real)
            codes.append(code)
            after = snap(top)
            if kind or (exists and not (fl or ow)):
                if code == 0:
                    problems.append(where + 'failure reported as success')
                if not err.strip():
                    problems.append(where + 'no message on stderr')
                d = diff(before, after)
                if d:
                    problems.append(where + 'refused, but the tree changed: %s' % d)
            else:
                if code != 0:
                    problems.append(where + 'exit code %d: %s' % (code, err[-300:]))
                    break
                d = diff({k: v for k, v in before.items() if not (k + '/').startswith('model/m/')},
                         {k: v for k, v in after.items() if not (k + '/').startswith('model/m/')})
                if d:
                    problems.append(where + 'something outside of the run directory changed: %s' % d)
                inside = sorted(k for k in after if k.startswith('model/m/'))
                if inside != ['model/m/m.npz', 'model/m/m_autogenerated_backup.ini']:
                    problems.append(where + 'run directory contains %s' % inside)
                else:
                    with np.load(os.path.join(rd, 'm.npz')) as data:
                        if not np.all(data['facies'] == step + 1):
                            problems.append(where + 'the run directory does not hold the results of this run')
            if problems:
                break
        state = sorted((k, v[0]) for k, v in snap(top).items())
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return problems, repr((state, codes))


def testcase(case):
    """Without a file name the test case of the package is run, and its results are removed."""
    top = os.path.realpath(scene.fresh_dir())
    try:
        for d in ('tmp', 'cwd', 'pkg'):
            os.mkdir(os.path.join(top, d))
        shutil.copytree(os.path.join(os.environ['VERIF_SRC'], 'hyvr'), os.path.join(top, 'pkg', 'hyvr'))
        with open(os.path.join(top, 'pkg', 'hyvr', 'made.ini'), 'w') as f:
            f.write(ini_text(None, case['testcase'], runname='made', numsim=case['numsim']))
        before = snap(top)
        env = dict(os.environ, PYTHONPATH=os.path.join(top, 'pkg'), TMPDIR=os.path.join(top, 'tmp'))
        p = subprocess.run([sys.executable, '-m', 'hyvr'] + case['args'], cwd=os.path.join(top, 'cwd'), env=env, timeout=90,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        err = p.stderr.decode(errors='replace')
        problems = []
        if (p.returncode == 0) != (case['testcase'] is None):
            problems.append('test case %r: exit code %d %s' % (case, p.returncode, err[-300:]))
        if p.returncode and not err.strip():
            problems.append('test case %r: no message' % case)
        if b'Saved npz' not in p.stdout and not case['testcase']:
            problems.append('test case %r: no output was generated' % case)
        d = diff(before, snap(top))
        if d:
            problems.append('test case %r: files remain or changed: %s' % (case, d))
        return problems, repr((case['testcase'], p.returncode))
    finally:
        shutil.rmtree(top, ignore_errors=True)


def check(case):
    if 'testcase' in case:
        p, s = testcase(case)
        return Result(p, s)
    problems, outs, n = [], set(), 0
    for last in case['last']:
        p, s = history(case['prefix'] + [last], case['real'])
        n += 1
        problems += p
        outs.add(s)
    return Result(problems, outs, n*(len(case['prefix']) + 1), evaluations=n)
