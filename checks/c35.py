"""C35: failing file operations: a run that could not store its results does not end as if it had."""
import errno
import json
import os
import shutil
import subprocess
import sys

from lib.engine import Result, VERIF
from lib import engine, scene

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a run (formats, number of realizations, new or existing run directory) and one of its operations on files or '
        'directories (create, write, truncate, close, read, make and remove directories and files), which fails with an error of '
        'the operating system; after the execution, the reported result and the stored files are compared with those of the '
        'run without faults; outcome = (operation, error or success, formats reported as saved)')
BOUNDS = {'quick': 'every single operation of 13 runs (each of the 8 formats alone, all formats together with two '
                   'realizations, overwriting of results with subdirectories and links), no space left',
          'thorough': 'the same with 3 errors (no space left, input/output error, permission denied) and two grid sizes'}
ASSUMPTIONS = ['the fault injector sees the operations of the process through libc (LD_PRELOAD); one fault per run']

ALL = ['npz', 'py', 'mat', 'h5', 'vtr', 'mf', 'mf6', 'hgs']
SCENES = [dict(formats=[f]) for f in ALL]
SCENES += [dict(formats=['npz', 'py'], numsim=2), dict(formats=ALL), dict(formats=['npz'], old=True),
           dict(formats=['py', 'h5'], old=True, numsim=2), dict(formats=[])]
NAMES = {'o': 'create', 'w': 'write', 't': 'truncate', 'c': 'close', 'r': 'read', 'd': 'open directory',
         'm': 'make directory', 'u': 'remove', 'n': 'rename'}
PART = 12                    # number of parts the operations of a run are divided into


def cases(tier):
    for i, s in enumerate(SCENES):
        parts = PART if len(s['formats']) > 2 else 3 if s['formats'] and s['formats'][0] in ('mf', 'mf6', 'h5') else 1
        for e in ('ENOSPC',) if tier == 'quick' else ('ENOSPC', 'EIO', 'EACCES'):
            for n in (2,) if tier == 'quick' else (2, 9):
                for p in range(parts):
                    yield {'scene': i, 'errno': e, 'n': n, 'part': p, 'parts': parts}


def ini_text(s, n):
    run = dict(outputs=s['formats'], numsim=s.get('numsim', 1), runname='r')
    model = dict(dx=1., lx=float(n), ly=2., lz=2., heterogeneity_level='facies')
    el = {'sh': dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f1'], lens_thickness=-1)}
    return scene.ini(run, model, scene.strata1('sh'), el, scene.hydraulics(), dict(hin=[1, 0, 0], hout=[0, 0, 0]))


_server = None


def setup(workdir):
    """compiles the injector once per worker and starts the server"""
    global _server
    so = os.path.join(workdir, 'fault.so')
    subprocess.run(['gcc', '-O1', '-w', '-fPIC', '-shared', os.path.join(VERIF, 'lib', 'fault.c'), '-o', so, '-ldl'], check=True)
    env = dict(os.environ, LD_PRELOAD=so, PYTHONPATH=os.environ['VERIF_SRC'], MPLBACKEND='Agg')
    _server = subprocess.Popen([sys.executable, os.path.join(VERIF, 'lib', 'faultrun.py')], env=env, cwd=workdir,
                               stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)


def ask(req):
    _server.stdin.write(json.dumps(req) + '\n')
    _server.stdin.flush()
    while True:
        line = _server.stdout.readline()
        if not line:
            raise RuntimeError('the server process ended')
        if line.strip() != 'ready':
            return json.loads(line)


def tree(top):
    res = {}
    for root, dirs, files in os.walk(top):
        for d in dirs:
            res[os.path.relpath(os.path.join(root, d), top)] = 'dir'
        for f in files:
            p = os.path.join(root, f)
            res[os.path.relpath(p, top)] = 'link' if os.path.islink(p) else os.path.getsize(p)
    return res


def execute(s, n, k, err):
    top = os.path.realpath(scene.fresh_dir())
    try:
        with open(os.path.join(top, 'm.ini'), 'w') as f:
            f.write(ini_text(s, n))
        rd = os.path.join(top, 'r')
        if s.get('old'):
            os.makedirs(os.path.join(rd, 'real_009', 'deep'))
            for name in ('r.npz', 'old.txt', 'real_009/r.npz', 'real_009/deep/x'):
                with open(os.path.join(rd, name), 'w') as f:
                    f.write('old')
            os.symlink(os.path.join(top, 'm.ini'), os.path.join(rd, 'link'))
        a = ask(dict(dir=top, ini=os.path.join(top, 'm.ini'), flag=True if s.get('old') else None, k=k, err=err))
        a['tree'] = tree(rd) if os.path.isdir(rd) else {}
        return a
    finally:
        shutil.rmtree(top, ignore_errors=True)


def saved(stdout):
    """formats which the run reports as saved, per realization in order"""
    return [w.split()[1] for w in stdout.split('\n') if w.startswith('Saved ')]


def check(case):
    s, n = SCENES[case['scene']], case['n']
    err = getattr(errno, case['errno'])
    good = execute(s, n, -1, 0)
    if good['error']:
        return Result(['run without faults: ' + good['error']], 'error')
    problems, outs = [], set()
    # files of a format: those which a run with this format alone creates
    files = {}
    for fmt in s['formats']:
        only = execute(dict(s, formats=[fmt]), n, -1, 0)
        none = execute(dict(s, formats=[]), n, -1, 0)
        files[fmt] = {f: v for f, v in only['tree'].items() if f not in none['tree']}
    todo = [k for k in range(good['count']) if k % case['parts'] == case['part']]
    count = 0
    for k in todo:
        a = execute(s, n, k, err)
        count += 1
        what = 'operation %d of %d (%s) of a run with %s fails: ' % (
            k, good['count'], NAMES[good['ops'][k]], s)
        done = saved(a['stdout'])
        outs.add(repr((case['scene'], good['ops'][k], (a['error'] or 'success').split(':')[0], done)))
        wrong = {f: (a['tree'].get(f), v) for f, v in good['tree'].items() if a['tree'].get(f) != v}
        extra = sorted(set(a['tree']) - set(good['tree']))
        if a['error'] is None:
            if wrong or extra:
                problems.append(what + 'the run ends without error, but (stored, complete) = %s, remaining %s' % (
                    dict(list(wrong.items())[:3]), extra[:3]))
        elif done:
            real = s.get('numsim', 1)
            for fmt in set(done):
                # the first realizations of this format are complete
                m = done.count(fmt)
                for f in files[fmt]:
                    r = int(f[5:8]) if real > 1 and f.startswith('real_') else 1
                    if r <= m and f in wrong and f not in ('r_autogenerated_backup.ini',):
                        problems.append(what + '%s is reported as saved, but %s is not complete' % (fmt, f))
        if len(problems) > 5:
            break
    return Result(problems, outs, count, evaluations=max(count, 1))
