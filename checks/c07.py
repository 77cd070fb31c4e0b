"""C07: where results are stored; the stored ini-file reproduces the run."""
import builtins
import configparser
import itertools
import os
import shutil
import subprocess
import sys

import numpy as np

from lib.engine import Result
from lib import scene
from lib.fsutil import snap, diff

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is (name of the ini-file, runname, modeldir, number of realizations, outputs, working directory) followed by '
        'a second run from the stored backup; the complete list of created paths, the contents of all result files and the '
        'backup are compared with a reference; outcome = created tree')
BOUNDS = {'quick': 'complete product of 5 file names, 3 run names, 4 model directories, numsim 1..3, 4 output lists, '
                   'absolute/relative path; model directory asked for (3 answers); ini-files with byte order mark and umlauts; 5 relative model directories; 40 histories in processes with another character set', 'thorough': 'the same with numsim 1..12 and all output lists of up to 2 formats'}

FILES = ['m.ini', 'my.model.ini', 'a b.ini', 'run1_autogenerated_backup.ini', 'settings.txt']
EXT = {'npz': 'npz', 'py': 'pickle', 'mat': 'mat', 'h5': 'h5', 'vtr': 'vtr'}


def cases(tier):
    outs = [[], ['npz'], ['py', 'npz'], ['npz', 'mat', 'h5', 'vtr', 'py']]
    sims = [1, 2, 3]
    if tier == 'thorough':
        outs = [list(c) for r in (0, 1, 2) for c in itertools.combinations(EXT, r)]
        sims = list(range(1, 13))
    for fn in FILES:
        for rn in (None, 'res', 'x.y'):
            for md in (None, 'existing', 'new/deep', 'sub dir'):
                for ns in sims:
                    for o in outs:
                        for rel in (False, True):
                            yield {'file': fn, 'runname': rn, 'modeldir': md, 'numsim': ns, 'outputs': o, 'rel': rel}
            for ns in sims:
                for rel in (False, True):
                    for answer in ('', 'existing', 'new/deep'):
                        yield {'file': fn, 'runname': rn, 'modeldir': answer, 'select': True, 'numsim': ns, 'outputs': ['npz'], 'rel': rel}
                    for enc in ('bom', 'umlaut', 'both'):
                        yield {'file': fn, 'runname': rn, 'modeldir': 'existing', 'enc': enc, 'numsim': ns, 'outputs': ['npz'], 'rel': rel}


    # the model directory given relative to the working directory
    for fn in FILES[:3] if tier == 'quick' else FILES:
        for rn in (None, 'res', 'x.y'):
            for md in ('existing', 'new/deep', './existing', 'existing/../sub dir', 'ini'):
                for select in (False, True):
                    for ns in (1, 2):
                        yield {'file': fn, 'runname': rn, 'modeldir': md, 'mrel': True, 'select': select, 'numsim': ns,
                               'outputs': ['npz'], 'rel': True}
    # in an environment with another character set
    for fn in FILES:
        for enc in ('', 'bom', 'umlaut', 'both'):
            for ns in (1, 2):
                yield {'file': fn, 'runname': None, 'modeldir': 'existing', 'enc': enc, 'numsim': ns, 'outputs': ['npz'],
                       'locale': 'C'}


def text(case, top, ow):
    md = case['modeldir']
    if case.get('mrel'):
        top = ''
    if case.get('select'):
        md = 'select'
        top = ''
    run = dict(runname=case['runname'], numsim=case['numsim'] if case['numsim'] > 1 else None,
               outputs=case['outputs'], overwrite_old_output=ow,
               modeldir=os.path.join(top, md) if md else None)
    model = dict(dx=1., lx=2., ly=2., lz=3., hydraulics=False)
    el = {'sh': dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f1', 'f2'],
                     dip=[0, 30], azimuth=[-20, 20], lens_thickness=0.75)}
    t = scene.ini(run, model, scene.strata1('sh'), el, scene.hydraulics())
    if case.get('enc') in ('umlaut', 'both'):
        t = t.replace('f1', 'Kies_ü').replace('s0', 'Schicht_ß')
    return t


def sections(path):
    p = configparser.ConfigParser()
    p.read(path, encoding='utf-8')
    return {s: dict(p[s]) for s in p.sections()}


RUN = '''
import json, sys, numpy as np, hyvr
np.random.seed(1)
hyvr.run(sys.argv[1], True)
'''


def in_locale(case):
    """The whole history in processes whose character set is not UTF-8."""
    top = os.path.realpath(scene.fresh_dir())
    env = dict(os.environ, LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1')
    problems = []
    try:
        idir = os.path.join(top, 'ini')
        os.makedirs(idir)
        t = text(case, top, True)
        path = os.path.join(idir, case['file'])
        with open(path, 'w', encoding='utf-8') as f:
            f.write(('\ufeff' if case['enc'] in ('bom', 'both') else '') + t)
        backup_like = case['file'].endswith('_autogenerated_backup.ini')
        rn = 'run1' if backup_like else os.path.splitext(case['file'])[0]
        rd = idir if backup_like else os.path.join(top, 'existing', rn)
        backup = os.path.join(rd, rn + '_autogenerated_backup.ini')
        trees = []
        for i, ini in enumerate((path, backup)):
            p = subprocess.run([sys.executable, '-c', RUN, ini], env=env, cwd=top, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=90)
            what = 'running the %s: ' % ('backup' if i else 'ini-file')
            if p.returncode != 0:
                problems.append(what + 'failed: ' + p.stderr.decode(errors='replace')[-300:])
                break
            try:
                if sections(backup) != parse(t):
                    problems.append(what + 'the backup differs from the ini-file')
            except (OSError, UnicodeError, configparser.Error) as e:
                problems.append(what + 'the backup cannot be read: %s' % e)
                break
            data = {}
            rels = [rd] if case['numsim'] == 1 else [os.path.join(rd, 'real_%03d' % (j + 1)) for j in range(case['numsim'])]
            for r in rels:
                f = os.path.join(r, rn + '.npz')
                if not os.path.exists(f):
                    problems.append(what + 'no ' + os.path.relpath(f, top))
                    continue
                with np.load(f) as z:
                    data[r] = {k: z[k] for k in z}
            trees.append(data)
        if len(trees) == 2 and not problems:
            for r in trees[0]:
                if any(not np.array_equal(trees[0][r][k], trees[1][r][k]) for k in trees[0][r]):
                    problems.append('running the backup gives other results')
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return Result(problems, 'character set %r' % sorted(case.items()), 4)


def check(case):
    if case.get('locale'):
        return in_locale(case)
    top = os.path.realpath(scene.fresh_dir())
    idir = os.path.join(top, 'ini')
    os.makedirs(idir)
    os.makedirs(os.path.join(top, 'existing'))
    problems = []
    cwd = os.getcwd()
    asked = builtins.input

    def unexpected(*a):
        raise EOFError('asks for a directory')
    try:
        fn = case['file']
        # a file name on a relative path is interpreted from the working directory
        t = text(case, top, True)
        path = os.path.join(idir, fn)
        bom = '\ufeff' if case.get('enc') in ('bom', 'both') else ''
        with open(path, 'w') as f:
            f.write(bom + t)
        backup_like = fn.endswith('_autogenerated_backup.ini')
        if case['rel']:
            os.chdir(top)
            directory, arg = 'ini', fn
        else:
            directory, arg = idir, fn
        before = snap(top)
        # the file is written again by scene.run with the same contents
        builtins.input = lambda *a: (os.path.join('' if case.get('mrel') else top, case['modeldir'])
                                     if case['modeldir'] else '')
        o = scene.run(bom + t, directory=directory, name=arg, keep_outputs=True, flag_ow=True if backup_like else None)
        builtins.input = unexpected
        if o.error:
            return Result(['failed: ' + o.error], 'error')
        # reference
        rn = case['runname'] or ('run1' if backup_like else os.path.splitext(fn)[0])
        if backup_like:
            rd = idir
            want = {k: v for k, v in before.items() if not k.startswith('ini/')}
        else:
            rd = os.path.normpath(os.path.join(top, case['modeldir'] or 'ini', rn))
            want = dict(before)
        rels = []
        p = rd
        while p != top:
            want[os.path.relpath(p, top)] = ('d',)
            p = os.path.dirname(p)
        rels = [rd] if case['numsim'] == 1 else [os.path.join(rd, 'real_%03d' % (i + 1)) for i in range(case['numsim'])]
        backup = os.path.join(rd, rn + '_autogenerated_backup.ini')
        new = {os.path.relpath(backup, top)}
        for r in rels:
            want[os.path.relpath(r, top)] = ('d',)
            for fmt in case['outputs']:
                new.add(os.path.relpath(os.path.join(r, rn + '.' + EXT[fmt]), top))
        after = snap(top)
        paths = set(want) | new
        if set(after) != paths:
            problems.append('missing %s, unexpected %s' % (sorted(paths - set(after)), sorted(set(after) - paths)))
        else:
            d = diff(want, {k: v for k, v in after.items() if k not in new})
            if d:
                problems.append('changed: %s' % d)
            # the backup contains the settings of the run
            if sections(backup) != parse(t):
                problems.append('the backup differs from the ini-file')
            for i, r in enumerate(rels):
                data = o.reals[i].data
                if 'npz' in case['outputs']:
                    with np.load(os.path.join(r, rn + '.npz')) as z:
                        for k in data:
                            if not np.array_equal(z[k], data[k]):
                                problems.append('%s holds another realization (%s)' % (r, k))
            # run again from the backup
            first = {k: v for k, v in after.items()}
            with open(backup) as f:
                btext = f.read()
            o2 = scene.run(btext, directory=rd, name=os.path.basename(backup), keep_outputs=True, flag_ow=True)
            if o2.error:
                problems.append('running the backup failed: ' + o2.error)
            else:
                again = snap(top)
                if set(again) != set(first):
                    problems.append('running the backup: missing %s, unexpected %s'
                                    % (sorted(set(first) - set(again)), sorted(set(again) - set(first))))
                if len(o2.reals) != len(o.reals) or any(
                        not np.array_equal(a.data[k], b.data[k]) for a, b in zip(o.reals, o2.reals) for k in a.data):
                    problems.append('running the backup gives other results')
        state = repr(sorted(paths))
    finally:
        builtins.input = asked
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)
    return Result(problems, state.replace(top, ''), 2 + 2*case['numsim'])


def parse(t):
    p = configparser.ConfigParser()
    p.read_string(t)
    return {s: dict(p[s]) for s in p.sections()}
