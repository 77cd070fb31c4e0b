"""C06: existing results are only replaced on request, and then completely."""
import contextlib
import io
import itertools
import os
import shutil

import numpy as np

from lib.engine import Result
from lib import scene
from lib.fsutil import snap, diff
from lib.fullini import base, BASE, OPTIONAL
from checks import c04

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is a history of operations on one model directory: runs with every combination of the ini option and the '
        'overwrite argument, runs with ini-files that have to be refused, and user operations that put files, directories '
        '(hidden ones too) and links into the run directory, empty or remove it; after every operation the whole tree (run directory, its '
        'neighbours, link targets) is compared with a reference model; outcome = final tree; further cases are a '
        'complete ini-file with one reason to reject it, run with overwriting requested on a directory with results')
BOUNDS = {'quick': 'all histories of 3 operations over 20 operations; 150 reasons for rejection x 3 states of the directory x 2 arguments', 'thorough': 'all histories of 4 operations over 20 operations; the same rejections'}

INI_OW = [None, False, True]
FLAGS = [None, False, True]
RUNS = [['run', i, f] for i in range(3) for f in range(3)]
BAD = [['bad', k] for k in ('missing', 'facies', 'list', 'section')]
PUTS = [['put', k] for k in ('file', 'dir', 'linkdir', 'linkfile', 'dangling')]
OPS = RUNS + BAD + PUTS + [['rmdir'], ['empty']]


def ini_text(ow, bad=None, facies='f1'):
    run = dict(runname='r', outputs=['npz'], overwrite_old_output=ow)
    model = dict(dx=1., lx=2., ly=2., lz=2., hydraulics=False)
    el = {'sh': dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=[facies], lens_thickness=-1)}
    st = scene.strata1('sh')
    hy = scene.hydraulics()
    if bad == 'missing':
        model['lx'] = None
    elif bad == 'facies':
        el['sh']['facies'] = ['nofacies']
    elif bad == 'list':
        st['ae_prob'] = '[[1.0]'
    elif bad == 'section':
        hy = None
    return scene.ini(run, model, st, el, hy)


REQUIRED = [(s, o) for s in BASE for o in BASE[s]
            if o not in OPTIONAL.get(s, {}) and o not in ('lag_facies', 'dipset_dist', 'bulbset_dist')]
REJECTED = ([('value', s, o, v) for s, o, v in c04.BADVALS + c04.BADFACIES] +
            [('value', e, 'contact_model', v) for e in ('tro', 'cha', 'she') for i, v in enumerate(c04.CONTACT)
             if i not in c04.CONTACT_OK] +
            [('value', 'strata', 'strata_contact_models', [['flat', 4.125], v]) for i, v in enumerate(c04.DEEP)
             if i not in c04.DEEP_OK] +
            [('value', s, o, None) for s, o in REQUIRED] +
            [('value', 'strata', 'ae_in_strata', [['tro'], ['cha', 'she'], ['she', 'none', 'cha']]),
             ('value', 'strata', 'ae', ['tro', 'cha'])] +
            [('section', s) for s in BASE if s != 'flowtrans'] +
            [('unlisted',), ('noflow', 'mf'), ('noflow', 'mf6'), ('noflow', 'hgs'), ('garbage', 'no section\n'),
             ('garbage', ''), ('nofile',)])


def rejected_text(kind, d):
    cfg = base()
    cfg['run'].update(runname='r', modeldir=None)
    if kind[0] == 'value':
        cfg[kind[1]][kind[2]] = kind[3]
    elif kind[0] == 'section':
        cfg.pop(kind[1])
    elif kind[0] == 'unlisted':
        cfg['other'] = dict(cfg['she'])
    elif kind[0] == 'noflow':
        cfg.pop('flowtrans')
        cfg['run']['outputs'] = ['npz', kind[1]]
    elif kind[0] == 'garbage':
        return kind[1]
    return c04.text(cfg, d)


def rejection(case):
    """A rejected ini-file leaves everything as it was."""
    kind = REJECTED[case['reject']]
    problems, n = [], 0
    for before_kind in ('results', 'empty', 'none'):
        for flag in (None, True):
            top = scene.fresh_dir()
            try:
                mdir = os.path.join(top, 'model')
                os.makedirs(os.path.join(mdir, 'r' if before_kind != 'none' else 'q'))
                if before_kind == 'results':
                    os.makedirs(os.path.join(mdir, 'r', 'sub'))
                    for p in ('r/r.npz', 'r/sub/x.vtr', 'r/r_autogenerated_backup.ini'):
                        with open(os.path.join(mdir, p), 'w') as f:
                            f.write('old ' + p)
                path = os.path.join(mdir, 'm.ini')
                before = snap(top)
                error = None
                if kind[0] != 'nofile':
                    o = scene.run(rejected_text(kind, mdir), directory=mdir, flag_ow=flag, keep_outputs=True)
                    error = o.error
                    os.remove(path)
                else:
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            hyvr_run(path, flag)
                    except Exception as e:      # noqa
                        error = str(e)
                n += 1
                where = '%r, run directory: %s, overwrite argument %r: ' % (kind, before_kind, flag)
                if error is None:
                    problems.append(where + 'accepted')
                d = diff(before, snap(top))
                if d:
                    problems.append(where + 'refused, but the tree changed: %s' % d)
            finally:
                shutil.rmtree(top, ignore_errors=True)
    return Result(problems, 'rejected %r' % (kind,), n, evaluations=n)


def hyvr_run(path, flag):
    import hyvr
    hyvr.run(path, flag)


def cases(tier):
    for i in range(len(REJECTED)):
        yield {'reject': i}
    n = 3 if tier == 'quick' else 4
    for pre in itertools.product(range(len(OPS)), repeat=n - 1):
        yield {'prefix': list(pre)}


def history(ops):
    top = scene.fresh_dir()
    mdir = os.path.join(top, 'model')
    out = os.path.join(top, 'outside')
    os.makedirs(mdir)
    os.makedirs(os.path.join(out, 'sub'))
    for p in ('outside/target.txt', 'outside/sub/keep.txt', 'model/neighbour.txt'):
        with open(os.path.join(top, p), 'w') as f:
            f.write('precious ' + p)
    os.makedirs(os.path.join(mdir, 'r2'))
    with open(os.path.join(mdir, 'r2', 'r.npz'), 'w') as f:
        f.write('other run')
    rd = os.path.join(mdir, 'r')
    problems = []
    try:
        for step, op in enumerate(ops):
            before = snap(top)
            exists = os.path.isdir(rd)
            where = 'step %d %r of %r: ' % (step, op, ops)
            if op[0] == 'put':
                os.makedirs(rd, exist_ok=True)
                p = os.path.join(rd, 'user_' + op[1])
                if os.path.lexists(p):
                    continue
                if op[1] == 'file':
                    for q in (p, os.path.join(rd, '.user_file')):
                        with open(q, 'w') as f:
                            f.write('notes')
                elif op[1] == 'dir':
                    os.makedirs(os.path.join(p, 'deep'))
                    os.makedirs(os.path.join(rd, '.user_dir', '.deep'))
                    with open(os.path.join(p, 'deep', 'x'), 'w') as f:
                        f.write('x')
                elif op[1] == 'linkdir':
                    os.symlink(out, p)
                elif op[1] == 'linkfile':
                    os.symlink(os.path.join(out, 'target.txt'), p)
                else:
                    os.symlink(os.path.join(out, 'nowhere'), p)
                continue
            if op[0] == 'rmdir':
                shutil.rmtree(rd, ignore_errors=True)
                continue
            if op[0] == 'empty':
                shutil.rmtree(rd, ignore_errors=True)
                os.makedirs(rd)
                continue
            if op[0] == 'run':
                ow, flag = INI_OW[op[1]], FLAGS[op[2]]
                bad = None
            else:
                ow, flag, bad = True, True, op[1]
            o = scene.run(ini_text(ow, bad, 'f%d' % (step + 1)), directory=mdir, name='m.ini', flag_ow=flag, keep_outputs=True)
            os.remove(os.path.join(mdir, 'm.ini'))
            after = snap(top)
            eff = flag if flag is not None else bool(ow)
            if bad or (exists and not eff):
                if o.error is None:
                    problems.append(where + 'accepted')
                elif not bad and not o.error.startswith('FileExistsError'):
                    problems.append(where + 'raised %s' % o.error)
                d = diff(before, after)
                if d:
                    problems.append(where + 'refused, but the tree changed: %s' % d)
            else:
                if o.error is not None:
                    problems.append(where + 'failed: ' + o.error)
                    break
                want = {k: v for k, v in before.items() if k != 'model/r' and not k.startswith('model/r/')}
                got = {k: v for k, v in after.items() if k != 'model/r' and not k.startswith('model/r/')}
                d = diff(want, got)
                if d:
                    problems.append(where + 'something outside of the run directory changed: %s' % d)
                inside = sorted(k for k in after if k.startswith('model/r/'))
                if inside != ['model/r/r.npz', 'model/r/r_autogenerated_backup.ini']:
                    problems.append(where + 'run directory contains %s' % inside)
                else:
                    with np.load(os.path.join(rd, 'r.npz')) as data:
                        if not np.all(data['facies'] == step + 1):
                            problems.append(where + 'the run directory does not hold the results of this run')
                    if ('f%d' % (step + 1)) not in after['model/r/r_autogenerated_backup.ini'][1].decode().split('facies = ', 1)[1]:
                        problems.append(where + 'the backup is not the ini-file of this run')
            if problems:
                break
        state = tuple(sorted((k, v[0]) for k, v in snap(top).items()))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return problems, repr(state)


def check(case):
    if 'reject' in case:
        return rejection(case)
    problems, outs, n = [], set(), 0
    for last in range(len(OPS)):
        p, s = history([OPS[i] for i in case['prefix']] + [OPS[last]])
        n += 1
        problems += p
        outs.add(s)
    return Result(problems, outs, n*(len(case['prefix']) + 1), evaluations=n)
