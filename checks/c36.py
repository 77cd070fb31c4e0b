"""C36: a run that is interrupted at any point can be repeated."""
import os
import shutil

from lib.engine import Result
from lib import scene
from lib.fsutil import snap, diff
from checks import c35

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is a run (formats, number of realizations, new or existing run directory) that ends abruptly before one of '
        'its operations on files or directories, or in the middle of one of its writes; then the run is repeated, with and '
        'without overwriting; after every step, the whole tree is compared with a reference model and with the results of '
        'an undisturbed run; outcome = (operation, remaining files)')
BOUNDS = {'quick': 'every operation and every torn write of 12 runs (each of the 8 formats alone, two formats with two '
                   'realizations, overwriting of results with subdirectories and links), 2 ways of repeating',
          'thorough': 'the same with two grid sizes, and repeating it with overwriting, which is interrupted as well before every 3rd of its '
                      'operations in turn, and then repeated again'}
ASSUMPTIONS = ['the fault injector sees the operations of the process through libc (LD_PRELOAD); a torn write stores the '
               'first half of the data']

setup = c35.setup
CRASH, TORN = -1, -2
SCENES = [s for s in c35.SCENES if len(s['formats']) < 3 and s['formats']]
PLACE = os.path.join('model', 'm.ini')


def cases(tier):
    for i, s in enumerate(SCENES):
        parts = 8 if s['formats'][0] == 'mf6' else 4 if s['formats'][0] in ('mf', 'h5', 'py') or len(s['formats']) > 1 else 2
        for n in (2,) if tier == 'quick' else (2, 9):
            for p in range(parts):
                yield {'scene': i, 'n': n, 'part': p, 'parts': parts, 'again': tier == 'thorough'}


def prepare(s, n):
    """a model directory with an ini-file, other files, and perhaps earlier results"""
    top = os.path.realpath(scene.fresh_dir())
    os.makedirs(os.path.join(top, 'model', 'other'))
    with open(os.path.join(top, PLACE), 'w') as f:
        f.write(c35.ini_text(s, n))
    for name in ('outside', 'model/other/r.npz', 'model/note.txt'):
        with open(os.path.join(top, name), 'w') as f:
            f.write(name)
    rd = os.path.join(top, 'model', 'r')
    if s.get('old'):
        os.makedirs(os.path.join(rd, 'real_009', 'deep'))
        for name in ('r.npz', 'old.txt', 'real_009/r.npz', 'real_009/deep/x'):
            with open(os.path.join(rd, name), 'w') as f:
                f.write('old')
        os.symlink(os.path.join(top, 'model', 'other'), os.path.join(rd, 'link'))
        os.symlink(os.path.join(top, 'nowhere'), os.path.join(rd, 'dangling'))
    return top


def execute(top, flag, k, err):
    return c35.ask(dict(dir=top, ini=os.path.join(top, PLACE), flag=flag, k=k, err=err))


def split(top):
    """(content of the run directory or None, everything else)"""
    t = snap(top)
    rd = os.path.join('model', 'r')
    inside = {os.path.relpath(p, rd): v for p, v in t.items() if p.startswith(rd + os.sep)}
    rest = {p: v for p, v in t.items() if p != rd and not p.startswith(rd + os.sep)}
    return (inside if rd in t else None), rest


def same(a, b):
    """names, and sizes or contents of files are equal"""
    bad = []
    for p in sorted(set(a) | set(b)):
        x, y = a.get(p), b.get(p)
        if x == y:
            continue
        if x and y and x[0] == y[0] == 'f' and len(x[1]) == len(y[1]) and not p.endswith(('.npz', '.pickle', '.ini', '.dat')):
            continue        # there are dates in some of the files
        bad.append('%s is %s' % (p, 'missing' if x is None else 'left over' if y is None else 'different'))
    return bad


def check(case):
    s, n = SCENES[case['scene']], case['n']
    problems, outs = [], set()
    first = True if s.get('old') else None
    top = prepare(s, n)
    outside = split(top)[1]
    # what an undisturbed run gives
    good = execute(top, first, -1, 0)
    want = split(top)[0]
    shutil.rmtree(top, ignore_errors=True)
    if good['error']:
        return Result(['run without interruption: ' + good['error']], 'error')
    todo = []
    for k in range(good['count']):
        if k % case['parts'] == case['part']:
            todo += [(k, CRASH)] + ([(k, TORN)] if good['ops'][k] == 'w' else [])
    count = 0

    def repeat(top, what, deeper):
        """the run is repeated; (problems)"""
        nonlocal count
        bad = []
        inside, rest = split(top)
        if diff(outside, rest):
            bad.append(what + 'outside of the run directory: %s' % diff(outside, rest)[:3])
        # without overwriting: refused, if there is a run directory
        a = execute(top, False, -1, 0)
        count += 1
        now, rest = split(top)
        if diff(outside, rest):
            bad.append(what + 'repeating it without overwriting changes %s' % diff(outside, rest)[:3])
        if inside is None:
            if a['error'] or same(now or {}, want):
                bad.append(what + 'repeating it gives %s' % (a['error'] or same(now or {}, want)[:3]))
            shutil.rmtree(os.path.join(top, 'model', 'r'), ignore_errors=True)
        else:
            if not a['error']:
                bad.append(what + 'repeating it without overwriting is not refused')
            if diff(inside, now or {}):
                bad.append(what + 'repeating it without overwriting changes %s' % diff(inside, now or {})[:3])
        if deeper:
            # interrupted again and again, a bit later each time
            for m in range(len(what) % 3, 1000, 3):
                b = execute(top, True, m, CRASH)
                count += 1
                if not b.get('died'):
                    break
            return bad + repeat(top, what + 'repeated and interrupted again: ', False)
        a = execute(top, True, -1, 0)
        count += 1
        now, rest = split(top)
        if a['error'] or same(now or {}, want):
            bad.append(what + 'repeating it with overwriting gives %s' % (a['error'] or same(now or {}, want)[:3]))
        if diff(outside, rest):
            bad.append(what + 'repeating it with overwriting changes %s' % diff(outside, rest)[:3])
        return bad

    for k, mode in todo:
        top = prepare(s, n)
        try:
            a = execute(top, first, k, mode)
            count += 1
            what = 'interrupted %s operation %d of %d (%s) of a run with %s: ' % (
                'before' if mode == CRASH else 'within', k, good['count'], c35.NAMES[good['ops'][k]], s)
            if not a.get('died'):
                problems.append(what + 'the run went on')
                continue
            inside = split(top)[0]
            outs.add(repr((case['scene'], good['ops'][k], mode, sorted(inside) if inside is not None else None)))
            problems += repeat(top, what, case['again'])
        finally:
            shutil.rmtree(top, ignore_errors=True)
        if len(problems) > 5:
            break
    return Result(problems, outs or {'none'}, count, evaluations=max(count, 1))
