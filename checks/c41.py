"""C41: runs at the same time do not disturb each other."""
import os
import shutil

from lib.engine import Result
from lib import scene
from lib.fsutil import snap, diff
from checks import c35

NEEDS_EXT = True
LEVEL = 'model_checking'
TECHNIQUE = ('stateless exploration of all interleavings of the file operations of two real processes under a controlled '
             'scheduler, up to a bounded number of context switches')
RULE = ('a case is a pair of runs in one model directory (the same or other run directories, formats, overwriting, existing '
        'results), whose operations on files and directories (including the looking at them) are interleaved by a '
        'scheduler with a bounded number of changes from one run to the other; after each execution, the whole tree and '
        'the two outcomes are compared with those of the two runs one after the other; outcome = the two outcomes')
BOUNDS = {'quick': '16 pairs; every interleaving with one change (one of the runs up to any of its operations, then all of the '
                   'other one, then the rest; a series of writes or looks is one operation), and, for the same run '
                   'directory, every one with two changes (A up to i, B up to j, A, B) within the first 16 operations of each',
          'thorough': '16 pairs; every interleaving with one change; every one with two changes within the first 16 operations '
                      'of each, and, for the same run directory, with three changes within the first 12'}
ASSUMPTIONS = ['the scheduler sees the operations of the processes through libc (LD_PRELOAD); each operation is atomic']

setup = c35.setup
FIRST, THIRD = 16, 12
MAX = 400


def pair(a, b, old=None, kind='both', modeldir=None):
    return dict(a=a, b=b, old=old, kind=kind, modeldir=modeldir)


def one(name, formats, numsim=1, flag=None):
    return dict(name=name, formats=formats, numsim=numsim, flag=flag)


# other run directories: both give what they give alone
PAIRS = [pair(one('r', [f]), one('r2', [f])) for f in c35.ALL]
PAIRS += [pair(one('r', ['npz'], 2), one('r2', ['hgs'])),
          pair(one('r', ['npz'], flag=True), one('r2', ['py'], 2, True), old=['r', 'r2']),
          pair(one('r', ['npz']), one('r2', ['npz']), modeldir='new/deep')]
# the same run directory, which does not exist: one of them gets it, and the other one is refused
PAIRS += [pair(one('r', ['npz']), one('r', ['npz']), kind='one'),
          pair(one('r', ['npz'], 2), one('r', ['npz', 'py']), kind='one', modeldir='new/deep'),
          pair(one('r', ['mf']), one('r', ['hgs']), kind='one')]
# existing results: the run that may not overwrite them is refused, the other one is undisturbed
PAIRS += [pair(one('r', ['npz'], flag=True), one('r', ['py'], flag=False), old=['r'], kind='a'),
          pair(one('r', ['npz'], 2, flag=False), one('r', ['py'], flag=False), old=['r'], kind='none')]


def cases(tier):
    for i, p in enumerate(PAIRS):
        parts = 8 if p['kind'] == 'both' else 24
        for part in range(parts):
            yield {'pair': i, 'part': part, 'parts': parts, 'tier': tier}


def ini_text(p, r, top):
    run = dict(outputs=r['formats'], numsim=r['numsim'], runname=r['name'])
    if p['modeldir']:
        run['modeldir'] = os.path.join(top, p['modeldir'])
    model = dict(dx=1., lx=3., ly=2., lz=2., heterogeneity_level='facies')
    el = {'sh': dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f1', 'f2', 'f3'], lens_thickness=0.2)}
    return scene.ini(run, model, scene.strata1('sh'), el, scene.hydraulics(), dict(hin=[1, 0, 0], hout=[0, 0, 0]))


def prepare(p):
    top = os.path.realpath(scene.fresh_dir())
    for x in 'ab':
        with open(os.path.join(top, x + '.ini'), 'w') as f:
            f.write(ini_text(p, p[x], top))
    for n in p['old'] or []:
        rd = os.path.join(top, n)
        os.makedirs(os.path.join(rd, 'real_009', 'deep'))
        for name in ('r.npz', 'old.txt', 'real_009/r.npz', 'real_009/deep/x'):
            with open(os.path.join(rd, name), 'w') as f:
                f.write('old')
    return top


def content(top):
    """the tree without the dates in some of the files"""
    t = snap(top)
    for n, v in t.items():
        if v[0] == 'f':
            b = v[1]
            if n.endswith('.mat'):
                b = b[128:]
            elif not n.endswith(('.npz', '.pickle', '.h5', '.vtr')):
                b = b'\n'.join(x for x in b.split(b'\n') if not x.lstrip().startswith(b'#'))
            t[n] = ('f', b.replace(top.encode(), b'TOP'))
    return t


def execute(p, who, schedule=(), last=(0, 1)):
    """the runs (letters in who) under a schedule; (answers, tree)"""
    top = prepare(p)
    try:
        runs = [dict(dir=top, ini=os.path.join(top, x + '.ini'), flag=p[x]['flag'], seed=7 + 4*i)
                for i, x in enumerate('ab')]
        if len(who) == 1:
            a = [c35.ask(dict(runs['ab'.index(who)], k=-1, err=0))]
        else:
            a = c35.ask(dict(runs=runs, schedule=list(schedule), last=list(last)))
        return a, content(top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def merge(base, *trees):
    """the union of the changes of some runs"""
    out = {}
    for n in set(base) | set().union(*trees):
        vals = [t.get(n) for t in trees if t.get(n) != base.get(n)]
        v = vals[0] if vals else base.get(n)
        if v is not None:
            out[n] = v
    return out


def schedules(ops, case):
    """(schedule, order in which the rest is done) with few changes between the runs"""
    i = -1
    todo = []
    quick = case['tier'] == 'quick'
    na, nb = [len(x) for x in ops]
    together = PAIRS[case['pair']]['kind'] != 'both'
    # one change: either one is stopped before k; the other one is done entirely
    for x, n in ((0, na), (1, nb)):
        for k in range(n):
            # a series of writes and of looks is one step
            if not quick or k == 0 or ops[x][k] not in 'ws' or ops[x][k-1] != ops[x][k] or (together and k < FIRST):
                todo.append(([(x, k)], (1 - x, x)))
    # two changes
    for x, n, m in ((0, na, nb), (1, nb, na)) if together or not quick else ():
        for k in range(min(n, FIRST)):
            for j in range(1, min(m, FIRST)):
                todo.append(([(x, k), (1 - x, j)], (x, 1 - x)))
    if together and not quick:
        for x, n, m in ((0, na, nb), (1, nb, na)):
            for k in range(min(n, THIRD)):
                for j in range(1, min(m, THIRD)):
                    for l in range(k + 1, min(n, THIRD)):
                        todo.append(([(x, k), (1 - x, j), (x, l)], (1 - x, x)))
    for s in todo:
        i += 1
        if i % case['parts'] == case['part']:
            yield s


def operations(p):
    """the operations of each of them, if it is the first one"""
    res = []
    for x in (0, 1):
        a, _ = execute(p, 'ab', [(x, MAX)], (x, 1 - x))
        res.append(a[x]['ops'][:MAX])
    return res


def check(case):
    p = PAIRS[case['pair']]
    problems, outs, count = [], set(), 0
    top = prepare(p)
    base = content(top)
    shutil.rmtree(top)
    (ea,), ta = execute(p, 'a')
    (eb,), tb = execute(p, 'b')
    if p['kind'] == 'both':
        want = [((None, None), merge(base, ta, tb))]
    elif p['kind'] == 'one':
        want = [((None, 'refused'), ta), (('refused', None), tb)]
    elif p['kind'] == 'a':
        want = [((None, 'refused'), ta)]
    else:
        want = [(('refused', 'refused'), base)]
    expect_alone = [None if p['kind'] in ('both', 'one', 'a') else 'e', None if p['kind'] in ('both', 'one') else 'e']
    for e, x, n in zip((ea, eb), expect_alone, 'ab'):
        if (e['error'] is None) != (x is None):
            return Result(['run %s alone: %s' % (n, e['error'])], 'error')
    for s, last in schedules(operations(p), case):
        a, t = execute(p, 'ab', s, last)
        count += 1
        got = tuple(None if x['error'] is None else 'refused' for x in a)
        outs.add(repr((case['pair'], got, [(x, a[x]['ops'][k:k+1]) for x, k in s])))
        fits = [w for w in want if w[0] == got]
        what = 'runs A = %s and B = %s, the first with the results of %s: the runs stop before %s, then %s: ' % (
            p['a'], p['b'], p['old'], ['%s %d' % ('AB'[x], k) for x, k in s], ['AB'[x] for x in last])
        if not fits:
            problems.append(what + 'they end with %s instead of %s' % ([x['error'] for x in a], [w[0] for w in want]))
        elif diff(fits[0][1], t):
            problems.append(what + 'they end with %s, but %s' % (got, diff(fits[0][1], t)[:4]))
        if len(problems) > 3:
            break
    return Result(problems, outs or {'none'}, count, evaluations=max(count, 1))
