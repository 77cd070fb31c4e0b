"""C40: results do not depend on the place where they are stored, and can be moved."""
import contextlib
import io
import itertools
import os
import re
import shutil

import numpy as np

from lib.engine import Result
from lib import scene, outs, readers
from lib.fsutil import snap

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is (format, name of the model directory, how the ini-file and the model directory are addressed, number of '
        'realizations); the run is compared file by file (without dates) with a run in a plain directory with the same random '
        'answers; then the run directory is moved, its files are read at the new place, and the moved backup is run again there; '
        'outcome = names of the files')
PLACES = ['plain', 'with blank', ' two  blanks ', 'a.npz', 'm.ini', '\u00fcn\u00ef', '#hash', "quote's", 'semi;colon', '[br]', 'per%cent', 'UPPER', '-dash',
          'deep/' + '/'.join(['d'*30]*4), 'com,ma', 'MODFLOW', 'r', 'real_001', 'x_autogenerated_backup.ini', '..dots..', 'back\\slash', '~', '$HOME', 'a=b:c']
HOW = ['absolute', 'relative', 'up', 'link', 'path', 'modeldir', 'relative modeldir']
FMT = ['npz', 'py', 'mat', 'h5', 'vtr', 'mf', 'mf6', 'hgs']
BOUNDS = {'quick': '8 formats x (%d names of directories with absolute paths, 7 ways of addressing x 3 names), 1 realization; 2 realizations for '
                   '3 names; 2 names x 8 formats moved and run again in 3 ways' % len(PLACES),
          'thorough': '8 formats x %d names of directories x 7 ways of addressing x 1-2 realizations' % len(PLACES)}
MODEL = dict(dx=1., dy=0.5, dz=0.25, lx=3., ly=1., lz=0.75, x0=2., y0=-1., z0=3.)


def setup(workdir):
    import flopy, h5py, pyevtk.hl       # noqa: imported before numpy.random is replaced


def cases(tier):
    for f in FMT:
        if tier == 'thorough':
            for p, h, n in itertools.product(PLACES, HOW, (1, 2)):
                yield {'fmt': f, 'place': p, 'how': h, 'n': n}
            continue
        for p in PLACES:
            yield {'fmt': f, 'place': p, 'how': 'absolute', 'n': 1}
        for p, h in itertools.product(('plain', 'with blank', '\u00fcn\u00ef'), HOW[1:]):
            yield {'fmt': f, 'place': p, 'how': h, 'n': 1}
        for p in ('with blank', 'per%cent', 'real_001'):
            yield {'fmt': f, 'place': p, 'how': 'absolute', 'n': 2}


def text(fmt, n, modeldir=None):
    el = {'a': dict(geometry='sheet', structure='dip', contact_model=['flat'], facies=['f1', 'f2'], dip=[10., 30.], azimuth=[0., 90.],
                    dipset_dist=0.4, lens_thickness=0.5)}
    run = dict(outputs=[fmt], numsim=n, runname='r', modeldir=modeldir and modeldir.replace('%', '%%'))
    return scene.ini(run, MODEL, scene.strata1('a'), el, scene.hydraulics(),
                     dict(hin=[1.5, 0, 0], hout=[0.5, 0, 0]))


DATES = [re.compile(rb'on \d+/\d+/\d+ at \d+:\d+:\d+'), re.compile(rb'Created on: [^\x00]{24}'), re.compile(rb'(?m)^modeldir = .*\n')]


def content(rd):
    res = {}
    for k, v in snap(rd).items():
        if v[0] == 'f':
            b = v[1]
            for d in DATES:
                b = d.sub(b'', b)
            v = ('f', b)
        res[k] = v
    return res


_plain = {}


def plain(fmt, n):
    """files of a run in a plain directory, and the values in them"""
    if (fmt, n) not in _plain:
        d = scene.fresh_dir()
        try:
            o = outs.execute(text(fmt, n), d, name='start.ini')
            _plain[fmt, n] = o.error or (content(os.path.join(d, 'r')), values(os.path.join(d, 'r'), fmt, n))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _plain[fmt, n]


def values(rd, fmt, n):
    """all numbers, read at their place by the libraries that use the formats"""
    res = []
    for i in range(n):
        d = rd if n == 1 else os.path.join(rd, 'real_%03d' % (i + 1))
        if fmt in readers.READ:
            ext, f = readers.READ[fmt]
            res += sorted(f(os.path.join(d, 'r.' + ext)).items())
        elif fmt == 'vtr':
            co, cells, _ = readers.vtr(os.path.join(d, 'r.vtr'))
            res += [('co', c) for c in co] + sorted(cells.items())
        elif fmt == 'mf':
            import flopy
            m = flopy.modflow.Modflow.load('r.nam', model_ws=os.path.join(d, 'MODFLOW'), check=False, forgive=False)
            res += [('hk', m.lpf.hk.array.copy()), ('vka', m.lpf.vka.array.copy()), ('strt', m.bas6.strt.array.copy()),
                    ('botm', m.dis.botm.array.copy()), ('packages', np.array(sorted(m.get_package_list())))]
        elif fmt == 'mf6':
            import flopy
            s = flopy.mf6.MFSimulation.load(sim_ws=os.path.join(d, 'mf6'), verbosity_level=0)
            m = s.get_model(list(s.model_names)[0])
            res += [('k', m.npf.k.array.copy()), ('botm', m.dis.botm.array.copy()), ('strt', m.ic.strt.array.copy())]
        elif fmt == 'hgs':
            for f in ('ktensors', 'porosity'):
                res.append((f, np.loadtxt(os.path.join(d, 'HGS', f + '.txt'), ndmin=2)))
    return res


def compare(a, b):
    if [k for k, _ in a] != [k for k, _ in b]:
        return 'the files hold %s instead of %s' % ([k for k, _ in b], [k for k, _ in a])
    for (k, x), (_, y) in zip(a, b):
        if x.shape != y.shape or x.dtype != y.dtype or not np.array_equal(x, y):
            return '%s differs' % k
    return None


def different(want, got):
    bad = []
    for k in sorted(set(want) | set(got)):
        x, y = want.get(k), got.get(k)
        if x != y:
            bad.append('%s is %s' % (k, 'missing' if y is None else 'additional' if x is None else 'different'))
    return bad[:4]


def start(top, base, how, fmt, n):
    """runs the model in the directory base; returns (outcome, path of the run directory)"""
    os.makedirs(base, exist_ok=True)
    where = base
    rd = os.path.join(base, 'r')
    txt = text(fmt, n)
    cwd = os.getcwd()
    os.makedirs(os.path.join(top, 'elsewhere', 'sub'), exist_ok=True)
    work = os.path.join(top, 'elsewhere', 'sub')
    if how == 'relative':
        work, arg = base, 'start.ini'
    elif how == 'up':
        arg = os.path.join(os.path.relpath(base, work), 'start.ini')
    elif how == 'link':
        link = os.path.join(top, 'elsewhere', 'link')
        os.symlink(base, link)
        arg = os.path.join(link, 'start.ini')
    elif how == 'modeldir':
        where, txt = work, text(fmt, n, base)
        arg = os.path.join(where, 'start.ini')
    elif how == 'relative modeldir':
        # relative to the working directory
        where, txt = os.path.join(top, 'elsewhere'), text(fmt, n, os.path.relpath(base, work))
        arg = os.path.join(where, 'start.ini')
    else:
        arg = os.path.join(base, 'start.ini')
    with open(os.path.join(where, 'start.ini'), 'w') as f:
        f.write(txt)
    if how == 'path':
        import pathlib
        arg = pathlib.Path(arg)
    os.chdir(work)
    try:
        return call(arg), rd
    finally:
        os.chdir(cwd)


def call(arg, flag=None):
    import warnings
    import hyvr
    from lib.rng import Chooser
    ch = Chooser(fields='generic')
    ch._salt = 0
    with ch, warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            hyvr.run(arg, flag)
        except Exception as e:      # noqa
            return '%s: %s' % (type(e).__name__, e)
    return None


def check(case):
    with contextlib.redirect_stdout(io.StringIO()):
        return _check(case)


def _check(case):
    fmt, n = case['fmt'], case['n']
    want = plain(fmt, n)
    if isinstance(want, str):
        return Result(['plain directory: ' + want], 'error')
    want, numbers = want
    top = os.path.realpath(scene.fresh_dir())
    problems = []
    try:
        base = os.path.join(top, *case['place'].split('/'))
        err, rd = start(top, base, case['how'], fmt, n)
        if err:
            return Result(['failed: ' + err], 'error')
        if not os.path.isdir(rd):
            return Result(['no results at ' + rd], 'error')
        got = content(rd)
        problems += ['compared with a plain directory: ' + x for x in different(want, got)]
        # it is moved, and the old place vanishes
        new = os.path.join(top, 'moved to', 'another \u00e4 place')
        os.makedirs(new)
        new = os.path.join(new, 'r')
        shutil.move(rd, new)
        shutil.rmtree(base, ignore_errors=True)
        try:
            bad = compare(numbers, values(new, fmt, n))
            if bad:
                problems.append('after moving: ' + bad)
        except Exception as e:      # noqa
            problems.append('after moving, the results cannot be read: %s: %s' % (type(e).__name__, e))
        backup = [f for f in os.listdir(new) if f.endswith('.ini')]
        if len(backup) == 1:
            err = call(os.path.join(new, backup[0]), True)
            if err:
                problems.append('the moved backup cannot be run: ' + err)
            else:
                problems += ['the moved backup gives: ' + x for x in different(want, content(new))]
                if os.path.exists(base):
                    problems.append('running the moved backup creates the old place')
        else:
            problems.append('backups %s' % backup)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return Result(problems[:5], repr(sorted(got)) + case['place'], 3, evaluations=3)
