"""C27: MODFLOW output."""
import contextlib
import io
import itertools
import os
import shutil

import numpy as np

from lib.engine import Result
from lib import scene, outs, readers

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is (grid, model, heads, number of realizations, run name); the written MODFLOW input files are loaded by flopy and '
        'compared with the arrays of the realization: discretization, conductivity and anisotropy of every cell at its '
        'position, boundary heads; outcome = conductivities by layer')
BOUNDS = {'quick': 'all grids of 1-3 x 2-4 x 1-3 cells x 2 models x 2 pairs of heads; numsim 2; 2 origins',
          'thorough': 'all grids of 1-5 x 2-6 x 1-5 cells x 2 models x 4 pairs of heads; numsim 1-4; 3 origins'}
HEADS = [([1.5, 1., 0.], [0.5, 2., 0.]), ([0., 0., 0.], [3., 0., 0.]), ([-2., 5., 1.], [7., 5., 1.]), ([0.125, 1., 1.], [0.125, 2., 2.])]


def cases(tier):
    t = tier == 'thorough'
    a, b = (range(1, 6), range(2, 7)) if t else (range(1, 4), range(2, 5))
    for shape in itertools.product(a, b, a):
        for which in ('trough', 'sheets'):
            for h in range(4 if t else 2):
                yield {'shape': list(shape), 'which': which, 'head': h, 'num': 1, 'org': [2., -1., 1.]}
    for num in (2, 3, 4) if t else (2,):
        yield {'shape': [3, 4, 2], 'which': 'trough', 'head': 0, 'num': num, 'org': [2., -1., 1.]}
    for org in ([0., 0., 0.], [1000.5, -0.75, 20.], [-3., 4., -100.25])[:3 if t else 2]:
        for het in ('facies', 'internal'):
            yield {'shape': [3, 2, 4], 'which': 'sheets', 'head': 0, 'num': 1, 'org': org, 'het': het}


def check(case):
    d = scene.fresh_dir()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return _check(case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def near(a, b, rel=2e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rel, atol=1e-12)


def _check(case, d):
    import flopy
    hin, hout = HEADS[case['head']]
    model, text = outs.text(case['shape'], case['which'], ['mf'], model=dict(heterogeneity_level=case.get('het', 'internal')),
                            run=dict(numsim=case['num'], runname='rn', modeldir=d), flowtrans=dict(hin=hin, hout=hout),
                            origin=case['org'])
    o = outs.execute(text, d)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    problems = []
    nx, ny, nz = case['shape']
    for i, r in enumerate(o.reals):
        base = os.path.join(d, 'rn', *(['real_%03d' % (i + 1)] if case['num'] > 1 else []), 'MODFLOW')
        missing = [e for e in ('nam', 'dis', 'bas', 'lpf', 'oc', 'pcg') if 'rn.' + e not in readers.files(base)]
        if missing:
            problems.append('files %s are missing: %s' % (missing, readers.files(base)))
            break
        try:
            mf = flopy.modflow.Modflow.load('rn.nam', model_ws=base, check=False, forgive=False)
            dis, bas, lpf = mf.dis, mf.bas6, mf.lpf
            if (dis.nlay, dis.nrow, dis.ncol) != (nz, nx, ny):
                problems.append('discretization %s' % ((dis.nlay, dis.nrow, dis.ncol),))
                break
            z0, lz = case['org'][2], model['lz']
            checks = [('row spacing', dis.delc.array, np.full(nx, outs.D[0])), ('column spacing', dis.delr.array, np.full(ny, outs.D[1])),
                      ('top', dis.top.array, np.full((nx, ny), z0 + lz)),
                      ('bottoms', dis.botm.array, np.broadcast_to((z0 + lz - outs.D[2]*(1 + np.arange(nz)))[:, None, None], (nz, nx, ny)))]
            k = r.data['k_iso'].transpose(2, 0, 1)[::-1]
            a = r.data['anirat'].transpose(2, 0, 1)[::-1]
            checks.append(('conductivity', lpf.hk.array, k))
            vka = lpf.vka.array
            lv = np.ravel(np.asarray(lpf.layvka.array))
            ratio = np.stack([vka[j] if lv[j] != 0 else k[j]/vka[j] for j in range(nz)])
            checks.append(('ratio of horizontal to vertical conductivity', ratio, a))
            ib = np.ones((nz, nx, ny))
            ib[:, :, 0] = ib[:, :, -1] = -1
            checks.append(('boundary cells', np.asarray(bas.ibound.array), ib))
            st = bas.strt.array
            checks.append(('head at the first column', st[:, :, 0], np.full((nz, nx), hin[0])))
            checks.append(('head at the last column', st[:, :, -1], np.full((nz, nx), hout[0])))
            for nm, got, want in checks:
                tol = 2e-6 if nm != 'bottoms' and nm != 'top' else 1e-5
                if not near(got, want, tol) and not (nm in ('bottoms', 'top') and np.allclose(got, want, rtol=1e-6, atol=1e-6)):
                    problems.append('%s: %s instead of %s' % (nm, np.asarray(got).ravel()[:6], np.asarray(want).ravel()[:6]))
        except Exception as e:      # noqa: files that cannot be read
            problems.append('cannot be read: %r' % e)
    return Result(problems, [case['shape'], o.reals[-1].data['k_iso']], nz*case['num'])
