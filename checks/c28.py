"""C28: MODFLOW 6 output."""
import contextlib
import io
import itertools
import os
import shutil

import numpy as np

from lib.engine import Result
from lib import scene, outs, readers
from checks.c27 import near

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('a case is (grid, model, boundary conditions, number of realizations); the written MODFLOW 6 input files are loaded by flopy '
        'and compared with the arrays of the realization: discretization, conductivities, anisotropy and angles of every cell '
        'at its position, constant heads, inflow and initial heads; outcome = conductivities by layer and boundaries')
BOUNDS = {'quick': 'all grids of 2-3 x 1-3 x 1-3 cells x 2 models x all combinations of given boundary conditions for 1 grid, 3 for all; '
                   'numsim 2; 2 origins',
          'thorough': 'all grids of 2-5 x 1-4 x 1-4 cells x 2 models x all combinations of given boundary conditions; numsim 1-3; 3 origins'}
FLOW = [dict(hin=[1.5, 1., 0.], hout=[0.5, 2., 0.]), dict(gradh=0.25), dict(q_in=0.125), dict(gradh=0.5, q_in=0.25),
        dict(hin=[3., 0., 0.], hout=[0., 0., 0.], q_in=0.5), dict(hin=[0., 0., 0.], hout=[2., 0., 0.]),
        dict(hin=[1.5, 1., 0.], hout=[0.5, 2., 0.], gradh=0.75),
        dict(gradh=0.), dict(gradh=-0.5), dict(q_in=-0.25), dict(q_in=0.), dict(gradh=0., q_in=0.)]


def cases(tier):
    t = tier == 'thorough'
    a, b = (range(2, 6), range(1, 5)) if t else (range(2, 4), range(1, 4))
    for shape in itertools.product(a, b, b):
        for which in ('trough', 'sheets'):
            for f in range(len(FLOW)) if t or shape == (3, 2, 2) else (0, 1, 2):
                yield {'shape': list(shape), 'which': which, 'flow': f, 'num': 1, 'org': [2., -1., 1.]}
    for num in (2, 3) if t else (2,):
        yield {'shape': [3, 4, 2], 'which': 'trough', 'flow': 0, 'num': num, 'org': [2., -1., 1.]}
    for org in ([0., 0., 0.], [1000.5, -0.75, 20.], [-3., 4., -100.25])[:3 if t else 2]:
        for het in ('facies', 'internal'):
            yield {'shape': [3, 2, 4], 'which': 'sheets', 'flow': 0, 'num': 1, 'org': org, 'het': het}


def check(case):
    d = scene.fresh_dir()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return _check(case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def angle_near(got, want):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and np.all(np.abs((got - want + 180) % 360 - 180) < 1e-5)


def _check(case, d):
    import flopy
    flow = FLOW[case['flow']]
    model, text = outs.text(case['shape'], case['which'], ['mf6'], model=dict(heterogeneity_level=case.get('het', 'internal')),
                            run=dict(numsim=case['num'], runname='rn', modeldir=d), flowtrans=flow, origin=case['org'])
    o = outs.execute(text, d)
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    problems = []
    nx, ny, nz = case['shape']
    for i, r in enumerate(o.reals):
        base = os.path.join(d, 'rn', *(['real_%03d' % (i + 1)] if case['num'] > 1 else []), 'mf6')
        try:
            sim = flopy.mf6.MFSimulation.load(sim_ws=base, verbosity_level=0)
            gwf = sim.get_model(list(sim.model_names)[0])
            dis, npf, ic = gwf.get_package('dis'), gwf.get_package('npf'), gwf.get_package('ic')
            if (dis.nlay.get_data(), dis.nrow.get_data(), dis.ncol.get_data()) != (nz, ny, nx):
                problems.append('discretization %s' % ((dis.nlay.get_data(), dis.nrow.get_data(), dis.ncol.get_data()),))
                break
            z0, lz = case['org'][2], model['lz']
            t = lambda key: r.data[key].transpose(2, 1, 0)[::-1]
            sh = (nz, ny, nx)
            # flopy selects the number of digits from the range of the values
            checks = [('column spacing', dis.delr.array, np.full(nx, outs.D[0])), ('row spacing', dis.delc.array, np.full(ny, outs.D[1])),
                      ('top', dis.top.array, np.full((ny, nx), z0 + lz)),
                      ('bottoms', dis.botm.array, np.broadcast_to((z0 + lz - outs.D[2]*(1 + np.arange(nz)))[:, None, None], sh)),
                      ('conductivity', npf.k.array, t('k_iso')), ('conductivity across the bedding', npf.k33.array, t('k_iso')/t('anirat'))]
            for nm, got, want in checks:
                got = np.asarray(got, float)
                if got.shape != want.shape or not np.allclose(got, want, rtol=1e-5, atol=6e-9):
                    problems.append('%s: %s instead of %s' % (nm, np.asarray(got).ravel()[:6], np.asarray(want).ravel()[:6]))
            # the principal axis across the bedding is the normal of the bedding
            a1, a2, a3 = (np.radians(np.broadcast_to(np.asarray(x.array, float), sh)) for x in (npf.angle1, npf.angle2, npf.angle3))
            # MODFLOW 6: rotation by angle1 in the xy-plane, angle2 upwards from it, angle3 about the first axis
            n = np.stack([-np.cos(a1)*np.sin(a2)*np.cos(a3) + np.sin(a1)*np.sin(a3),
                          -np.sin(a1)*np.sin(a2)*np.cos(a3) - np.cos(a1)*np.sin(a3), np.cos(a2)*np.cos(a3)], axis=-1)
            az, dp = np.radians(t('azim')), np.radians(t('dip'))
            want = np.stack([np.sin(dp)*np.cos(az), np.sin(dp)*np.sin(az), np.cos(dp)], axis=-1)
            dot = np.abs(np.sum(n*want, axis=-1))
            if not np.all(dot > 1 - 1e-7):
                j = scene.first_bad(~(dot > 1 - 1e-7))
                problems.append('angles %g %g %g in layer, row, column %s for azimuth %g, dip %g' % (
                    np.degrees(a1[j]), np.degrees(a2[j]), np.degrees(a3[j]), j, np.degrees(az[j]), np.degrees(dp[j])))
            if not npf.xt3doptions.get_data():
                problems.append('anisotropy is not active')
            hin = hout = None
            if 'hin' in flow:
                hin, hout = flow['hin'][0], flow['hout'][0]
            elif 'gradh' in flow:
                hin, hout = 1 + model['lx']*flow['gradh'], 1.
            elif 'q_in' in flow:
                hout = 1.
            want = {}
            for lay, row in itertools.product(range(nz), range(ny)):
                if hin is not None:
                    want[(lay, row, 0)] = hin
                if hout is not None:
                    want[(lay, row, nx - 1)] = hout
            got = records(gwf.get_package('chd'), 'head')
            if set(got) != set(want) or any(abs(got[c] - want[c]) > 1e-6 for c in want):
                problems.append('constant heads %s instead of %s' % (sorted(got.items())[:4], sorted(want.items())[:4]))
            want = {(lay, row, 0): flow['q_in'] for lay, row in itertools.product(range(nz), range(ny))} if 'q_in' in flow else {}
            got = records(gwf.get_package('wel'), 'q')
            if flow.get('q_in') == 0. and not got:
                got = want
            if set(got) != set(want) or any(abs(got[c] - want[c]) > 1e-6 for c in want):
                problems.append('inflow %s instead of %s' % (sorted(got.items())[:4], sorted(want.items())[:4]))
            if hin is not None:
                if not np.allclose(ic.strt.array, np.broadcast_to(np.linspace(hin, hout, nx), sh), atol=1e-6):
                    problems.append('initial heads')
        except Exception as e:      # noqa: files that cannot be read
            problems.append('cannot be read: %r' % e)
    return Result(problems, [case['shape'], o.reals[-1].data['k_iso'], case['flow']], nz*case['num'])


def records(pkg, name):
    if pkg is None:
        return {}
    data = pkg.stress_period_data.get_data(0)
    return {tuple(int(x) for x in rec['cellid']): float(rec[name]) for rec in data} if data is not None else {}
