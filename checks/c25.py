"""C25: random fields have the requested covariance."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, cov

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is (grid, variance, correlation lengths, covariance model, 2-d or 3-d, selected cells, or a contact between two '
        'strata); the field generator is executed once for every single normal number that is drawn (answered by 1, all others '
        'by 0); mean and covariance of all pairs of cells are compared with the requested covariance function; outcome = '
        'covariance matrix')
BOUNDS = {'quick': '3-d: 8 grids x 4 sets of correlation lengths x 2 models x 3 variances; 2-d: 10 grids x 5 x 2 x 3; all non-empty '
                   'masks of a 3x3 and a 2x2x2 grid, 40 masks of a 4x3x3 grid; boxes of a 4x4x4 grid without one cell; contacts: 4 grids x 4 sets of parameters x 2 levels',
          'thorough': 'the same with grids up to 7x6x5 and 12x9, all masks of 4x3 and 2x2x3 grids, all boxes of 4x4x4 and 5x4x6 grids; contacts: 6 x 8 x 3'}
CASE_TIMEOUT = {'thorough': 600}

G3 = [(1, 1, 1), (2, 1, 1), (1, 3, 1), (1, 1, 4), (3, 2, 2), (2, 3, 4), (4, 4, 4), (5, 3, 2)]
G3T = [(7, 6, 5), (6, 6, 6), (8, 3, 5), (5, 5, 1)]
G2 = [(1, 1), (2, 1), (1, 4), (3, 3), (4, 4), (5, 3), (3, 6), (6, 5), (8, 1), (7, 8)]
G2T = [(12, 9), (9, 12), (11, 11)]
COR3 = [[1., 1., 1.], [3., 0.7, 1.3], [0.2, 5., 0.9], [20., 20., 20.]]
COR2 = [[1., 1.], [3., 0.7], [0.2, 5.], [20., 20.], [1.3, 0.4]]
VAR = [1., 0.04, 0.]
SP = (0.5, 0.8, 0.3)


def cases(tier):
    t = tier == 'thorough'
    for g, c, m, v in itertools.product(G3 + (G3T if t else []), COR3, ('gaussian', 'exp'), VAR):
        yield {'kind': 'full', 'shape': list(g), 'corl': c, 'mod': m, 'var': v}
    for g, c, m, v in itertools.product(G2 + (G2T if t else []), COR2, ('gaussian', 'exp'), VAR):
        yield {'kind': 'full', 'shape': list(g), 'corl': c, 'mod': m, 'var': v}
    for g in ((3, 3), (2, 2, 2)) + (((4, 3), (2, 2, 3)) if t else ()):
        n = int(np.prod(g))
        for b in range(1, 2**n):
            yield {'kind': 'mask', 'shape': list(g), 'corl': (COR3 if len(g) == 3 else COR2)[1], 'mod': ('exp', 'gaussian')[b % 2],
                   'var': 0.7, 'mask': [int(b >> i & 1) for i in range(n)]}
    for k in range(40):
        yield {'kind': 'mask', 'shape': [4, 3, 3], 'corl': COR3[k % 3], 'mod': 'exp', 'var': 0.7,
               'mask': [int((i*(2*k + 7) + i*i*(k % 5 + 1)) % 11 < 4 + k % 4) for i in range(36)]}
    # all boxes within a grid, with a cell missing
    for g in ((4, 4, 4),) + (((5, 4, 6),) if t else ()):
        spans = [[(a, b) for a in range(n) for b in range(a + 1, n + 1)] for n in g]
        for k, (x, y, z) in enumerate(itertools.product(*spans)):
            if not t and k % 3 and max(b - a for a, b in (x, y, z)) < 4:
                continue
            m = np.zeros(g, int)
            m[x[0]:x[1], y[0]:y[1], z[0]:z[1]] = 1
            if m.sum() > 4:
                m[x[0], y[0] + (k % (y[1] - y[0])), z[0] + (k//2 % (z[1] - z[0]))] = 0
            yield {'kind': 'mask', 'shape': list(g), 'corl': COR3[(k % 2) + 1], 'mod': ('exp', 'gaussian')[k//5 % 2], 'var': 0.7,
                   'mask': m.ravel().tolist()}
    grids = [(3, 2), (1, 4), (4, 1), (4, 3)] + ([(5, 4), (2, 6)] if t else [])
    params = [(0.2, 1., 1.), (0.05, 2., 0.5), (0.6, 0.4, 3.), (0.1, 10., 10.)]
    params += [(1., 1.5, 1.5), (0.01, 3., 1.), (0.3, 0.1, 0.1), (0.2, 1., 100.)] if t else []
    for g, p, z in itertools.product(grids, params, (2.0, 2.65) + ((1.3,) if t else ())):
        yield {'kind': 'contact', 'shape': list(g), 'p': list(p), 'z': z}


def check(case):
    return contact(case) if case['kind'] == 'contact' else field(case)


def compare(execute, want_mean, want, tol, problems):
    zero, resp, lin = cov.responses(execute)
    c = cov.covariance(zero, resp)
    if np.max(np.abs(zero - want_mean), initial=0) > tol:
        problems.append('mean %s instead of %s' % (zero[:5], want_mean))
    if lin > 1e-6 + 20*tol:
        problems.append('not linear in the noise: deviation %g' % lin)
    bad = np.abs(c - want) > tol
    if bad.any():
        i, j = (int(x) for x in np.argwhere(bad)[0])
        problems.append('covariance of cells %d and %d is %.6g instead of %.6g' % (i, j, c[i, j], want[i, j]))
    return c


def field(case):
    import hyvr.utils as hu
    from hyvr.geo.grid import Grid
    shape = case['shape']
    dim = len(shape)
    n = (shape + [3])[:3]
    grid = Grid(4., -7., 100., SP[0], SP[1], SP[2], n[0]*SP[0], n[1]*SP[1], n[2]*SP[2], False)
    if (grid.nx, grid.ny, grid.nz) != tuple(n):
        return Result(['grid of %s cells instead of %s' % ((grid.nx, grid.ny, grid.nz), n)], 'error')
    kw = dict(two_dim=dim == 2, covmod=case['mod'])
    mask = None
    if case['kind'] == 'mask':
        mask = np.array(case['mask'], dtype=bool).reshape(shape)
        if not mask.any():
            return Result([], 'empty', trivial=True)
        kw['selection_mask'] = mask
    count = [0]
    box, sel = shape, None
    if mask is not None:
        idx = np.argwhere(mask)
        lo, hi = idx.min(axis=0), idx.max(axis=0) + 1
        box = list(hi - lo)
        sel = mask[tuple(slice(a, b) for a, b in zip(lo, hi))].ravel()
    problems = []

    class Bad(Exception):
        pass

    def execute(noise):
        count[0] += 1
        with cov.Probe(noise) as ch:
            r = np.asarray(hu.specsim(grid, case['var'], case['corl'], **kw))
        if mask is None and list(r.shape) != shape:
            raise Bad('shape %s instead of %s' % (r.shape, shape))
        if mask is not None and r.shape != (int(mask.sum()),):
            raise Bad('%s values for %d cells' % (r.shape, mask.sum()))
        if not np.all(np.isfinite(r)) or np.iscomplexobj(r):
            raise Bad('values that are not finite')
        return r.ravel().copy(), ch.shapes
    want = cov.reference(tuple(box), SP, case['var'], case['corl'], case['mod'])
    if sel is not None:
        want = want[np.ix_(sel, sel)]
    try:
        c = compare(execute, 0., want, 1e-9, problems)
    except Bad as e:
        return Result([str(e)], 'error')
    except Exception as e:      # noqa: an error of the code under test
        return Result(['failed: %r' % e], 'error')
    return Result(problems, np.round(c, 9), int(np.prod(box)), evaluations=count[0])


DZ = 0.02


def contact(case):
    """The level of a random contact in every column, observed by the number of cells below it."""
    nx, ny = case['shape']
    var, cx, cy = case['p']
    z0 = -1.
    model = dict(dx=SP[0], dy=SP[1], dz=DZ, lx=SP[0]*nx, ly=SP[1]*ny, lz=6., x0=3., z0=z0, hydraulics=False)
    sh = dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f0'], lens_thickness=-1)
    st = dict(strata=['s0', 's1'], strata_contact_models=[['random', case['z'], var, cx, cy]], ae=['a', 'b'],
              ae_in_strata=[['a'], ['b']], ae_prob=[[1.]]*2, ae_z_mean=[[1e6]]*2, avul_prob=[[0]]*2, avul=[[0, 0]]*2,
              bg_facies=['f0']*2, bg_azim=[0.]*2, bg_dip=[0.]*2)
    text = scene.ini({}, model, st, {'a': sh, 'b': sh}, scene.hydraulics())
    count = [0]
    problems = []

    class Bad(Exception):
        pass

    def execute(noise):
        count[0] += 1
        ch = cov.Probe(noise)
        o = scene.run(text, chooser=ch)
        if o.error:
            raise Bad(o.error)
        s = o.reals[0].data['strata']
        below = (s == 1)
        if np.any(below[:, :, 1:] & ~below[:, :, :-1]):
            raise Bad('the contact is not a surface')
        return z0 + DZ*below.sum(axis=2).ravel(), ch.shapes
    want = cov.reference((nx, ny), SP[:2], var, (cx, cy), 'gaussian')
    sd = float(np.sqrt(np.max(np.diag(want))))
    # large impulses: the levels are only known up to the size of the cells
    amp = 1.2/max(sd, 1e-3)
    c = np.zeros((nx*ny, nx*ny))
    num = 0
    try:
        zero, shapes = execute(lambda i, s: None)
        for k, shp in enumerate(shapes):
            for j in range(int(np.prod(shp))):
                r, _ = execute(lambda i, s: amp*cov.impulse(s, j) if i == k else None)
                r = (r - zero)/amp
                c += np.outer(r, r)
                num += 1
    except Bad as e:
        return Result(['failed: %s' % e], 'error')
    err = DZ/amp               # error of every response
    tol = 2*np.sqrt(num)*err*sd + num*err**2 + 1e-9
    if np.max(np.abs(zero - case['z'])) > DZ:
        problems.append('mean level %g instead of %g' % (zero[0], case['z']))
    bad = np.abs(c - want) > tol
    if bad.any():
        i, j = (int(x) for x in np.argwhere(bad)[0])
        problems.append('covariance of the columns %d and %d is %.4g instead of %.4g +- %.4g' % (i, j, c[i, j], want[i, j], tol))
    return Result(problems, np.round(c, 6), num, evaluations=count[0])
