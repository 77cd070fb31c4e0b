"""
Exact second moments of the random fields of an execution.

All fields are linear functions of the standard normal numbers that were drawn.  Executing the code with impulses instead
of random numbers yields this linear function, and thereby the covariance of any two cells, whatever the way in
which the numbers are used.
"""
import numpy as np

from lib.rng import Chooser, gauss_pattern


class Probe(Chooser):
    """Answers the i-th draw of normal numbers with noise(i, shape)."""

    def __init__(self, noise, **kw):
        super().__init__(**kw)
        self.noise = noise
        self.shapes = []

    def field(self, shape):
        self.shapes.append(tuple(shape))
        r = self.noise(len(self.shapes) - 1, tuple(shape))
        return np.zeros(shape) if r is None else r


def impulse(shape, j):
    r = np.zeros(shape)
    if j < r.size:
        r.flat[j] = 1.
    return r


def responses(execute):
    """
    ``execute(noise)`` -> (vector of results, shapes of the draws).
    Returns (result without noise, list of (support, response matrix) per draw, deviation from linearity).
    """
    zero, shapes = execute(lambda i, s: None)
    single = []
    for d in range(len(shapes)):
        r, sh = execute(lambda i, s: gauss_pattern(s, d) if i == d else None)
        if sh != shapes:
            raise AssertionError('the number of draws depends on the drawn values')
        single.append(r - zero)
    full, _ = execute(lambda i, s: -2*gauss_pattern(s, i))
    lin = float(np.max(np.abs(full - zero + 2*sum(single)))) if single else 0.
    support = [np.abs(r) > 1e-13 for r in single]
    # draws that do not influence a common cell are probed together
    groups = []
    for d in range(len(shapes)):
        if not support[d].any():
            continue
        for g in groups:
            if not any((support[d] & support[e]).any() for e in g):
                g.append(d)
                break
        else:
            groups.append([d])
    mats = {}
    for g in groups:
        for d in g:
            mats[d] = np.zeros((int(np.prod(shapes[d])), int(support[d].sum())))
        for j in range(max(int(np.prod(shapes[d])) for d in g)):
            r, _ = execute(lambda i, s: impulse(s, j) if i in g else None)
            r = r - zero
            for d in g:
                if j < mats[d].shape[0]:
                    mats[d][j] = r[support[d]]
    return zero, [(support[d], mats[d]) for d in sorted(mats)], lin


def covariance(zero, resp):
    n = len(zero)
    c = np.zeros((n, n))
    for sup, m in resp:
        i = np.where(sup)[0]
        c[np.ix_(i, i)] += m.T @ m
    return c


def reference(shape, spacing, var, corl, covmod):
    """
    Covariance matrix of the cells of a box: periodic field with the given covariance function (values of the function at
    the distances from the centre of the box, modulus of its spectrum), without its mean.
    """
    ax = [d*(np.arange(n) - (n - 1)/2)/c for n, d, c in zip(shape, spacing, corl)]
    h2 = sum(g**2 for g in np.meshgrid(*ax, indexing='ij'))
    r = var*(np.exp(-h2) if covmod == 'gaussian' else np.exp(-np.sqrt(h2)))
    s = np.abs(np.fft.fftn(r))
    s.flat[0] = 0
    lag = np.real(np.fft.ifftn(s))
    idx = np.indices(shape).reshape(len(shape), -1)
    diff = (idx[:, :, None] - idx[:, None, :]) % np.array(shape)[:, None, None]
    return lag[tuple(diff)]
