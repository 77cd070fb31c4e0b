"""
Reference geometry, written from the documentation (methods.rst, inout.rst) and
independent of HyVR's code.  All functions are vectorised over the whole grid.

Decisions that are closer than EPS (relative to the size of the object) to a
boundary are reported as undecided; nothing is claimed about those cells.
"""
import numpy as np

EPS = 1e-7


def mesh(model):
    from lib import scene
    x, y, z = scene.cell_centres(model)
    return np.meshgrid(x, y, z, indexing='ij')


def normal(azim, dip):
    """Upward normal of a bedding plane."""
    k, p = np.radians(azim), np.radians(dip)
    return np.array([np.sin(p)*np.cos(k), -np.sin(p)*np.sin(k), np.cos(p)])


def wrap(d, length):
    d = np.where(d > length/2, d - length, d)
    return np.where(d < -length/2, d + length, d)


class Trough:
    """Lower half of an ellipsoid, rotated by alpha around the vertical."""

    def __init__(self, model, xyz, length, width, depth, alpha=0., ztrend=None):
        self.model, self.xyz = model, xyz
        f = 1.
        if ztrend is not None:
            f = ztrend[0] + (xyz[2] - model.get('z0', 0.))/model['lz']*(ztrend[1] - ztrend[0])
        self.a, self.b, self.c = length*f/2, width*f/2, depth*f
        self.alpha = alpha

    def local(self, X, Y, Z):
        m = self.model
        dx, dy, dz = X - self.xyz[0], Y - self.xyz[1], Z - self.xyz[2]
        if m.get('periodic'):
            dx, dy = wrap(dx, m['lx']), wrap(dy, m['ly'])
        return dx, dy, dz

    def dist(self, X, Y, Z):
        """normalized distance to the centre (1 = surface of the ellipsoid)"""
        dx, dy, dz = self.local(X, Y, Z)
        c, s = np.cos(np.radians(self.alpha)), np.sin(np.radians(self.alpha))
        u, v, w = (dx*c + dy*s)/self.a, (-dx*s + dy*c)/self.b, dz/self.c
        return np.sqrt(u**2 + v**2 + w**2)

    def inside(self, X, Y, Z):
        """(certainly inside, undecided)"""
        dx, dy, dz = self.local(X, Y, Z)
        r = self.dist(X, Y, Z)
        ins = (r <= 1) & (dz <= 0)
        und = (np.abs(r - 1) < EPS) & (dz <= EPS) | (np.abs(dz) < EPS) & (r < 1 + EPS)
        if self.model.get('periodic'):
            # exactly half a period away: two nearest images
            m = self.model
            tie = (np.abs(np.abs(dx) - m['lx']/2) < EPS*m['lx']) | (np.abs(np.abs(dy) - m['ly']/2) < EPS*m['ly'])
            und = und | tie & (r < 1 + EPS)
        return ins & ~und, und

    def gradient(self, X, Y, Z):
        """unit normals of the ellipsoids through the cells (nan at the centre)"""
        dx, dy, dz = self.local(X, Y, Z)
        c, s = np.cos(np.radians(self.alpha)), np.sin(np.radians(self.alpha))
        u, v = (dx*c + dy*s)/self.a**2, (-dx*s + dy*c)/self.b**2
        g = np.stack([u*c - v*s, u*s + v*c, dz/self.c**2], axis=-1)
        with np.errstate(invalid='ignore', divide='ignore'):
            return g/np.linalg.norm(g, axis=-1, keepdims=True)


class Channel:
    """Extruded parabola along a polyline of points at the level ztop."""

    def __init__(self, px, py, ztop, width, depth):
        self.px, self.py = np.asarray(px), np.asarray(py)
        self.ztop, self.width, self.depth = ztop, width, depth

    def dist(self, X, Y):
        d = np.full(X.shape, np.inf)
        arg = np.zeros(X.shape, dtype=int)
        for i in range(len(self.px)):
            e = np.hypot(X - self.px[i], Y - self.py[i])
            arg = np.where(e < d, i, arg)
            d = np.minimum(d, e)
        return d, arg

    def inside(self, X, Y, Z):
        D, _ = self.dist(X[:, :, 0], Y[:, :, 0])
        D = D[:, :, None]
        h = (Z - self.ztop) - (4*self.depth/self.width**2*D**2 - self.depth)
        top = Z - self.ztop
        ins = (h >= 0) & (top <= 0)
        und = ((np.abs(h) < EPS) & (top <= EPS)) | ((np.abs(top) < EPS) & (h >= -EPS))
        return ins & ~und, und


def phases(u, codes, period, mask=None):
    """
    Is there a shift s and a numbering such that codes == (+-floor(u - s) + phase) mod period
    for all cells?  u: layer coordinate in units of the layer thickness.
    Cells within EPS of a layer boundary are left out.
    """
    u, codes = np.asarray(u, float).ravel(), np.asarray(codes).ravel() % period
    if len(u) == 0:
        return True
    fr = np.sort(np.unique(np.round(np.mod(u, 1), 9)))
    fr = fr[np.concatenate([[True], np.diff(fr) > 10*EPS])]
    cand = (fr + np.concatenate([fr[1:], [fr[0] + 1]]))/2
    for s in cand:
        n = np.floor(u - s).astype(int)
        for sign in (1, -1):
            ph = (codes[0] - sign*n[0]) % period
            if np.array_equal((sign*n + ph) % period, codes):
                return True
    return False


def layering(u, facies, follow):
    """
    Is there a shift such that every layer has one facies, and adjacent layers obey ``follow``
    (dict facies -> set of allowed next ones, in one of both directions)?
    """
    u, facies = np.asarray(u, float).ravel(), np.asarray(facies).ravel()
    if len(u) == 0:
        return True
    fr = np.sort(np.unique(np.round(np.mod(u, 1), 9)))
    fr = fr[np.concatenate([[True], np.diff(fr) > 10*EPS])]
    cand = (fr + np.concatenate([fr[1:], [fr[0] + 1]]))/2
    for s in cand:
        n = np.floor(u - s).astype(int)
        layers = {}
        ok = True
        for i in np.unique(n):
            fs = np.unique(facies[n == i])
            if len(fs) != 1:
                ok = False
                break
            layers[int(i)] = int(fs[0])
        if not ok:
            continue
        pairs = [(layers[i], layers[i+1]) for i in layers if i + 1 in layers]
        if follow is None or all(b in follow[a] for a, b in pairs) or all(a in follow[b] for a, b in pairs):
            return True
    return False


def ktensor(k, azim, dip, anirat):
    """K = k R diag(1, 1, 1/anirat) R^T with the minor axis along the bedding normal."""
    n = np.stack([np.sin(np.radians(dip))*np.cos(np.radians(azim)),
                  -np.sin(np.radians(dip))*np.sin(np.radians(azim)),
                  np.cos(np.radians(dip))], axis=-1)
    eye = np.broadcast_to(np.eye(3), n.shape[:-1] + (3, 3))
    nn = n[..., :, None]*n[..., None, :]
    return np.asarray(k)[..., None, None]*(eye - (1 - 1/np.asarray(anirat))[..., None, None]*nn)
