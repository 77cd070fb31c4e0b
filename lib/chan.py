"""Shared pieces of the channel checks."""
import numpy as np

from lib import scene, ref
from lib.rng import Chooser, gauss_pattern


class Wavy(Chooser):
    """Scalar normal draws follow a fixed generic pattern instead of the mean."""

    def __init__(self, salt=0, amp=1., **kw):
        super().__init__(**kw)
        self.count = 0
        self.amp = amp
        self.pattern = gauss_pattern((20000,), salt)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            self.count += 1
            return float(loc) + float(scale)*self.amp*self.pattern[self.count % 20000]
        return super().normal(loc, scale, size)


def straight(model, width, flow_angle, ds, offset):
    """Centreline points of an undisturbed channel at the given offset from the middle of the domain."""
    fa = np.radians(flow_angle)
    lx, ly = model['lx'], model['ly']
    dl = abs(lx*np.cos(fa)) + abs(ly*np.sin(fa))
    xs = model.get('x0', 0.) + lx/2 - (dl + width)/2*np.cos(fa) - offset*np.sin(fa)
    ys = model.get('y0', 0.) + ly/2 - (dl + width)/2*np.sin(fa) + offset*np.cos(fa)
    s = np.arange(0, 4*(dl + width), ds + 1e-10)
    px, py = xs + s*np.cos(fa), ys + s*np.sin(fa)
    x0 = model.get('x0', 0.)
    k = (px >= x0 - width) & (px <= x0 + lx + width)
    return px[k], py[k]


def domain_width(model, flow_angle):
    fa = np.radians(flow_angle)
    return abs(model['lx']*np.sin(fa)) + abs(model['ly']*np.cos(fa))


def levels(top, bottom, agg, buffer, depth):
    res, z = [], top - agg
    while z > bottom + buffer*depth + 1e-9:
        res.append(z)
        z -= agg
    return res


def objects(real):
    """The generated channels from the top (dicts), or None if they are not accessible."""
    try:
        return [dict(x=np.array(c.x_center), y=np.array(c.y_center), vx=np.array(c.vx), vy=np.array(c.vy), z=float(c.ztop))
                for s in real.strata for a in s.aes for c in a.object_list if hasattr(c, 'x_center')]
    except (AttributeError, TypeError):
        return None


def element(**kw):
    d = dict(geometry='channel', structure='massive', contact_model=['flat'], facies=['f1'], dip=[20., 20.], h=0.4, k=0.7,
             ds=0.25, eps_factor=0., channel_no=1, agg=0.5, width=1.5, depth=0.8, bg_facies='f3')
    d.update(kw)
    return d


def owner(chans, X, Y, Z):
    """(index of the topmost channel or -1, undecided)"""
    want = np.full(Z.shape, -1)
    und = np.zeros(Z.shape, bool)
    for i, c in enumerate(chans):
        ins, u = c.inside(X, Y, Z)
        und |= u & (want < 0)
        want[ins & (want < 0)] = i
    return want, und
