"""
Controlled nondeterminism.

All randomness of HyVR comes from numpy.random.  ``Chooser`` replaces those
functions: every draw becomes a choice point with a small alphabet of answers
(the extremes, the middle and a generic value of the requested distribution).
An execution is determined by its deviations ``{position: alternative}`` from
the default answers; ``points`` lists the choice points it went through, which
yields the successors for a deviation-bounded exploration.
"""
import numpy as np

FRACTIONS = (0.28125, 0.0, 0.9990234375, 0.5)


def gauss_pattern(shape, salt=0):
    """A deterministic, generic looking array with mean about 0, variance about 1."""
    n = int(np.prod(shape)) if len(shape) else 1
    i = np.arange(n, dtype=np.float64) + 1 + 37*salt
    u = np.modf(i*0.6180339887498949 + 0.137)[0]
    v = np.modf(i*i*0.4142135623730951 + i*0.7320508075688772)[0]
    g = np.sqrt(-2*np.log(u*0.98 + 0.01))*np.cos(2*np.pi*v)
    return g.reshape(shape)


def _size(size):
    if size is None:
        return None
    if isinstance(size, (int, np.integer)):
        return (int(size),)
    return tuple(int(s) for s in size)


class Chooser:
    NAMES = ('rand', 'randn', 'uniform', 'normal', 'choice', 'poisson', 'randint', 'random',
             'random_sample', 'ranf', 'sample', 'standard_normal', 'permutation', 'shuffle', 'seed',
             'integers', 'lognormal', 'default_rng', 'RandomState')

    def __init__(self, deviations=(), fractions=FRACTIONS, fields='all', skip=(), weighted=0):
        self.dev = {int(p): int(a) for p, a in deviations}
        self.points = []          # number of alternatives per choice point
        self.kinds = []
        self.lams = []            # all means passed to poisson()
        self.alternatives = {}    # choice(): indices of the items per alternative
        self.fractions = fractions
        self.fields = fields
        self.skip = skip          # kinds that are never explored (always default)
        self.weighted = weighted  # if > 0: alternatives of choice() occur in proportion to p (in 1/weighted)

    # -- choice points -----------------------------------------------------
    def pick(self, kind, alternatives):
        n = len(alternatives)
        if n == 1:
            return alternatives[0]
        if kind in self.skip:
            return alternatives[0]
        pos = len(self.points)
        if kind == 'choice':
            self.alternatives[pos] = list(alternatives)
        self.points.append(n)
        self.kinds.append(kind)
        a = self.dev.get(pos, 0)
        return alternatives[a if a < n else 0]

    def children(self, bound):
        """Deviation lists of the successors of this execution."""
        if len(self.dev) >= bound:
            return []
        start = max(self.dev) + 1 if self.dev else 0
        base = sorted([p, a] for p, a in self.dev.items())
        return [base + [[p, a]] for p in range(start, len(self.points))
                for a in range(1, self.points[p])]

    # -- distributions -----------------------------------------------------
    def uniform(self, low=0.0, high=1.0, size=None):
        size = _size(size)
        low_a, high_a = np.broadcast_arrays(np.asarray(low, dtype=float), np.asarray(high, dtype=float))
        if size is None and low_a.ndim:
            size = low_a.shape
        if size is None:
            low, high = float(low), float(high)
            if low == high:
                return low
            return low + self.pick('uniform', self.fractions)*(high - low)
        n = int(np.prod(size))
        if np.all(low_a == high_a) or n == 0:
            return low_a + np.zeros(size)
        if n == 1:
            f = np.full(size, self.pick('uniform', self.fractions))
        else:
            gen = np.modf(0.28125 + 0.3818*np.arange(n))[0].reshape(size)
            f = self.pick('uniforms', [gen] + [np.full(size, x) for x in self.fractions[1:]])
        return low_a + f*(high_a - low_a)

    def rand(self, *shape):
        return self.uniform(0., 1., shape if shape else None)

    def random(self, size=None):
        return self.uniform(0., 1., size)

    random_sample = ranf = sample = random

    def normal(self, loc=0.0, scale=1.0, size=None):
        size = _size(size)
        if size is None and np.ndim(loc) == 0 and np.ndim(scale) == 0:
            if scale == 0:
                return float(loc)
            return float(loc) + self.pick('normal', (0., 2., -2.))*float(scale)
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return loc + scale*self.field(size)

    def randn(self, *shape):
        if not shape:
            return self.pick('normal', (0., 2., -2.))
        return self.field(tuple(int(s) for s in shape))

    def standard_normal(self, size=None):
        return self.randn(*(_size(size) or ()))

    def lognormal(self, mean=0., sigma=1., size=None):
        return np.exp(self.normal(mean, sigma, size))

    def field(self, shape):
        salt = getattr(self, '_salt', 0)
        self._salt = salt + 1
        if self.fields == 'generic':
            return gauss_pattern(shape, salt)
        g = gauss_pattern(shape, salt)
        return self.pick('field', [g, np.zeros(shape), -2*g])

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer)):
            a = list(range(int(a)))
        items = list(a)
        if p is None:
            if len(items) == 0:
                raise ValueError("'a' cannot be empty unless no samples are taken")
            ok = list(range(len(items)))
        else:
            p = np.asarray(p, dtype=float)
            if len(p) != len(items):
                raise ValueError("'a' and 'p' must have same size")
            if np.any(np.isnan(p)) or np.any(p < 0) or abs(p.sum() - 1) > 1e-6:
                raise ValueError('probabilities do not sum to 1')
            ok = [i for i in range(len(items)) if p[i] > 0]

        def conv(x):
            return np.int64(x) if isinstance(x, int) and not isinstance(x, bool) else x
        size = _size(size)
        if size is None:
            if self.weighted:
                w = p if p is not None else np.full(len(items), 1/len(items))
                ok = [i for i in ok for _ in range(int(round(w[i]*self.weighted)))]
            return conv(items[self.pick('choice', ok)])
        n = int(np.prod(size))
        pats = [[ok[(i*7 + i//3) % len(ok)] for i in range(n)]] + [[o]*n for o in ok]
        if len(ok) == 1:
            pats = pats[:1]
        idx = self.pick('choices', pats)
        out = np.array([items[i] for i in idx])
        return out.reshape(size)

    def poisson(self, lam=1.0, size=None):
        self.lams.extend(np.ravel(lam).tolist())
        if size is not None or np.ndim(lam):
            shape = _size(size) or np.shape(lam)
            n = len(self.lams)
            res = np.full(shape, self.poisson(float(np.max(lam))), dtype=np.int64)
            del self.lams[n:]
            return res
        if lam < 0 or lam != lam:
            raise ValueError('lam < 0 or lam contains NaNs')
        if lam == 0:
            return 0
        d = min(3, max(1, int(round(float(lam)))))
        return int(self.pick('poisson', (d, 0, d + 1)))

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        vals = list(range(int(low), int(high) + (1 if endpoint else 0)))
        if not vals:
            raise ValueError('low >= high')
        if size is None:
            return int(self.pick('randint', vals))
        shape = _size(size)
        return self.choice(vals, size=shape)

    integers = randint

    def permutation(self, x):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        return self.pick('permutation', [x, x[::-1].copy()])

    def shuffle(self, x):
        if self.pick('permutation', [0, 1]):
            x[:] = list(x)[::-1]

    def seed(self, *a, **k):
        return None

    def default_rng(self, *a, **k):
        return self

    RandomState = default_rng

    def next_realization(self):
        pass

    # -- installation ------------------------------------------------------
    def __enter__(self):
        self._outer = _current[0]
        _current[0] = self
        # these are classes or factories, which are only replaced while HyVR runs
        self._old = {n: getattr(np.random, n) for n in FACTORIES}
        for n in FACTORIES:
            setattr(np.random, n, getattr(self, n))
        return self

    def __exit__(self, *exc):
        _current[0] = self._outer
        for n, f in self._old.items():
            setattr(np.random, n, f)
        return False


FACTORIES = ('default_rng', 'RandomState')
_current = [None]


def _install():
    """
    Replaces the functions of numpy.random once and for all (before HyVR is imported, so that it does not matter how
    HyVR imports them); they ask the active chooser, if there is one.
    """
    def make(name, real):
        def draw(*args, **kw):
            if _current[0] is None:
                return real(*args, **kw)
            return getattr(_current[0], name)(*args, **kw)
        draw.__name__ = name
        return draw
    for n in Chooser.NAMES:
        if n not in FACTORIES and hasattr(np.random, n):
            setattr(np.random, n, make(n, getattr(np.random, n)))


_install()


class Taped(Chooser):
    """Answers depend only on the seed of the current realization and the position within it."""

    def __init__(self, seeds):
        Chooser.__init__(self)
        self.seeds = list(seeds)
        self.number = 0
        self.pos = 0
        self.draws = []           # kinds of the draws per realization
        self.draws.append([])

    def pick(self, kind, alternatives):
        seed = self.seeds[min(self.number, len(self.seeds) - 1)]
        h = (seed*2654435761 + (self.pos + 1)*40503*(2*seed + 1)) % (1 << 32)
        h ^= h >> 13
        self.pos += 1
        self.draws[-1].append(kind)
        return alternatives[(h*seed >> 3) % len(alternatives) if seed else 0]

    def next_realization(self):
        self.number += 1
        self.pos = 0
        self._salt = 0
        self.draws.append([])
