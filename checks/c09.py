"""C09: contacts between strata never cross; the contact above limits the one below."""
import itertools

import numpy as np

from lib.engine import Result
from lib import scene, ref
from lib.rng import Chooser, gauss_pattern

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is a sequence of contacts between up to 4 strata, each flat or random with its own level, variance and '
        'correlation lengths, in every order (also crossing each other and leaving the domain), with a given noise; the '
        'stratum of every cell is compared with the nesting of the contacts, where a random contact is observed by running '
        'a model which has no other contact; the strata consist of one or of several elements with flat or random contacts; outcome = array of strata')
BOUNDS = {'quick': 'all sequences of 0-2 contacts over 12 contacts with 6 noises (those of 0-2 also with elements of mean thickness 0.7 and 0.3), all sequences of 3 contacts over 12, with 3 origins',
          'thorough': 'all sequences of 0-3 contacts over 12 contacts with 6 noises (those of 0-2 also with elements of mean thickness 0.7 and 0.3), all sequences of 4 contacts over 12, with 3 origins'}

CONTACTS = [['flat', 1.1], ['flat', 2.1], ['flat', 0.3], ['flat', 3.6], ['flat', 7.], ['flat', -5.],
            ['random', 2.1, 0.5, 2., 3.], ['random', 1.1, 2., 1., 1.], ['random', 2.1, 0., 2., 2.], ['random', 3.6, 1., 4., 1.],
            ['random', -0.4, 0.5, 2., 2.], ['random', 4.4, 0.5, 1., 2.]]
MODEL = dict(dx=1., dy=0.5, dz=0.25, lx=4., ly=2.5, lz=4., z0=0., x0=-1., hydraulics=False)
NOISES = ['g', '-2g', 'h', 'zero', '5g', '-5h']


class Fixed(Chooser):
    """All fields are the same pattern, whatever the order of the draws."""

    def __init__(self, noise, **kw):
        super().__init__(**kw)
        self.noise = noise

    def field(self, shape):
        f = float(self.noise[:-1].replace('-', '-1') if self.noise[:-1] == '-' else self.noise[:-1] or 1) \
            if self.noise != 'zero' else 0.
        return f*gauss_pattern(shape, 0 if self.noise[-1] != 'h' else 5)


ORIGINS = [0., -7.25, 3.5]


def cases(tier):
    count = 0
    for n in (0, 1, 2, 3, 4) if tier == 'thorough' else (0, 1, 2, 3):
        for cs in itertools.product(CONTACTS, repeat=n):
            count += 1
            for no in NOISES if n < (4 if tier == 'thorough' else 3) else ['g']:
                for z0 in ORIGINS if n < 2 else [ORIGINS[count % 3]]:
                    case = {'contacts': [[c[0], c[1] + z0] + c[2:] for c in cs], 'noise': no, 'z0': z0}
                    yield case
                    # the contacts of the elements inside the strata do not change those of the strata
                    if n < 3 and (n < 2 or no in 'gh' or tier == 'thorough'):
                        for t in THIN:
                            yield dict(case, thin=t)


THIN = [[0.7, ['flat']], [0.3, ['random', 0.3, 2., 2.]]]


def run(contacts, noise, z0, thickness=1e6, inner=('flat',)):
    n = len(contacts) + 1
    names = ['sh%d' % i for i in range(n)]
    el = {nm: dict(geometry='sheet', structure='massive', contact_model=list(inner), facies=['f%d' % i], dip=[i, i],
                   azimuth=[10*i, 10*i], lens_thickness=-1) for i, nm in enumerate(names)}
    st = dict(strata=['s%d' % i for i in range(n)], strata_contact_models=[[c for c in cs] for cs in contacts],
              ae=names, ae_in_strata=[[nm] for nm in names], ae_prob=[[1.]]*n, ae_z_mean=[[thickness]]*n, avul_prob=[[0]]*n,
              avul=[[0, 0]]*n, bg_facies=['f4']*n, bg_azim=[0.]*n, bg_dip=[0.]*n)
    return scene.run(scene.ini({}, dict(MODEL, z0=z0), st, el, scene.hydraulics()), chooser=Fixed(noise))


_cache = {}


def below(contact, noise, X, Y, Z, z0):
    """(cells below the contact, undecided), or an error"""
    if contact[0] == 'flat' or contact[2] == 0:
        z = contact[1]
        return (Z < z), np.abs(Z - z) < 1e-6
    key = repr((contact, noise, z0))
    if key not in _cache:
        o = run([contact], noise, z0)
        _cache[key] = o.error or o.reals[0].data['strata'] == 1
    r = _cache[key]
    if isinstance(r, str):
        return r, None
    return r, np.zeros(Z.shape, bool)


def check(case):
    z0 = case['z0']
    X, Y, Z = ref.mesh(dict(MODEL, z0=z0))
    o = run(case['contacts'], case['noise'], z0, *case.get('thin', []))
    if o.error:
        return Result(['failed: ' + o.error], 'error')
    data = o.reals[0].data
    problems = []
    n = len(case['contacts']) + 1
    # contacts are listed from bottom to top
    want = np.zeros(Z.shape, int)
    und = np.zeros(Z.shape, bool)
    acc = np.ones(Z.shape, bool)
    for c in case['contacts'][::-1]:
        b, u = below(c, case['noise'], X, Y, Z, z0)
        if isinstance(b, str):
            return Result(['failed: ' + b], 'error')
        # a random contact has the given level as mean, it is a surface: everything below is below
        if np.any(b[:, :, 1:] & ~b[:, :, :-1]):
            problems.append('contact %s is not a surface' % c)
        acc = acc & b
        und |= u
        want += acc
    bad = (data['strata'] != want) & ~und
    if bad.any():
        i = scene.first_bad(bad)
        problems.append('cell %s is in stratum %d from the top instead of %d' % (i, data['strata'][i], want[i]))
    # the strata of the ini-file are listed from bottom to top, each has its own type
    for key, val in (('facies', n - 1 - data['strata']), ('hat', n - 1 - data['strata']), ('dip', n - 1 - data['strata']),
                     ('azim', 10.*(n - 1 - data['strata']))):
        if not np.array_equal(data[key], val):
            problems.append('%s does not belong to the stratum' % key)
    for c in case['contacts']:
        if c[0] == 'random' and c[2] > 0 and case['noise'] == 'g' and n == 2:
            frac = z0 + data['strata'].sum(axis=2)*MODEL['dz']
            full = (frac > z0) & (frac < z0 + MODEL['lz'])
            if full.all() and abs(np.mean(frac) - c[1]) > MODEL['dz']/2 + 1e-6:
                problems.append('mean level of the contact is %g instead of %g' % (np.mean(frac), c[1]))
    return Result(problems, data['strata'], n)
