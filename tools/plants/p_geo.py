G = 'hyvr/geo/'
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, ext=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, ext=ext))


STRATA3 = r'''
s3 = dict(strata=['s0', 's1', 's2'], strata_contact_models=[['flat', 1.2], ['flat', 2.7]],
         ae=['a'], ae_in_strata=[['a']]*3, ae_prob=[[1.]]*3, ae_z_mean=[[99.]]*3, avul_prob=[[0]]*3, avul=[[0, 0]]*3,
         bg_facies=['f0']*3, bg_azim=[0.]*3, bg_dip=[0.]*3)
'''

bug('c08-arange', 'C08',
    [(G + 'grid.py', "        self.z = np.arange(z0+dz/2, z0+lz, dz)", "        self.z = np.arange(z0, z0+lz, dz) + dz/2")],
    'a spacing whose multiples are not exact, e.g. lz = 0.6 and dz = 0.2 with an origin',
    'an additional layer of cells above the domain',
    r'''
for n, d, z0 in [(3, 0.1, 0.), (3, 0.2, 0.), (7, 0.1, 1.), (6, 0.3, 0.1), (3, 0.7, 0.3)]:
    o = ok(model(a=sheet(), grd=dict(dx=1., dy=1., dz=d, lx=2., ly=2., lz=n*d, z0=z0, hydraulics=False)))
    expect(o.data['facies'].shape == (2, 2, n), (n, d, z0, o.data['facies'].shape))
''')

bug('c09-clip', 'C09',
    [(G + 'contact_surface.py', "    def use_lower_surface_value(self, other_surface: ContactSurface ):\n        other_surf = other_surface.surface\n        for i in range(self.nx):",
      "    def use_lower_surface_value(self, other_surface: ContactSurface ):\n        other_surf = other_surface.surface\n        for i in range(self.ny):")],
    'contacts that cross, in a domain with fewer rows in y than in x',
    'contacts are only limited by the one above in part of the domain',
    STRATA3 + r'''
for z1 in (1.2, 2.2):
    for cm in ([['flat', 2.7], ['flat', z1]], [['flat', 2.7], ['random', z1, 0.5, 1., 1.]], [['random', 2.7, 0.5, 1., 1.], ['flat', z1]]):
        s3['strata_contact_models'] = cm
        for seed in range(5):
            o = ok(model(6, 2, 4, a=sheet(lens_thickness=0.7), strata=s3, grd=dict(hydraulics=False)), seed=seed)
            expect((o.data['ae'] >= 0).all() and (o.data['facies'] >= 0).all())
            s = o.data['strata']
            expect((np.diff(s, axis=2) <= 0).all())
''')

bug('c09-z0', 'C09',
    [(G + 'model.py', "bottom_surface = ContactSurface(self.grid, mode='flat', z=self.grid.z0)",
      "bottom_surface = ContactSurface(self.grid, mode='flat', z=self.grid.zmax - self.grid.lz - min(self.grid.z0, 0))")],
    'a model whose origin lies below zero',
    'the lowest stratum does not extend to the bottom of the domain',
    r'''
o = ok(model(2, 2, 4, a=sheet(facies=['f1']), grd=dict(z0=-2., hydraulics=False)))
expect((o.data['ae'] >= 0).all() and (o.data['facies'] == 1).all())
''')

bug('c11-zmin', 'C11',
    [(G + 'ae_realization.py', "        if object_.zmin < self.zmin:\n            self.zmin = object_.zmin\n", "")],
    'a trough that cuts through the bottom of its element',
    'the part of the trough below its element is not eroded',
    r'''
s = dict(strata=['s0', 's1'], strata_contact_models=[['flat', 4.]], ae=['b', 'a'], ae_in_strata=[['b'], ['a']],
         ae_prob=[[1.], [1.]], ae_z_mean=[[99.], [99.]], avul_prob=[[0], [0]], avul=[[0, 0], [0, 0]],
         bg_facies=['f0', 'f0'], bg_azim=[0., 0.], bg_dip=[0., 0.])
o = ok(model(5, 5, 6, b=sheet(), a=trough(te_xyz=[[2.5, 2.5, 5.]], depth=4., length=5., width=5.), strata=s, grd=dict(hydraulics=False)))
expect(list(o.data['facies'][2, 2]) == [0, 1, 1, 1, 1, 0], o.data['facies'][2, 2])
''', ext=True)

bug('c11-oi', 'C11',
    [('hyvr/assign_points.py', "            # if we're below the current AE, we can go search in the next one\n            oi = 0\n            aei += 1",
      "            # if we're below the current AE, we can go search in the next one\n            aei += 1")],
    'an element with several objects above another one in the same stratum, both with objects',
    'the search in the lower element starts behind its first objects',
    r'''
bad = 0
for seed in range(6):
    o = ok(model(3, 3, 12, a=sheet(facies=['f0', 'f1', 'f2'], lens_thickness=1.), strata=dict(ae_z_mean=[[4.]]), grd=dict(hydraulics=False)), seed=seed)
    bad += int((o.data['ae'] < 0).sum())
    for i in range(1, 12):
        # every cell of a column has its own sheet, so the numbers change at every step
        bad += int((o.data['ha'][:, :, i] > o.data['ha'][:, :, i-1]).sum())
    ae = o.data['ae'][0, 0][::-1]
    bad += int((np.diff(ae) > 1).any())
expect(bad == 0, bad)
''')

bug('c12-mean', 'C12',
    [(G + 'sheet_ae.py', "            zfactor = np.interp(np.mean([self.zmin, self.zmax]),", "            zfactor = np.interp(np.mean([grid.z0, self.zmax]),")],
    'a size trend and a sheet element that does not reach down to the bottom of the domain',
    'the thickness of sheets is scaled with the factor of another depth',
    r'''
s = dict(strata=['s0', 's1'], strata_contact_models=[['flat', 8.]], ae=['b', 'a'], ae_in_strata=[['b'], ['a']],
         ae_prob=[[1.], [1.]], ae_z_mean=[[99.], [99.]], avul_prob=[[0], [0]], avul=[[0, 0], [0, 0]],
         bg_facies=['f0', 'f0'], bg_azim=[0., 0.], bg_dip=[0., 0.])
o = ok(model(1, 1, 48, 0.25, b=sheet(), a=sheet(lens_thickness=1., size_ztrend=[0., 2.4]), strata=s, grd=dict(hydraulics=False)))
# mean level 10 of 12: factor 2
expect(len(np.unique(o.data['ha'][0, 0, 33:])) == 2, o.data['ha'][0, 0])
''')

bug('c12-trunc', 'C12',
    [(G + 'sheet_ae.py', "            n = int(np.floor(d/self.object_layer_dist[oi])) + self.object_num_facies[oi]//2",
      "            n = int(d/self.object_layer_dist[oi]) + self.object_num_facies[oi]//2")],
    'a sheet with dipping beds, cells on both sides of the zero plane',
    'the bed at the zero plane has twice the given thickness',
    r'''
for seed in range(4):
    o = ok(model(40, 1, 1, 0.5, a=sheet(structure='dip', dipset_dist=1., dip=[90., 90.], facies=['f0', 'f1'], altfacies=[['f1'], ['f0']]), grd=dict(hydraulics=False)), seed=seed)
    f = o.data['facies'][:, 0, 0]
    runs = np.diff(np.flatnonzero(np.concatenate(([True], f[1:] != f[:-1], [True]))))
    expect(runs[1:-1].max() <= 2, runs)
''')

bug('c12-bottom', 'C12',
    [(G + 'sheet_ae.py', "                bottom_surface.use_higher_surface_value(self.bottom_surface)", "                pass")],
    'horizontal sheets in an element with an undulating bottom',
    'sheets extend below the bottom of their element into the element below',
    r'''
s = dict(strata=['s0', 's1'], strata_contact_models=[['random', 5., 4., 4., 4.]], ae=['b', 'a'], ae_in_strata=[['b'], ['a']],
         ae_prob=[[1.], [1.]], ae_z_mean=[[99.], [99.]], avul_prob=[[0], [0]], avul=[[0, 0], [0, 0]],
         bg_facies=['f0', 'f0'], bg_azim=[0., 0.], bg_dip=[0., 0.])
t = model(8, 8, 10, b=sheet(), a=sheet(lens_thickness=-1), strata=s, grd=dict(hydraulics=False))
for seed in range(3):
    x = ok(t, seed=seed).data['strata']
    y = ok(t.replace('[a]\ngeometry = sheet\nstructure = massive\ncontact_model = [flat]\nfacies = [f0]\nlens_thickness = -1',
                     '[a]\ngeometry = sheet\nstructure = massive\ncontact_model = [flat]\nfacies = [f0]\nlens_thickness = 2'), seed=seed).data['strata']
    expect((x == y).all())
''')

bug('c13-periodic', 'C13',
    [(G + 'trough_ae.pyx', "            elif dy < -grid.ly/2:\n                dy += grid.ly", "            elif dy < -grid.ly/2:\n                dy += grid.lx")],
    'a periodic model that is not square, and a trough at its upper boundary in y',
    'the part of the trough that continues on the opposite side is displaced',
    r'''
o = ok(model(12, 8, 4, a=trough(te_xyz=[[6., 7.9, 4.]]), grd=dict(hydraulics=False, periodic=True)))
p = ok(model(12, 8, 4, a=trough(te_xyz=[[6., 3.9, 4.]]), grd=dict(hydraulics=False, periodic=True)))
expect((np.roll(p.data['facies'], 4, axis=1) == o.data['facies']).all())
''', ext=True)

bug('c13-max', 'C13',
    [(G + 'trough.pyx', "        self.max_ab = max(a, b)", "        self.max_ab = a")],
    'a trough that is wider than long',
    'the sides of the trough are cut off',
    r'''
o = ok(model(12, 12, 4, a=trough(te_xyz=[[6., 6., 4.]], length=4., width=10.), grd=dict(hydraulics=False)))
p = ok(model(12, 12, 4, a=trough(te_xyz=[[6., 6., 4.]], length=10., width=4.), grd=dict(hydraulics=False)))
expect((p.data['facies'].transpose(1, 0, 2) == o.data['facies']).all())
''', ext=True)

bug('c13-lag', 'C13',
    [(G + 'trough_ae.pyx', "        if z < object_z - self.object_c[oi] + self.object_lag[oi]:", "        if z < self.bottom_surface.zmin + self.object_lag[oi]:")],
    'a trough with a lag whose base is not at the bottom of the element',
    'the lag is at the base of the element instead of the base of the trough',
    r'''
o = ok(model(6, 6, 12, a=trough(te_xyz=[[3., 3., 10.]], depth=4., length=8., width=8., lag_height=1.2, lag_facies='f2'), grd=dict(hydraulics=False)))
expect((o.data['facies'] == 2).any())
''', ext=True)

bug('c14-clamp', 'C14',
    [(G + 'trough_ae.pyx', "            elif dip < -self.object_dip[oi]:\n                dip = -self.object_dip[oi]\n", "")],
    'a bulb with a maximum dip, on its upstream half',
    'the maximum dip is only respected on one side of the trough',
    r'''
o = ok(model(12, 12, 6, a=trough(te_xyz=[[6., 6., 6.]], length=10., width=10., depth=5., structure='bulb', dip=[20., 20.]), grd=dict(hydraulics=False)))
expect(np.abs(o.data['dip']).max() <= 20.0001, np.abs(o.data['dip']).max())
''', ext=True)

bug('c14-shell', 'C14',
    [(G + 'trough.pyx', "            self.shift = np.random.uniform()\n            self.num_facies", "            self.shift = np.random.uniform(0, self.layer_dist)\n            self.num_facies"),
     (G + 'trough_ae.pyx', "n = int(ceil((sqrt(l2) + self.object_shift[oi])*self.object_c[oi]/self.object_layer_dist[oi]))",
      "n = int(ceil(sqrt(l2)*self.object_c[oi]/self.object_layer_dist[oi] + self.object_shift[oi]/self.object_c[oi]*l2))")],
    'bulb sets: two sites, the drawn shift and its use for the shells',
    'the thickness of the shells is not the given distance any more',
    r'''
bad = 0
for seed in range(6):
    o = ok(model(1, 1, 400, 0.01, a=trough(te_xyz=[[0.005, 0.005, 4.]], length=10., width=10., depth=4., structure='bulb_sets', bulbset_dist=0.5, dip=[90., 90.], facies=['f1', 'f2'], altfacies=[['f2'], ['f1']]), grd=dict(hydraulics=False)), seed=seed)
    f = o.data['facies'][0, 0]
    f = f[f > 0]
    runs = np.diff(np.flatnonzero(np.concatenate(([True], f[1:] != f[:-1], [True]))))
    bad += int(np.abs(runs[1:-1] - 50).max() > 2)
expect(bad == 0, bad)
''', ext=True)

bug('c15-width', 'C15',
    [(G + 'channel_ae.pyx', "        radius = xy_dist - self.object_width[oi]\n", "        radius = xy_dist - self.object_width[oi]/4\n")],
    'a wide channel and a grid with several cells per channel width',
    'cells of the channel are skipped because a cell nearby is outside',
    r'''
t = model(40, 40, 4, 0.5, a=channel(width=8., depth=2., flow_angle=30., agg=0.1, buffer=0.9), grd=dict(hydraulics=False, lz=2.))
import hyvr.postprocess.output as out, hyvr.sim as sim
seen = []
orig = sim.create_outputs
sim.create_outputs = lambda m, *a: (seen.append(m), orig(m, *a))
o = ok(t)
m = seen[0]
g = m.grid
want = np.zeros(o.data['facies'].shape, bool)
for st in m.strata:
    for ae in st.aes:
        for c in ae.object_list:
            xs, ys = np.asarray(c.x_center), np.asarray(c.y_center)
            d2 = ((g.X[:, :, 0, None] - xs)**2 + (g.Y[:, :, 0, None] - ys)**2).min(-1)
            dz = g.Z - c.ztop
            want |= (dz <= 0) & (dz >= (4*c.depth/c.width**2)*d2[:, :, None] - c.depth)
expect((want == (o.data['facies'] == 1)).all(), (want != (o.data['facies'] == 1)).sum())
''', ext=True)

bug('c15-dy', 'C15',
    [(G + 'channel_ae.pyx', "            nx = int(radius/grid.dx)", "            nx = int(radius/min(grid.dx, grid.dy))"),
     (G + 'channel_ae.pyx', "                    ny = int(sqrt(radius**2 - (i*grid.dx)**2)/grid.dy)",
      "                    ny = int(sqrt(fabs(radius**2 - (i*grid.dx)**2))/grid.dy)"),
     (G + 'channel_ae.pyx', "from libc.math cimport sqrt, atan2, floor, ceil", "from libc.math cimport sqrt, atan2, floor, ceil, fabs")],
    'cells that are longer in x than in y and a curved or oblique channel',
    'cells beyond the safe radius are marked as outside',
    r'''
t = model(40, 40, 4, 0.5, a=channel(width=3., depth=2., flow_angle=60., agg=0.1, buffer=0.9), grd=dict(hydraulics=False, lz=2., dx=2., dy=0.5, dz=0.5, lx=40., ly=40.))
import hyvr.sim as sim
seen = []
orig = sim.create_outputs
sim.create_outputs = lambda m, *a: (seen.append(m), orig(m, *a))
bad = 0
for seed in range(4):
    seen.clear()
    o = ok(t, seed=seed)
    m = seen[0]
    g = m.grid
    want = np.zeros(o.data['facies'].shape, bool)
    for st in m.strata:
        for ae in st.aes:
            for c in ae.object_list:
                xs, ys = np.asarray(c.x_center), np.asarray(c.y_center)
                d2 = ((g.X[:, :, 0, None] - xs)**2 + (g.Y[:, :, 0, None] - ys)**2).min(-1)
                dz = g.Z - c.ztop
                want |= (dz <= 0) & (dz >= (4*c.depth/c.width**2)*d2[:, :, None] - c.depth)
    bad += int((want != (o.data['facies'] == 1)).sum())
expect(bad == 0, bad)
''', ext=True)

bug('c16-weight', 'C16',
    [(G + 'channel_ae.pyx', "                vy_now += self.object_vy[oi,i] * weight", "                vy_now += fabs(self.object_vy[oi,i]) * weight"),
     (G + 'channel_ae.pyx', "from libc.math cimport sqrt, atan2, floor, ceil", "from libc.math cimport sqrt, atan2, floor, ceil, fabs")],
    'a channel with dipping structure that flows towards negative y',
    'the azimuth is mirrored where the flow has a negative y component',
    r'''
o = ok(model(10, 10, 2, a=channel(structure='dip', dipset_dist=1., dip=[20., 20.], width=12., flow_angle=-30., agg=0.1, buffer=0.9), grd=dict(hydraulics=False)))
a = o.data['azim'][o.data['ha'] >= 0]
expect(len(a) and np.abs(a + 30).max() < 1, a)
''', ext=True)

bug('c16-sindip', 'C16',
    [(G + 'channel.pyx', "            self.sin_dip = sin(self.dip*np.pi/180)", "            self.sin_dip = sin(self.dip*np.pi/180)**2")],
    'a channel with beds that are not vertical',
    'the distance of the beds along the channel is not that of the given distance and dip',
    r'''
o = ok(model(400, 1, 1, 0.1, a=channel(structure='dip', dipset_dist=1., dip=[30., 30.], width=12., depth=2., flow_angle=0., ds=0.1, agg=0.01, buffer=0.95, facies=['f1', 'f2'], altfacies=[['f2'], ['f1']]), grd=dict(hydraulics=False, dz=0.1, lz=0.1, ly=0.1)))
f = o.data['facies'][:, 0, 0]
runs = np.diff(np.flatnonzero(np.concatenate(([True], f[1:] != f[:-1], [True]))))[1:-1]
expect(len(runs) > 3 and np.abs(runs - 20).max() <= 2, runs)
''', ext=True)

bug('c17-index', 'C17',
    [('hyvr/utils.py', "            fac_idx = type_params['facies'].index(facies[i-1])\n", "            fac_idx = (facies[i-1] - type_params['facies'][0]) % len(type_params['facies'])\n")],
    'an element whose facies are not consecutive in the list of hydrofacies',
    'the alternatives of another facies are used',
    r'''
h = hyd(5)
bad = 0
for seed in range(5):
    o = ok(model(30, 1, 1, a=sheet(structure='dip', dipset_dist=1., dip=[90., 90.], facies=['f0', 'f2', 'f4'], altfacies=[['f2'], ['f4'], ['f0']]), hydraulics=h, grd=dict(hydraulics=False)), seed=seed)
    f = o.data['facies'][:, 0, 0]
    f = f[np.concatenate(([True], f[1:] != f[:-1]))]
    bad += sum((b - a) % 6 != 2 for a, b in zip(f, f[1:]))
expect(bad == 0)
''')

bug('c17-last', 'C17',
    [('hyvr/utils.py', "            facies[i] = np.random.choice(type_params['altfacies'][fac_idx])",
      "            facies[i] = type_params['altfacies'][fac_idx][np.random.randint(max(1, len(type_params['altfacies'][fac_idx]) - 1))]")],
    'a table with more than one alternative',
    'the last alternative is never drawn',
    r'''
seen = set()
for seed in range(20):
    o = ok(model(30, 1, 1, a=sheet(structure='dip', dipset_dist=1., dip=[90., 90.], facies=['f0', 'f1', 'f2'], altfacies=[['f1', 'f2'], ['f0', 'f2'], ['f0', 'f1']]), grd=dict(hydraulics=False)), seed=seed)
    f = o.data['facies'][:, 0, 0]
    seen |= set(zip(f, f[1:]))
expect({(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)} <= seen, seen)
''')

bug('c18-zero', 'C18',
    [(G + 'ae_realization.py', "        if not np.isnan(self.type_params['bg_dip']):", "        if self.type_params['bg_dip'] > 0:")],
    'an element with background dip 0 in a stratum with another one (or a negative dip)',
    'the background dip 0 of the element is replaced by that of the stratum',
    r'''
o = ok(model(2, 2, 4, a=trough(bg_dip=0.), strata=dict(bg_dip=[30.]), grd=dict(hydraulics=False)))
expect((o.data['dip'] == 0).all())
''', ext=True)

bug('c18-facies', 'C18',
    [(G + 'ae_realization.py', "        if self.type_params['bg_facies'] != -1:", "        if self.type_params['bg_facies'] > 0:")],
    'an element whose background is the first facies, in a stratum with another background',
    'the first facies of the list can not be the background of an element',
    r'''
o = ok(model(2, 2, 4, a=trough(bg_facies='f0'), strata=dict(bg_facies=['f2']), grd=dict(hydraulics=False)))
expect((o.data['facies'] == 0).all())
''', ext=True)

bug('c19-above', 'C19',
    [(G + 'trough_utils.py', "                above_idx = k + (i-1)*n_troughs", "                above_idx = k")],
    'migrating troughs on three or more planes',
    'all planes migrate from the uppermost one instead of the one above',
    r'''
from hyvr.geo.trough_utils import generate_trough_positions as g
from hyvr.geo.grid import Grid
from hyvr.geo.contact_surface import ContactSurface
gr = Grid(0., 0., 0., 1., 1., 1., 10., 10., 10., False)
np.random.seed(1)
p = g(ContactSurface(gr, mode='flat', z=0.), ContactSurface(gr, mode='flat', z=10.),
      dict(depth=1., buffer=0., agg=2., migrate=[1., 0., 0.5, 0.], trough_density=0.03), gr)
n = sum(q[2] == p[0][2] for q in p)
for i in range(n, len(p)):
    expect(abs(p[i][0] - p[i-n][0] - 1) < 1e-9 and abs(p[i][1] - p[i-n][1] - 0.5) < 1e-9, p)
''')

bug('c19-area', 'C19',
    [(G + 'trough_utils.py', "            lam = type_params['trough_density'] * grid.lx * grid.ly", "            lam = type_params['trough_density'] * grid.nx * grid.ny")],
    'a horizontal spacing that is not 1',
    'the number of troughs depends on the resolution of the grid',
    r'''
from hyvr.geo.trough_utils import generate_trough_positions as g
from hyvr.geo.grid import Grid
from hyvr.geo.contact_surface import ContactSurface
n = []
for d in [1., 0.25]:
    gr = Grid(0., 0., 0., d, d, d, 10., 10., 10., False)
    np.random.seed(1)
    n.append(len(g(ContactSurface(gr, mode='flat', z=0.), ContactSurface(gr, mode='flat', z=10.),
                   dict(depth=1., buffer=0., agg=0.5, migrate=None, trough_density=0.3), gr)))
expect(0.7 < n[0]/n[1] < 1.4, n)
''')

bug('c20-mig', 'C20',
    [(G + 'channel_ae.pyx', "                if self.type_params['mig'] is not None:\n                    ystart[i] -=", "                if self.type_params['mig'] is not None:\n                    ystart[:] -=")],
    'several channels with migration',
    'every channel moves by the migration of all channels',
    r'''
import hyvr.sim as sim
seen = []
orig = sim.create_outputs
sim.create_outputs = lambda m, *a: (seen.append(m), orig(m, *a))
bad = 0
for seed in range(4):
    seen.clear()
    o = ok(model(20, 20, 20, a=channel(channel_no=4, mig=1., agg=1.), grd=dict(hydraulics=False)), seed=seed)
    ob = seen[0].strata[0].aes[0].object_list
    z = sorted({c.ztop for c in ob}, reverse=True)
    lev = [[c.y_center[0] for c in ob if c.ztop == x] for x in z]
    for a, b in zip(lev, lev[1:]):
        bad += sum(abs(x - y) > 1.0001 for x, y in zip(a, b))
expect(bad == 0, bad)
''', ext=True)

bug('c20-ar2', 'C20',
    [(G + 'channel_utils.py', "            t2 = th_store[idex-2]", "            t2 = th_store[idex-1]")],
    'a meandering channel',
    'the centreline does not follow the autoregressive model of second order',
    r'''
from hyvr.geo.channel_utils import ferguson_theta
np.random.seed(1)
s = np.arange(0, 20, 1.)
h, k = 0.3, 0.7
th = ferguson_theta(s, 0.1, k, h)
b1 = 2*np.exp(-k*h)*np.cos(k*np.arcsin(h))
b2 = -np.exp(-2*k*h)
np.random.seed(1)
e = [0., np.random.normal()*0.1] + [np.random.normal(1)*0.1 for i in range(18)]
w = np.zeros(20)
for i in range(20):
    w[i] = e[i] + (b1*w[i-1] if i > 0 else 0) + (b2*w[i-2] if i > 1 else 0)
expect(np.allclose(th, w))
''')

bug('c20-domain', 'C20',
    [(G + 'channel_ae.pyx', "        domain_length = np.abs(grid.lx * np.cos(flow_angle)) + np.abs(grid.ly * np.sin(flow_angle))",
      "        domain_length = np.abs(grid.lx * np.cos(flow_angle) + grid.ly * np.sin(flow_angle))")],
    'a flow angle whose sine and cosine have different signs',
    'the centreline starts inside the domain and ends before its end',
    r'''
import hyvr.sim as sim
seen = []
orig = sim.create_outputs
sim.create_outputs = lambda m, *a: (seen.append(m), orig(m, *a))
o = ok(model(20, 20, 3, a=channel(flow_angle=-45., channel_no=12, agg=1.), grd=dict(hydraulics=False)))
for c in seen[0].strata[0].aes[0].object_list:
    x, y = np.asarray(c.x_center), np.asarray(c.y_center)
    ins = (x > 0) & (x < 20) & (y > 0) & (y < 20)
    if not ins.any():
        continue
    # a straight line through the domain leaves it on both sides
    expect(not ins[0] and not ins[-1], (x[0], y[0], x[-1], y[-1]))
''', ext=True)

bug('c33-aeid', 'C33',
    [(G + 'stratum.py', "            mean_height = self.params['ae_z_mean'][num_type]", "            mean_height = self.params['ae_z_mean'][min(curr_ae_type.params['ae_id'], len(self.ae_types) - 1)]")],
    'a stratum whose element list is not a prefix of the list of all elements',
    'elements get the mean thickness of another type',
    r'''
s = dict(strata=['s0', 's1'], strata_contact_models=[['flat', 20.]], ae=['a', 'b'], ae_in_strata=[['a'], ['b', 'a']],
         ae_prob=[[1.], [0.5, 0.5]], ae_z_mean=[[99.], [4., 1.]], avul_prob=[[0], [0]], avul=[[0, 0], [0, 0]],
         bg_facies=['f0', 'f0'], bg_azim=[0., 0.], bg_dip=[0., 0.])
o = ok(model(1, 1, 400, 0.1, a=sheet(), b=sheet(facies=['f1']), strata=s, grd=dict(hydraulics=False)))
ae, hat = o.data['ae'][0, 0], o.data['hat'][0, 0]
n = [[(ae == i).sum() for i in np.unique(ae[(hat == t) & (ae > 0)])] for t in (0, 1)]
top = o.data['strata'][0, 0] == 0
th = {t: [int(((ae == i) & top).sum()) for i in np.unique(ae[top & (hat == t)])] for t in (0, 1)}
expect(max(th[0][:-1] or [0]) < 20 < min(th[1][:-1] or [99]), th)
''')

bug('c33-next', 'C33',
    [(G + 'stratum.py', "                bottom_surface_params = next_ae_type.params['contact_model']", "                bottom_surface_params = curr_ae_type.params['contact_model']")],
    'two element types with different contacts in one stratum',
    'the contact on top of an element is that of the element above',
    r'''
s = dict(ae_z_mean=[[3., 3.]])
for seed in range(8):
    o = ok(model(8, 8, 60, 0.2, a=sheet(facies=['f0'], contact_model=['random', 0.05, 2., 2.]), b=sheet(facies=['f1']), strata=s, grd=dict(hydraulics=False)), seed=seed)
    ae, hat = o.data['ae'], o.data['hat']
    for i in range(1, ae.max() + 1):
        m = ae == i
        if not m.any() or not m.any(axis=2).all():
            continue
        t = hat[m][0]
        top = np.array([[np.flatnonzero(m[a, b]).max() for b in range(8)] for a in range(8)])
        if t == 1 and (ae == i-1).any(axis=2).all():
            expect(top.min() == top.max(), (seed, i))
''')

bug('c33-avul', 'C33',
    [(G + 'model.py', "            stratum_params = {name:strata_dict[name][-1-si] for name in param_names}",
      "            stratum_params = {name:strata_dict[name][-1-si] for name in param_names}\n            stratum_params['avul'] = strata_dict['avul'][si]"),
     (G + 'model.py', "            'avul',\n", "")],
    'several strata with different avulsion depths',
    'strata use the avulsion depths of the stratum in the mirrored position',
    r'''
s = dict(strata=['s0', 's1'], strata_contact_models=[['flat', 20.]], ae=['a'], ae_in_strata=[['a'], ['a']],
         ae_prob=[[1.], [1.]], ae_z_mean=[[4.], [4.]], avul_prob=[[1.], [1.]], avul=[[0., 0.], [2., 2.]],
         bg_facies=['f0', 'f0'], bg_azim=[0., 0.], bg_dip=[0., 0.])
o = ok(model(1, 1, 400, 0.1, a=sheet(), strata=s, grd=dict(hydraulics=False)))
n = [len(np.unique(o.data['ae'][o.data['strata'] == i])) for i in (0, 1)]
expect(n[0] > n[1], n)
''')

bug('c34-zfactor', 'C34',
    [(G + 'channel_ae.pyx', "            zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])\n        else:\n            zfactor = 1\n        depth = ",
      "            zfactor = np.interp(z, [0, grid.lz], self.type_params['size_ztrend'])\n        else:\n            zfactor = 1\n        depth = ")],
    'channels with a size trend and a buffer in a model with a vertical origin',
    'the lowest level of channels depends on the origin of the model',
    r'''
n = []
for z0 in (0., 100., -100.):
    o = ok(model(8, 8, 16, a=channel(size_ztrend=[0.5, 2.], buffer=1.), grd=dict(hydraulics=False, z0=z0)))
    n.append(o.data['ha'].max())
expect(len(set(n)) == 1, n)
''', ext=True)

bug('c34-sheet', 'C34',
    [(G + 'sheet.py', "            xc = grid.x0 + grid.lx/2", "            xc = grid.lx/2")],
    'a sheet with dipping beds in a model with an origin',
    'beds change with the origin of the model, and far from zero there are none',
    r'''
a = [ok(model(20, 1, 1, a=sheet(structure='dip', dipset_dist=1., dip=[40., 40.], facies=['f0', 'f1', 'f2']), grd=dict(hydraulics=False, x0=x)), seed=3) for x in (0., 64.)]
expect((a[0].data['facies'] == a[1].data['facies']).all())
''')

bug('c31-thickness', 'C31',
    [(G + 'sheet_ae.py', "            thickness = self.type_params['lens_thickness'] * zfactor", "            thickness = self.type_params['lens_thickness'] = self.type_params['lens_thickness'] * zfactor")],
    'a size trend for sheets and more than one element or realization',
    'the thickness of sheets shrinks from element to element and realization to realization',
    r'''
t = model(1, 1, 40, 0.25, a=sheet(lens_thickness=2., size_ztrend=[0.5, 0.5]), run=dict(numsim=3), grd=dict(hydraulics=False))
o = ok(t)
n = [len(np.unique(d['ha'])) for d in o.all]
expect(len(set(n)) == 1, n)
''')

bug('c31-sorted', 'C31',
    [(G + 'stratum.py', "            mean_height = self.params['ae_z_mean'][num_type]", "            mean_height = self.params['ae_z_mean'][num_type] = abs(self.params['ae_z_mean'][num_type] - 1e-1*len(self.aes))")],
    'several elements per stratum and several realizations',
    'the mean thicknesses of a realization depend on the realizations before',
    r'''
t = model(1, 1, 100, 0.2, a=sheet(), strata=dict(ae_z_mean=[[2.]]), run=dict(numsim=2), grd=dict(hydraulics=False))
o = ok(t)
import hyvr
n = [len(np.unique(d['ae'])) for d in o.all]
from hyvr.input.parameters import setup_from_inifile
with contextlib.redirect_stdout(io.StringIO()):
    r, m, h = setup_from_inifile(o.ini, True)
    m.generate_model()
    m.generate_model()
expect(m.strata_dict['ae_z_mean'] == [[2.]], m.strata_dict['ae_z_mean'])
''')
