M = 'hyvr/geo/model.py'
U = 'hyvr/utils.py'
O = 'hyvr/postprocess/output.py'
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, ext=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, ext=ext))


bug('c21-anirat', 'C21',
    [(M, "                    anirat[mifi] = hydraulics['k_ratio'][fi]", "                    anirat[ha_arr == mi] = hydraulics['k_ratio'][fi]")],
    'heterogeneity between facies and an object with several facies',
    'all cells of an object get the anisotropy ratio of one of its facies',
    r'''
o = ok(model(20, 1, 1, a=sheet(structure='dip', dipset_dist=1., dip=[90., 90.], facies=['f0', 'f1', 'f2']), grd=dict(heterogeneity_level='facies')))
expect(len(np.unique(o.data['facies'])) > 1)
expect((o.data['anirat'] == 1.5 + 0.5*o.data['facies']).all())
''')

bug('c21-level', 'C21',
    [(M, "            for hy_idx, hyi in enumerate(hydraulics['hydrofacies']):\n                hyi = hy_idx",
      "            for hy_idx, hyi in enumerate(sorted(hydraulics['hydrofacies'])):\n                hyi = hydraulics['hydrofacies'].index(hyi)")],
    'a homogeneous model whose facies are not listed in alphabetical order',
    'cells get the parameters of another facies',
    r'''
o = ok(model(4, 4, 4, a=sheet(facies=['zz']), grd=dict(heterogeneity=False), strata=dict(bg_facies=['zz']), hydraulics=dict(hydrofacies=['zz', 'mm', 'aa'])))
expect((o.data['k_iso'] == 0.1).all(), o.data['k_iso'][0, 0, 0])
''')

bug('c22-bgcorl', 'C22',
    [(M, "                        n_flat = hu.specsim(self.grid,\n                                            hydraulics['sig_n'][ae_bg_facies],", "                        n_flat = hu.specsim(self.grid,\n                                            hydraulics['sig_n'][fi],")],
    'an element with background whose facies differs from the last facies that an object has',
    'the porosity of the background has the variance of another facies',
    r'''
v = []
for seed in range(10):
    o = ok(model(12, 12, 6, a=trough(te_xyz=[[6., 6., 6.]], facies=['f2'], bg_facies='f0'), hydraulics=dict(sig_n=[1e-8, 1e-8, 1e-2])), seed=seed)
    v.append(np.var(o.data['poros'][o.data['ha'] < 0]))
expect(np.mean(v) < 1e-6, np.mean(v))
''', ext=True)

bug('c22-mask', 'C22',
    [(M, "                        ae_mask = m0 & ms     # Get material that equals zero within in architectural element",
      "                        ae_mask = m0 & (fac == ae.bg_facies)     # Get background material of architectural element")],
    'two elements with the same background facies',
    'the backgrounds of elements are one field, generated again for every element',
    r'''
import hyvr.utils as hu
n = []
orig = hu.specsim
def spy(*a, **k):
    n.append(int(k['selection_mask'].sum()) if k.get('selection_mask') is not None else 0)
    return orig(*a, **k)
hu.specsim = spy
o = ok(model(4, 4, 12, a=trough(), strata=dict(ae_z_mean=[[3.]])))
expect(len(np.unique(o.data['ae'])) > 1)
expect(sum(n) == 2*4*4*12, n)
''', ext=True)

bug('c23-type', 'C23',
    [(M, "                        ms = ae_arr == ae.num\n                        if ae.type_params['k_ztrend'] is not None:", "                        ms = self.data['hat'] == ae.type_id\n                        if ae.type_params['k_ztrend'] is not None:")],
    'several elements of a type with a trend',
    'the trend is applied once per element of the type',
    r'''
o = ok(model(2, 2, 12, a=sheet(k_ztrend=[2., 2.]), strata=dict(ae_z_mean=[[3.]]), hydraulics=dict(sig_y=[0., 0., 0.])))
expect(o.data['ae'].max() > 0)
expect(np.allclose(o.data['k_iso'], 0.2), o.data['k_iso'][0, 0])
''')

bug('c23-order', 'C23',
    [(M, "                if hydraulics['n_xtrend'] is not None:\n                   xf_vec = np.linspace(*hydraulics['n_xtrend'], self.grid.nx)",
      "                elif hydraulics['n_xtrend'] is not None:\n                   xf_vec = np.linspace(*hydraulics['n_xtrend'], self.grid.nx)")],
    'global trends of porosity both in x and in z',
    'the trend in x is ignored if there is one in z',
    r'''
o = ok(model(3, 2, 3, a=sheet(), hydraulics=dict(sig_n=[0., 0., 0.], n_xtrend=[1., 2.], n_ztrend=[1., 3.])))
w = 0.1*np.linspace(1, 2, 3)[:, None, None]*np.linspace(1, 3, 3)
expect(np.allclose(o.data['poros'], w*np.ones((3, 2, 3))), o.data['poros'])
''')

bug('c24-a12', 'C24',
    [('hyvr/optimized.py', "                ktensors[i,j,k,2,1] = a12", "                ktensors[i,j,k,2,1] = abs(a12)")],
    'a cell with azimuth and dip of a sign such that K_yz is negative',
    'the tensor is not symmetric',
    r'''
for az in (-60., 60., 150., 250.):
    o = ok(model(2, 2, 2, a=sheet(facies=['f2'], azimuth=[az, az], dip=[30., 30.])))
    k = o.data['ktensors']
    expect(np.allclose(k, np.swapaxes(k, -1, -2)), az)
''')

bug('c24-a02', 'C24',
    [('hyvr/optimized.py', "a02 = kiso*((a-1)*(np.sin(kappa+2*psi)-np.sin(kappa-2*psi)))/4", "a02 = kiso*((a-1)*np.sin(2*psi))/2*(cosk if abs(kappa) < np.pi/2 else 1)")],
    'azimuths beyond 90 degrees',
    'the component K_xz is wrong for beds that dip backwards',
    r'''
for az in (-150., 20., 120.):
    o = ok(model(1, 1, 1, a=sheet(facies=['f2'], azimuth=[az, az], dip=[30., 30.])))
    k = o.data['ktensors'][0, 0, 0]
    e = np.sort(np.linalg.eigvalsh(k))/o.data['k_iso'][0, 0, 0]
    expect(np.allclose(e, [1/2.5, 1, 1]), (az, e))
''')

bug('c25-corly', 'C25',
    [(U, "            h_square = (np.asarray(grid.X_centered[:,:,0])/corl[0])**2 \\\n                    + (np.asarray(grid.Y_centered[:,:,0])/corl[1])**2",
      "            h_square = (np.asarray(grid.X_centered[:,:,0])/corl[0])**2 \\\n                    + (np.asarray(grid.Y_centered[:,:,0])/corl[0])**2")],
    'an undulating contact with different correlation lengths',
    'contacts are isotropic',
    r'''
from hyvr.geo.grid import Grid
from hyvr.utils import specsim
g = Grid(0., 0., 0., 1., 1., 1., 16., 16., 2., False)
cx = cy = 0
np.random.seed(0)
for i in range(200):
    f = specsim(g, 1., [6., 1.], two_dim=True, covmod='gaussian')
    cx += np.mean((f[1:] - f[:-1])**2)
    cy += np.mean((f[:, 1:] - f[:, :-1])**2)
expect(cy > 3*cx, (cx, cy))
''')

bug('c25-masked', 'C25',
    [(U, "            selected_Z_centered = selected_Z - (np.min(selected_Z) + np.max(selected_Z))/2", "            selected_Z_centered = selected_Z - (grid.z0 + np.max(selected_Z))/2")],
    'a selection of cells that does not begin at the bottom of the domain',
    'the covariance in z is shifted, so the variance is not the requested one',
    r'''
from hyvr.geo.grid import Grid
from hyvr.utils import specsim
g = Grid(0., 0., 0., 1., 1., 1., 8., 8., 16., False)
m = np.zeros((8, 8, 16), bool)
m[:, :, 8:] = True
np.random.seed(0)
d = 0
for i in range(60):
    f = specsim(g, 1., [1., 1., 1.], selection_mask=m, covmod='exp').reshape(8, 8, 8)
    d += np.mean(f**2)/60
n = 0
m[:] = False
m[:, :, :8] = True
for i in range(60):
    f = specsim(g, 1., [1., 1., 1.], selection_mask=m, covmod='exp').reshape(8, 8, 8)
    n += np.mean(f**2)/60
expect(0.8 < d/n < 1.25, (d, n))
''')

bug('c26-empty', 'C26',
    [(O, "        data_dict = {key:model.data[key] for key in model.data if key != \"ktensors\"}", "        data_dict = {key:model.data[key] for key in model.data if key != \"ktensors\" and np.any(model.data[key])}")],
    'a model with an array that is zero everywhere, e.g. no dip',
    'arrays without any non-zero value are missing in the vtr file',
    r'''
o = ok(model(3, 3, 3, a=sheet(), run=dict(outputs=['npz', 'vtr'])))
b = open(os.path.join(o.dir, [f for f in o.files if f.endswith('.vtr')][0]), 'rb').read()
for k in ('facies', 'dip', 'azim', 'k_iso', 'strata'):
    expect(('Name="%s"' % k).encode() in b, k)
''')

bug('c26-h5', 'C26',
    [(O, "                hf.create_dataset(key, data=model.data[key], compression=True)", "                hf.create_dataset(key, data=model.data[key], compression=True, scaleoffset=4 if key == 'k_iso' else None)")],
    'small conductivities and h5 output',
    'conductivities are rounded to four digits after the point',
    r'''
import h5py
o = ok(model(3, 3, 3, a=sheet(), run=dict(outputs=['npz', 'h5'])))
with h5py.File(os.path.join(o.dir, [f for f in o.files if f.endswith('.h5')][0])) as f:
    expect((f['k_iso'][()] == o.data['k_iso']).all())
''')

bug('c27-strt', 'C27',
    [(O, "    strt[:, :, -1] = model.flowtrans['hout'][0]", "    strt[:, :, model.grid.nx-1] = model.flowtrans['hout'][0]")],
    'a model that is not square', 'the outlet head is stored at another column or nothing is written',
    r'''
import flopy
o = ok(model(3, 5, 2, a=sheet(), run=dict(outputs=['npz', 'mf']), flowtrans=dict(hin=[7., 0., 0.], hout=[3., 0., 0.])))
f = [f for f in o.files if f.endswith('.bas')][0]
with contextlib.redirect_stdout(io.StringIO()):
    m = flopy.modflow.Modflow.load(os.path.join(o.dir, f[:-4] + '.nam'), model_ws=os.path.join(o.dir, os.path.dirname(f)), check=False)
s = m.bas6.strt.array
expect((s[:, :, 0] == 7).all() and (s[:, :, -1] == 3).all() and (s[:, :, 2] == 1).all(), s)
''')

bug('c28-grad', 'C28',
    [(O, "        hin = hout + model.grid.lx * model.flowtrans['gradh']", "        hin = hout + model.grid.nx * model.flowtrans['gradh']")],
    'a head gradient and a spacing in x that is not 1',
    'the head difference is the gradient times the number of cells',
    r'''
o = ok(model(3, 3, 2, 0.5, a=sheet(), run=dict(outputs=['npz', 'mf6']), flowtrans=dict(gradh=0.1)))
f = [f for f in o.files if f.endswith('.chd')][0]
rows = [l.split() for l in open(os.path.join(o.dir, f)) if l.split() and l.split()[0].isdigit()]
v = sorted({float(r[3]) for r in rows})
expect(np.allclose(v, [1., 1.15]), v)
''')

bug('c28-well', 'C28',
    [(O, "    if model.flowtrans['q_in'] is not None:\n        q_in = model.flowtrans['q_in']\n", "    if model.flowtrans['q_in'] is not None and model.flowtrans['hin'] is None:\n        q_in = model.flowtrans['q_in']\n")],
    'an ini-file with both heads and an inflow', 'the inflow is not written if heads are given',
    r'''
o = ok(model(3, 3, 2, a=sheet(), run=dict(outputs=['npz', 'mf6']), flowtrans=dict(hin=[2., 0., 0.], hout=[1., 0., 0.], q_in=0.25)))
expect(any(f.endswith('.wel') for f in o.files), o.files)
''')

bug('c29-xz', 'C29',
    [(O, "                                      model.data['ktensors'][:, :, :, 0, 2].flatten(),            # K_xz\n                                      model.data['ktensors'][:, :, :, 1, 2].flatten())),          # K_yz",
      "                                      model.data['ktensors'][:, :, :, 1, 2].flatten(),            # K_xz\n                                      model.data['ktensors'][:, :, :, 0, 2].flatten())),          # K_yz")],
    'cells with a dip that is not towards 45 degrees',
    'the components K_xz and K_yz are exchanged',
    r'''
o = ok(model(2, 3, 4, a=sheet(facies=['f2'], azimuth=[20., 20.], dip=[30., 30.]), run=dict(outputs=['npz', 'hgs']), flowtrans=dict(gradh=1.)))
f = [f for f in o.files if f.endswith('ktensors.txt')][0]
t = np.loadtxt(os.path.join(o.dir, f))
expect(np.allclose(t[:, 5], o.data['ktensors'][..., 0, 2].ravel(), rtol=2e-3))
''')

bug('c30-order', 'C30',
    [(O, "            warnings.warn(str(e))\n", "            warnings.warn(str(e))\n            break\n")],
    'a missing package for a format that is not the last one',
    'the formats after one that can not be written are skipped',
    r'''
import importlib.abc
class Block(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split('.')[0] == 'h5py':
            raise ImportError('No module named h5py')
sys.meta_path.insert(0, Block())
sys.modules.pop('h5py', None)
o = ok(model(3, 3, 3, a=sheet(), run=dict(outputs=['h5', 'npz'])))
expect(o.data is not None)
''')

bug('c30-vtr', 'C30',
    [(O, "    except ImportError as e:\n        raise type(e)(str(e) + \", vtr output not possible!\")", "    except ImportError as e:\n        pass")],
    'vtr output without pyevtk',
    'there is no message that vtr files could not be written, and they are reported as saved',
    r'''
import importlib.abc
class Block(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.split('.')[0] == 'pyevtk':
            raise ImportError('No module named pyevtk')
sys.meta_path.insert(0, Block())
for k in [k for k in sys.modules if k.startswith('pyevtk')]:
    del sys.modules[k]
o = ok(model(3, 3, 3, a=sheet(), run=dict(outputs=['vtr', 'npz'])))
expect(not any(f.endswith('.vtr') for f in o.files))
expect('Saved vtr' not in o.stdout.getvalue())
''')
