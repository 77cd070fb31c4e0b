"""Third round of planted bugs: crashes, resolution, units, names."""
PA = 'hyvr/input/parameters.py'
G = 'hyvr/geo/'
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, ext=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, ext=ext))


CRASH = r'''
import pathlib
import builtins


def crashing(k, text, directory, **kw):
    """A run that is interrupted at the k-th call of one of the functions below; False if there are less calls."""
    count = [0]
    olds = [(os, n, getattr(os, n)) for n in ('mkdir', 'rename', 'replace', 'rmdir', 'unlink')] + [(np, 'savez_compressed', np.savez_compressed)]

    def wrap(f):
        def g(*a, **kw):
            count[0] += 1
            if count[0] > k:
                raise KeyboardInterrupt
            return f(*a, **kw)
        return g
    for mod, n, f in olds:
        setattr(mod, n, wrap(f))
    try:
        run(text, directory=directory, **kw)
        done = True
    except KeyboardInterrupt:
        done = False
    finally:
        for mod, n, f in olds:
            setattr(mod, n, f)
    return not done


t = model(a=sheet(), run=dict(runname='r'))
want = ok(t).data
for earlier in (False, True):
    for k in range(100):
        d = os.path.join(SCRATCH, 'c%d%d' % (earlier, k))
        os.mkdir(d)
        if earlier:
            ok(t, directory=d)
            open(os.path.join(d, 'r', 'note'), 'w').close()
        interrupted = crashing(k, t, d, overwrite=True)
        o = run(None, directory=d, overwrite=True)
        expect(o.error is None, 'after an interruption at operation %d the run cannot be repeated: %r' % (k, o.error))
        expect(sorted(os.listdir(d)) == ['m.ini', 'r'], os.listdir(d))
        expect(all((o.data[x] == want[x]).all() for x in want if want[x].dtype.kind != 'f'))
        if not interrupted:
            break
'''

bug('c36-rename', 'C36',
    [(PA, "            # If it exists, we just delete everything in it\n            for f in os.listdir(run['rundir']):\n                path = os.path.join(run['rundir'], f)\n                path = run['rundir'] / f\n",
      "            # Move the old results out of the way before we delete them\n            old = run['rundir'].with_name(run['runname'] + '.old')\n            run['rundir'].rename(old)\n"
      "            run['rundir'].mkdir()\n            for f in os.listdir(old):\n                path = old / f\n"),
     (PA, "                    path.unlink()\n", "                    path.unlink()\n            old.rmdir()\n")],
    'a run with overwriting that was killed while it removed the old results',
    'a directory with old results stays behind and overwriting is not possible any more',
    CRASH)

bug('c36-ours', 'C36',
    [(PA, "    if run['rundir'].exists():\n", "    if run['rundir'].exists() and not any('backup' in f for f in os.listdir(run['rundir'])):\n        raise FileExistsError('The run directory was not made by HyVR')\n    elif run['rundir'].exists():\n")],
    'a run that was killed between creating its run directory and storing the backup of the ini-file',
    'the run cannot be repeated with overwriting',
    CRASH)

COMMON = r'''
from hyvr.geo import grid as _g


def cells(text, n):
    o = ok(text)
    return {k: v[tuple(slice(m//2, None, m) for m in n)] for k, v in o.data.items() if k != 'ktensors'}


def same(a, b):
    for k in a:
        expect(a[k].shape == b[k].shape, k)
        expect(np.allclose(a[k], b[k], rtol=1e-6, atol=1e-9), k)
'''

bug('c37-thickness', 'C37',
    [(G + 'sheet_ae.py', "            thickness = self.type_params['lens_thickness']\n\n", "            thickness = max(self.type_params['lens_thickness'], grid.dz)\n\n")],
    'sheets that are thinner than the cells',
    'the sheets are as thick as the cells, so refining the grid moves all of them',
    COMMON + r'''
h = dict(hydraulics={}, grd=dict(heterogeneity_level='facies'))
def text(n):
    return model(2, 2, 8, a=sheet(lens_thickness=0.625, facies=['f0', 'f1', 'f2']),
                 grd=dict(heterogeneity_level='facies', dx=1., dy=1., dz=1./n))
same(cells(text(1), (1, 1, 1)), cells(text(3), (1, 1, 3)))
''')

bug('c37-indomain', 'C37',
    [(G + 'channel_utils.py', "outputs[:, 0] >= grid.x0-width, outputs[:, 0] <= grid.xmax+width", "outputs[:, 0] >= grid.x0-grid.dx, outputs[:, 0] <= grid.xmax+grid.dx")],
    'a wide channel that enters the domain at an angle, on a fine grid',
    'the channel is cut at a distance from the boundary that depends on the spacing',
    COMMON + r'''
def text(n):
    return model(6, 12, 3, a=channel(width=6., depth=2., flow_angle=70., facies=['f1'], bg_facies='f2'),
                 grd=dict(heterogeneity_level='facies', dx=1./n, dy=1., dz=1.))
same(cells(text(1), (1, 1, 1)), cells(text(5), (5, 1, 1)))
''', ext=True)

bug('c37-level', 'C37',
    [(G + 'trough_utils.py', "    planes_z = np.arange(top_z, bottom_z, -type_params['agg'])", "    planes_z = np.arange(top_z, bottom_z, -max(type_params['agg'], grid.dz))")],
    'troughs whose levels are closer than the cells are high',
    'fewer troughs are placed on coarse grids',
    COMMON + r'''
from hyvr.geo.trough_utils import generate_trough_positions as f
from types import SimpleNamespace as N
def number(dz):
    np.random.seed(3)
    surf = lambda z: N(zmean=z, zmax=z, zmin=z)
    return len(f(surf(0.), surf(8.), dict(depth=1., buffer=0., agg=0.5, migrate=None, trough_density=1.),
                 N(lx=3., ly=3., lz=8., x0=0., y0=0., z0=0., xmax=3., ymax=3., zmax=8., dx=1., dy=1., dz=dz)))
expect(number(1.) == number(0.125), (number(1.), number(0.125)))
''')

bug('c38-last', 'C38',
    [(G + 'sheet_ae.py', "            if zbottom > self.zmin:\n", "            if zbottom > self.zmin + 0.01:\n")],
    'sheets that are a few millimetres thick, or lengths that are given in kilometres',
    'the lowest sheets are merged',
    r'''
def facies(unit):
    t = model(2, 2, 8, d=unit, a=sheet(lens_thickness=unit, facies=['f0', 'f1', 'f2']), grd=dict(heterogeneity_level='facies'))
    o = ok(t)
    return o.data['ha']
expect((facies(1.) == facies(2.**-8)).all())
expect((facies(1.) == facies(2.**-3)).all())
''')

bug('c38-stratum', 'C38',
    [(G + 'stratum.py', "            if znow <= self.bottom_surface.zmean:\n", "            if znow <= self.bottom_surface.zmean + 1e-3:\n")],
    'a model whose lengths are small numbers',
    'the lowest elements of a stratum are merged',
    r'''
def ae(unit):
    t = model(2, 2, 16, d=unit, a=sheet(), strata=dict(ae_z_mean=[[0.75*unit]]), grd=dict(heterogeneity_level='facies'))
    return ok(t, seed=5).data['ae']
for u in (2.**-14, 2.**-11, 2.**-8, 2.**8):
    expect((ae(1.) == ae(u)).all(), u)
''')

bug('c39-prefix', 'C39',
    [(PA, "        hydrofacies.index(facies) for facies in facies_list", "        [f.startswith(facies) for f in hydrofacies].index(True) for facies in facies_list")],
    'a facies whose name is the beginning of the name of a facies that is listed before',
    'the other facies is used',
    r'''
t = model(a=sheet(facies=['sand']), hydraulics=dict(hydrofacies=['gravel', 'sandy_clay', 'sand']), strata=dict(bg_facies=['gravel']))
o = ok(t)
expect((o.data['facies'] == 2).all())
''')

bug('c39-case', 'C39',
    [(PA, "= strata_dict['ae'].index(element)", "= [a.lower() for a in strata_dict['ae']].index(element.lower())")],
    'two elements whose names differ in their case only',
    'both get the same number',
    r'''
t = model(2, 2, 8, Sand=sheet(), sand=sheet(facies=['f1']), strata=dict(ae_z_mean=[[2., 2.]]))
seen = set()
for seed in range(12):
    o = ok(t, seed=seed)
    expect((o.data['hat'] == o.data['facies']).all())
''')

bug('c39-sections', 'C39',
    [(PA, "        elements[element]['ae_id'] = strata_dict['ae'].index(element)", "        elements[element]['ae_id'] = len([e for e in elements if 'ae_id' in elements[e]])")],
    'sections of elements in another order than the list of elements',
    'the types of elements are numbered in the order of the sections',
    r'''
t = model(2, 2, 8, a=sheet(), b=sheet(facies=['f1']), strata=dict(ae=['b', 'a'], ae_z_mean=[[2., 2.]]))
for seed in range(6):
    o = ok(t, seed=seed)
    expect((o.data['hat'] == 1 - o.data['facies']).all())
''')

bug('c19-nothing', 'C19',
    [(G + 'trough_utils.py', "            n_troughs = np.random.poisson(lam=lam)\n", "            n_troughs = max(np.random.poisson(lam=lam), 1)\n")],
    'a level on which no trough is drawn, or an element without troughs',
    'every level holds at least one trough',
    r'''
t = model(8, 8, 8, a=trough(agg=1., length=3., width=3., depth=1.5, trough_density=0.))
o = ok(t)
expect((o.data['ha'] == -1).all())
''', ext=True)

bug('c40-dis', 'C40',
    [('hyvr/postprocess/output.py', "                                                   filename='{}.dis'.format(runname))", "                                                   filename='{}.dis'.format(mfname))")],
    'MODFLOW 6 results that are moved to another directory',
    'the name file of the model refers to the discretization at the old place',
    r"""
import flopy
o = ok(model(a=sheet(), run=dict(outputs=['mf6'], runname='r'), flowtrans=dict(hin=[1, 0, 0], hout=[0, 0, 0])))
new = os.path.join(SCRATCH, 'new')
shutil.move(os.path.join(o.dir, 'r'), new)
with contextlib.redirect_stdout(io.StringIO()):
    try:
        s = flopy.mf6.MFSimulation.load(sim_ws=os.path.join(new, 'mf6'), verbosity_level=0)
        good = s.get_model('r').dis.nlay.array == 4
    except Exception:
        good = False
expect(good)
""")

bug('c40-hgs', 'C40',
    [('hyvr/postprocess/output.py', "    hgsdir = realization_dir / 'HGS'\n", "    hgsdir = pathlib.Path(fname.replace(' ', '_')).parent / 'HGS'\n")],
    'a model directory whose name contains a blank',
    'the HGS files are stored in another directory',
    r"""
d = os.path.join(SCRATCH, 'my model')
os.mkdir(d)
o = ok(model(a=sheet(), flowtrans=dict(hin=[1, 0, 0], hout=[0, 0, 0]), run=dict(outputs=['hgs'], runname='r')), directory=d)
expect(os.path.exists(os.path.join(d, 'r', 'HGS', 'ktensors.txt')), o.files)
""")

bug('c41-modeldir', 'C41',
    [('hyvr/input/parameters.py', "    run['modeldir'].mkdir(parents=True, exist_ok=True)", "    if not run['modeldir'].exists():\n        run['modeldir'].mkdir(parents=True)")],
    'another run makes the same model directory between looking for it and making it',
    'the run fails',
    r"""
import pathlib
d = os.path.join(SCRATCH, 'place')
os.mkdir(d)
new = os.path.join(d, 'new')
mkdir = pathlib.Path.mkdir
def other(self, *a, **k):
    if str(self) == new and not os.path.exists(new):
        os.mkdir(new)       # the other run is a bit faster
    return mkdir(self, *a, **k)
pathlib.Path.mkdir = other
o = run(model(a=sheet(), run=dict(runname='r', modeldir=new)), directory=d)
expect(o.error is None and os.path.exists(os.path.join(new, 'r', 'r.npz')), o.error)
""")

bug('c41-pickle', 'C41',
    [('hyvr/postprocess/output.py', "    with open(fname+'.pickle', 'wb') as outfile:\n        pickle.dump(model.data, outfile, protocol=pickle.HIGHEST_PROTOCOL)\n",
      "    fname = pathlib.Path(fname + '.pickle')\n    part = fname.parent.parent / 'part.pickle'\n    with open(part, 'wb') as outfile:\n        pickle.dump(model.data, outfile, protocol=pickle.HIGHEST_PROTOCOL)\n    part.replace(fname)\n")],
    'two runs in the same model directory that store their results at the same time',
    'one run fails, or its results are mixed with those of the other one',
    r"""
import pickle
d = os.path.join(SCRATCH, 'place')
os.mkdir(d)
dump, first = pickle.dump, []
def other(*a, **k):
    if not first:
        first.append(1)
        ok(model(nx=6, a=sheet(), run=dict(runname='r2', outputs=['py'])), directory=d, name='b.ini')
    return dump(*a, **k)
pickle.dump = other
o = run(model(nx=3, a=sheet(), run=dict(runname='r', outputs=['py'])), directory=d)
expect(o.error is None, o.error)
for name, n in (('r', 3), ('r2', 6)):
    with open(os.path.join(d, name, name + '.pickle'), 'rb') as f:
        expect(pickle.load(f)['facies'].shape[0] == n)
""")

bug('c41-trash', 'C41',
    [('hyvr/input/parameters.py', "                    shutil.rmtree(path)", "                    trash = run['rundir'].parent / '.trash'\n                    path.rename(trash)\n                    shutil.rmtree(trash)")],
    'two runs in the same model directory that remove their old results at the same time',
    'one of the runs fails',
    r"""
d = os.path.join(SCRATCH, 'place')
for name in ('r', 'r2'):
    os.makedirs(os.path.join(d, name, 'real_001'))
    with open(os.path.join(d, name, 'real_001', 'x'), 'w') as f:
        f.write('x')
rmtree, first = shutil.rmtree, []
def other(path, *a, **k):
    if not first and d in str(path):
        first.append(1)
        o = run(model(a=sheet(), run=dict(runname='r2')), directory=d, name='b.ini', overwrite=True)
        expect(o.error is None, o.error)
    return rmtree(path, *a, **k)
shutil.rmtree = other
o = run(model(a=sheet(), run=dict(runname='r')), directory=d, overwrite=True)
expect(o.error is None, o.error)
expect(not os.path.exists(os.path.join(d, 'r', 'real_001')))
""")

bug('c42-strata', 'C42',
    [('hyvr/assign_points.py', "strata_array = np.zeros((nx, ny, nz), dtype=np.int32)", "strata_array = np.zeros((nx, ny, nz), dtype=np.int8)")],
    'more than 128 strata',
    'the numbers of the lower strata are negative, or the run fails',
    r"""
n = 140
names = ['e%d' % i for i in range(n)]
st = dict(strata=['s%d' % i for i in range(n)], strata_contact_models=[['flat', float(i + 1)] for i in range(n - 1)], ae=names,
          ae_in_strata=[[x] for x in names], ae_prob=[[1.]]*n, ae_z_mean=[[1e6]]*n, avul_prob=[[0]]*n, avul=[[0, 0]]*n,
          bg_facies=['f0']*n, bg_azim=[0.]*n, bg_dip=[0.]*n)
o = run(model(2, 2, n, strata=st, **{x: sheet() for x in names}))
expect(o.error is None, o.error)
expect(o.data['strata'].min() == 0 and o.data['strata'].max() == n - 1)
""")

bug('c42-ha', 'C42',
    [('hyvr/assign_points.py', "ha_array = -1*np.ones((nx, ny, nz), dtype=np.int32)", "ha_array = -1*np.ones((nx, ny, nz), dtype=np.int16)")],
    'more than 32767 objects',
    'the numbers of the objects are wrong, or the run fails',
    r"""
n = 33000
pos = [[0.5, 0.5, 1.]] + [[1.5, 0.5, 1.]]*n + [[2.5, 0.5, 1.]]
t = trough(te_xyz=pos, length=0.9, width=0.9, depth=0.9, agg=100., trough_density=0., structure='massive', facies=['f1'])
o = run(model(3, 1, 1, run=dict(outputs=['npz']), a=t))
expect(o.error is None, o.error)
expect((o.data['ha'] >= 0).all() and len(np.unique(o.data['ha'])) == 3)
""", ext=True)

bug('c42-real', 'C42',
    [('hyvr/sim.py', "'real_{:03d}'.format(sim)", "'real_{:03d}'.format(sim % 1000)")],
    '1000 or more realizations',
    'the realizations from number 1001 on replace the first ones',
    r"""
o = ok(model(1, 1, 1, a=sheet(), grd=dict(hydraulics=False), run=dict(numsim=1001, runname='r', outputs=['py'])))
expect(os.path.exists(os.path.join(o.dir, 'r', 'real_1001', 'r.pickle')))
expect(os.path.exists(os.path.join(o.dir, 'r', 'real_001', 'r.pickle')))
expect(len([x for x in os.listdir(os.path.join(o.dir, 'r')) if x.startswith('real_')]) == 1001)
""")

ENV = r"""
import json
SCRIPT = '''
import sys
sys.path.insert(0, %r)
import numpy as np
np.random.seed(3)
import hyvr
hyvr.run(sys.argv[1], True)
''' % PKG
def start(path, args=(), **env):
    e = dict(os.environ, MPLBACKEND='Agg')
    e.update(env)
    return subprocess.run([sys.executable, *args, '-c', SCRIPT, path], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
def write(text):
    d = tempfile.mkdtemp(dir=SCRATCH)
    with open(os.path.join(d, 'm.ini'), 'w', encoding='utf-8') as f:
        f.write(text)
    return os.path.join(d, 'm.ini')
"""

bug('c43-assert', 'C43',
    [('hyvr/input/parameters.py', "    if len(strata['strata_contact_models']) != len(strata['strata']) - 1:\n        raise ShapeError('strata_contact_models', 'strata')\n    strata['contact_models'] = [",
      "    assert len(strata['strata_contact_models']) == len(strata['strata']) - 1, 'strata_contact_models'\n    strata['contact_models'] = [")],
    'Python is started with -O',
    'a wrong number of contacts is accepted',
    ENV + r"""
bad = write(model(a=sheet(), strata=dict(strata_contact_models=[['flat', 1.]])))
expect(start(bad) != 0)
expect(start(bad, ['-O']) != 0)
expect(start(write(model(a=sheet())), ['-O']) == 0)
""", ext=True)

bug('c43-locale', 'C43',
    [('hyvr/input/parameters.py', "        p.read(inifile, encoding='utf-8')\n    except cp.MissingSectionHeaderError:\n        # this is probably caused by a wrong encoding\n        p.read(", "        p.read(inifile)\n    except cp.MissingSectionHeaderError:\n        # this is probably caused by a wrong encoding\n        p.read(")],
    'a locale whose encoding is not UTF-8, and names that are not ASCII',
    'the run fails',
    ENV + r"""
path = write(model(a=sheet(), run=dict(runname='r')) + '\n# gr\u00e8s\n')
expect(start(path) == 0)
expect(start(path, LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0') == 0)
""", ext=True)

bug('c43-set', 'C43',
    [('hyvr/geo/model.py', "ae_types = [self.ae_types[ae_type] for ae_type in strata_dict['ae_in_strata'][-1-si]]", "ae_types = [self.ae_types[ae_type] for ae_type in set(strata_dict['ae_in_strata'][-1-si])]")],
    'several types of elements in a stratum, and another hash seed',
    'the same seed of the random numbers gives other results',
    ENV + r"""
names = ['pa', 'pb', 'pc', 'pd']
path = write(model(strata=dict(ae=names, ae_in_strata=[names], ae_prob=[[0.1, 0.2, 0.3, 0.4]], ae_z_mean=[[0.5]*4]), run=dict(runname='r'),
                   **{n: sheet() for n in names}))
first = None
for h in range(6):
    expect(start(path, PYTHONHASHSEED=str(h)) == 0)
    d = np.load(os.path.join(os.path.dirname(path), 'r', 'r.npz'))['hat']
    expect(first is None or np.array_equal(first, d))
    first = d
""", ext=True)

bug('c33-top', 'C33',
    [('hyvr/geo/stratum.py', "        znow = self.top_surface.zmean\n", "        znow = self.top_surface.zmax\n")],
    'an undulating contact on top of a stratum',
    'the topmost element below an undulating contact is thinner than its mean thickness says',
    r"""
t = []
for seed in range(1, 13):
    o = ok(model(40, 4, 80, 0.125, a=sheet(), grd=dict(lz=4., dz=0.05, hydraulics=False),
                 strata=dict(strata=['s0', 's1'], strata_contact_models=[['random', 2.5, 0.05, 1., 1.]], ae=['a'], ae_in_strata=[['a'], ['a']],
                             ae_prob=[[1.], [1.]], ae_z_mean=[[0.8], [9.]], avul_prob=[[0], [0]], avul=[[0, 0], [0, 0]],
                             bg_facies=['f0', 'f0'], bg_azim=[0., 0.], bg_dip=[0., 0.])), seed=seed)
    top = (o.data['strata'] == 1).sum(axis=2).mean()*0.05
    a = o.data['ae']
    n = a[o.data['strata'] == 1].min() + 1
    t.append(top - (a >= n).sum(axis=2).max()*0.05)
expect(abs(np.mean(t) - 0.8) < 0.1, np.mean(t))
""")

bug('c33-first', 'C33',
    [('hyvr/geo/stratum.py', "            if np.random.uniform() <= self.params['avul_prob'][0]:", "            if np.random.uniform() <= self.params['avul_prob'][0]*(len(self.aes) > 0):")],
    'avulsion, and the topmost element of a stratum',
    'the topmost element of a stratum is never eroded by avulsion',
    r"""
n = 0
for seed in range(1, 11):
    o = ok(model(1, 1, 40, 0.1, a=sheet(), grd=dict(hydraulics=False),
                 strata=dict(ae_z_mean=[[2.]], avul_prob=[[0.9]], avul=[[1.2, 1.2]])), seed=seed)
    n += (o.data['ae'] == 0).sum()*0.1 < 1.3
expect(n > 5, n)
""")

bug('c22-reuse', 'C22',
    [('hyvr/geo/model.py', "                        n_flat = hu.specsim(self.grid, \n                                            hydraulics['sig_n'][fi],\n                                            hydraulics['ncorlengths'][fi],\n                                            covmod='exp',\n                                            selection_mask=mifi) + hydraulics['n'][fi]",
      "                        if hydraulics['ncorlengths'][fi] == hydraulics['ycorlengths'][fi] and hydraulics['sig_y'][fi] > 0:\n                            n_flat = np.log(k_flat/hydraulics['k_h'][fi])*np.sqrt(hydraulics['sig_n'][fi]/hydraulics['sig_y'][fi]) + hydraulics['n'][fi]\n                        else:\n                            n_flat = hu.specsim(self.grid, \n                                                hydraulics['sig_n'][fi],\n                                                hydraulics['ncorlengths'][fi],\n                                                covmod='exp',\n                                                selection_mask=mifi) + hydraulics['n'][fi]")],
    'equal correlation lengths of conductivity and porosity of a facies',
    'porosity is fully correlated with conductivity',
    r"""
o = ok(model(8, 8, 4, a=sheet(), hydraulics=dict(ycorlengths=[[2., 2., 1.]]*3, ncorlengths=[[2., 2., 1.]]*3)))
c = np.corrcoef(np.log(o.data['k_iso'].ravel()), o.data['poros'].ravel())[0, 1]
expect(abs(c) < 0.99, c)
""")

bug('c23-all', 'C23',
    [('hyvr/geo/model.py', "                            k_iso[ms] = (k_iso * zf_vec)[ms]", "                            k_iso[ms] = (k_iso * zf_vec)[ms] if not np.all(ms) else k_iso[ms]")],
    'one type of elements in the whole domain',
    'its trend has no effect',
    r"""
a = ok(model(2, 2, 8, a=sheet())).data
b = ok(model(2, 2, 8, a=sheet(k_ztrend=[1., 2.]))).data
expect(np.allclose(b['k_iso'][:, :, -1]/a['k_iso'][:, :, -1], 2.))
""")

bug('c24-less', 'C24',
    [('hyvr/optimized.py', "                a = 1/anirat[i,j,k]\n", "                a = 1/max(anirat[i,j,k], 1)\n")],
    'vertical conductivity higher than horizontal one (`k_ratio` < 1)',
    'the tensor is isotropic',
    r"""
d = ok(model(2, 2, 2, a=sheet(), hydraulics=dict(k_ratio=[0.5]*3))).data
t = d['ktensors'][0, 0, 0]
expect(abs(t[2, 2]/t[0, 0] - 2) < 1e-6, t)
""")

bug('c42-layers', 'C42',
    [('hyvr/geo/trough.pyx', "self.num_facies = int(ceil((1 + self.shift)*c/self.layer_dist)) + 1", "self.num_facies = min(int(ceil((1 + self.shift)*c/self.layer_dist)) + 1, 200)"),
     ('hyvr/geo/trough_ae.pyx', "                geo_ids[0] = self.object_facies_array[oi,n]\n                angles[0] = azim", "                geo_ids[0] = self.object_facies_array[oi,min(n,self.object_num_facies[oi]-1)]\n                angles[0] = azim")],
    'a trough with more than 200 layers',
    'its deepest layers get the facies of layer 200',
    r"""
o = ok(model(1, 1, 500, grd=dict(dx=4., dz=0.01, lx=4., ly=4., lz=5., hydraulics=False), a=trough(
    structure='bulb_sets', te_xyz=[[2., 2., 5.]], length=40., width=40., depth=4., bulbset_dist=0.01, facies=['f0', 'f1'],
    dip=[0., 0.], azimuth=[0., 0.], altfacies=[['f1'], ['f0']])))
f = o.data['facies'][0, 0]
g = f[(o.data['ha'][0, 0] >= 0)]
expect(len(g) > 350, len(g))
expect(len(set(g[20:80].tolist())) > 1)
""", ext=True)

bug('c33-cross', 'C33',
    [('hyvr/geo/model.py', "            bottom_surface.use_lower_surface_value(top_surface)\n",
      "            if top_surface.zmin < top_surface.zmax or bottom_surface.zmin < bottom_surface.zmax:\n                bottom_surface.use_lower_surface_value(top_surface)\n")],
    'a flat contact below a stratum that lies above the flat contact on top of it',
    'the elements of the next stratum are counted from the wrong contact, so that the topmost one is too thin or missing',
    r"""
t = []
for seed in range(1, 9):
    o = ok(model(1, 1, 80, grd=dict(lz=4., dz=0.05, hydraulics=False), a=sheet(),
                 strata=dict(strata=['s0', 's1', 's2'], strata_contact_models=[['flat', 3.], ['flat', 2.]], ae=['a'], ae_in_strata=[['a']]*3,
                             ae_prob=[[1.]]*3, ae_z_mean=[[0.8], [9.], [9.]], avul_prob=[[0]]*3, avul=[[0, 0]]*3,
                             bg_facies=['f0']*3, bg_azim=[0.]*3, bg_dip=[0.]*3)), seed=seed)
    a = o.data['ae'][0, 0]
    low = a[o.data['strata'][0, 0] == 2]
    t.append((low == low.min()).sum()*0.05)
expect(abs(np.mean(t) - 0.8) < 0.12, t)
""")

bug('c44-shared', 'C44',
    [('hyvr/geo/ae_realization.py', "            self.bg_facies = stratum.bg_facies\n", "            self.bg_facies = self.type_params['bg_facies'] = stratum.bg_facies\n")],
    'a type of elements without background facies that occurs in several strata',
    'the background facies of the upper stratum acts on the elements of the lower one, too',
    r"""
def start(bg):
    return ok(model(2, 2, 8, grd=dict(hydraulics=False), a=trough(),
                    strata=dict(strata=['s0', 's1'], strata_contact_models=[['flat', 4.]], ae=['a'], ae_in_strata=[['a']]*2, ae_prob=[[1.]]*2,
                                ae_z_mean=[[9.]]*2, avul_prob=[[0]]*2, avul=[[0, 0]]*2, bg_facies=['f0', bg], bg_azim=[0.]*2, bg_dip=[0.]*2))).data
a, b = start('f1'), start('f2')
low = a['strata'] == 1
expect(np.array_equal(a['facies'][low], b['facies'][low]))
expect((a['facies'][low] == 0).all())
""", ext=True)

bug('c44-variance', 'C44',
    [('hyvr/geo/model.py', "                        n_flat = hu.specsim(self.grid, \n                                            hydraulics['sig_n'][fi],",
      "                        n_flat = hu.specsim(self.grid, \n                                            hydraulics['sig_n'][fi]*(hydraulics['sig_y'][fi] > 0),")],
    'a facies with constant conductivity (`sig_y = 0`) and variable porosity',
    'its porosity is constant, too',
    r"""
h = dict(sig_y=[0., 1., 1.])
o = ok(model(6, 6, 4, a=sheet(), hydraulics=h))
expect(np.ptp(o.data['poros']) > 0)
expect(np.ptp(np.log(o.data['k_iso'])) < 1e-9)
""")

bug('c44-angle', 'C44',
    [('hyvr/geo/trough_ae.pyx', "        if z < object_z - self.object_c[oi] + self.object_lag[oi]:\n            # is inside lag surface\n            geo_ids[0] = self.object_lag_facies[oi]\n            angles[0] = 0 # no azimuth\n            angles[1] = 0 # no dip\n",
      "        if z < object_z - self.object_c[oi] + self.object_lag[oi]:\n            # is inside lag surface\n            geo_ids[0] = self.object_lag_facies[oi]\n            angles[0] = 0 # no azimuth\n            self.object_dip[oi] = 0\n            angles[1] = self.object_dip[oi]\n")],
    'troughs with a lag, internal structure with dip, and several towers of cells',
    'the dip of cells above the lag is 0 in all columns after the first one that reaches the lag',
    r"""
o = ok(model(9, 9, 8, 0.5, grd=dict(hydraulics=False), a=trough(te_xyz=[[2.25, 2.25, 3.9]], dip=[20., 20.], azimuth=[0., 0.], lag_height=0.5, lag_facies='f2', depth=3.)))
d, f = o.data['dip'], o.data['facies']
sel = (o.data['ha'] >= 0) & (f != 2)
expect(sel.any() and (f == 2).any())
expect((d[sel] == 20).all())
""", ext=True)
