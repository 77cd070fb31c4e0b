"""Second round of planted bugs."""
PA = 'hyvr/input/parameters.py'
OUT = 'hyvr/postprocess/output.py'
G = 'hyvr/geo/'
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, ext=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, ext=ext))


bug('c35-oserror', 'C35',
    [(OUT, "        except ImportError as e:\n            # in case of an import error, only warn",
      "        except (ImportError, OSError) as e:\n            # in case of an import error, only warn")],
    'no space left on the device while a result is written',
    'the run ends successfully although a requested file is not complete',
    r'''
import hyvr.postprocess.output as output
real = np.savez_compressed
def full(*a, **k):
    raise OSError(28, 'No space left on device')
np.savez_compressed = full
o = run(model(a=sheet()))
np.savez_compressed = real
expect(o.error is not None, 'success without results')
o = ok(model(a=sheet()))
''')

bug('c35-rmtree', 'C35',
    [(PA, "                    shutil.rmtree(path)\n", "                    shutil.rmtree(path, ignore_errors=True)\n")],
    'old results in a subdirectory which cannot be removed',
    'the run directory holds a mixture of old and new results although the run ended without error',
    r'''
t = model(a=sheet(), run=dict(numsim=2))
d = os.path.join(SCRATCH, 'x')
os.mkdir(d)
o = ok(t, directory=d)
old = os.unlink
def fail(path, *a, **k):
    if 'npz' in str(path):
        raise PermissionError(13, 'denied', path)
    return old(path, *a, **k)
os.unlink = fail
o = run(t, directory=d, overwrite=True)
os.unlink = old
expect(o.error is not None, 'old results remain, but no error')
''')

bug('c32-test', 'C32',
    [('hyvr/sim.py', "        runpath = run_settings['rundir']\n", "        runpath = run_settings['modeldir'] / run_settings['runname']\n")],
    'the program is started without an ini-file',
    'the results of the test case remain in the temporary directory',
    r'''
tmp = os.path.join(SCRATCH, 'tmp')
os.mkdir(tmp)
open(os.path.join(PKG, 'hyvr', 'made.ini'), 'w').write(model(a=sheet(), run=dict(runname='made')))
rc = subprocess.call([sys.executable, '-m', 'hyvr'], cwd=PKG, env=dict(os.environ, TMPDIR=tmp), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
expect(rc == 0 and os.listdir(tmp) == [], (rc, os.listdir(tmp)))
''')

bug('c05-numsim', 'C05',
    [('hyvr/input/options_deprecated.py', "    Option('z0', float, optional=True, default=0.0),\n    Option('dx'", "    Option('z0', float, optional=True, default=None),\n    Option('dx'")],
    'an old ini-file without z0',
    'the model is rejected although the origin is optional',
    r'''
old = """[run]
dataoutputs = [npz]
[model]
dx = 1
lx = 2
ly = 2
lz = 2
hetlev = facies
[strata]
ssm = [s]
ssm_top = [2]
ae = [a]
ssm_ae = [[a]]
ae_prob = [[1]]
ae_z_mean = [[9]]
avul_prob = [[0]]
avul = [[0, 0]]
bg = [0, 0, 0]
[a]
geometry = sheet
structure = massive
contact = flat
facies = [1]
lens_thickness = -1
[hydraulics]
hydro = [f0, f1]
k_h = [1, 2]
sig_y = [1, 1]
k_ratio = [1, 1]
n = [0.1, 0.2]
sig_n = [0.1, 0.1]
ycorlengths = [[1, 1, 1], [1, 1, 1]]
ncorlengths = [[1, 1, 1], [1, 1, 1]]
[flowtrans]
"""
o = ok(old)
expect((o.data['facies'] == 1).all())
''')
