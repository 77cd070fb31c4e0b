"""
Helper of the demonstrations: runs HyVR from a private copy of ./hyvr (compiled
there if needed), always inside a scratch directory that is removed at exit.
"""
import atexit
import contextlib
import io
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import warnings

os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix='demo_')
atexit.register(shutil.rmtree, SCRATCH, ignore_errors=True)
PKG = os.path.join(SCRATCH, 'pkg')
os.mkdir(PKG)
shutil.copytree('hyvr', os.path.join(PKG, 'hyvr'),
                ignore=shutil.ignore_patterns('*.c', '*.so', '__pycache__'))
sys.path.insert(0, PKG)

import numpy as np      # noqa: E402


def compile_ext(names=('trough', 'trough_ae', 'channel', 'channel_ae')):
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    inc = ['-I' + sysconfig.get_path('include'), '-I' + np.get_include()]
    jobs = []
    for n in names:
        base = os.path.join(PKG, 'hyvr', 'geo', n)
        cmd = '"{py}" -m cython -3 {b}.pyx && gcc -O1 -w -fPIC -shared {inc} {b}.c -o {b}{s}'.format(
            py=sys.executable, b=base, inc=' '.join(inc), s=suffix)
        jobs.append(subprocess.Popen(cmd, shell=True, cwd=PKG, stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL))
    for j in jobs:
        if j.wait():
            sys.exit('could not compile')


def fmt(v):
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(fmt(x) for x in v) + ']'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    return repr(v) if isinstance(v, float) else str(v)


def ini(**sections):
    """Sections as dictionaries; ``x_`` prefixes are element sections."""
    out = []
    for name, sec in sections.items():
        if sec is None:
            continue
        out.append('[%s]' % name)
        out += ['%s = %s' % (k, fmt(v)) for k, v in sec.items() if v is not None]
        out.append('')
    return '\n'.join(out) + '\n'


def hyd(n=3, **kw):
    d = dict(hydrofacies=['f%d' % i for i in range(n)],
             k_h=[10.0**(-i-1) for i in range(n)], sig_y=[0.5 + 0.25*i for i in range(n)],
             ycorlengths=[[3., 2., 1.]]*n, k_ratio=[1.5 + 0.5*i for i in range(n)],
             n=[0.1 + 0.05*i for i in range(n)], sig_n=[0.001]*n, ncorlengths=[[2., 3., 1.]]*n)
    d.update(kw)
    return d


def strata1(*aes, **kw):
    d = dict(strata=['s0'], strata_contact_models=[], ae=list(aes), ae_in_strata=[list(aes)],
             ae_prob=[[1.0/len(aes)]*len(aes)], ae_z_mean=[[1000.]*len(aes)], avul_prob=[[0]],
             avul=[[0, 0]], bg_facies=['f0'], bg_azim=[0.], bg_dip=[0.])
    d.update(kw)
    return d


def grid(nx, ny, nz, d=1., **kw):
    m = dict(dx=d, lx=nx*d, ly=ny*d, lz=nz*d)
    m.update(kw)
    return m


def sheet(**kw):
    d = dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f0'], lens_thickness=-1)
    d.update(kw)
    return d


def trough(**kw):
    d = dict(geometry='trough', structure='massive', contact_model=['flat'], facies=['f1'], agg=1000.,
             length=4., width=4., depth=2., trough_density=0., paleoflow=[0., 0.])
    d.update(kw)
    return d


def channel(**kw):
    d = dict(geometry='channel', structure='massive', contact_model=['flat'], facies=['f1'], agg=1.,
             width=4., depth=2., h=0.1, k=0.5, ds=1., eps_factor=0., channel_no=1)
    d.update(kw)
    return d


def model(nx=4, ny=4, nz=4, d=1., run=None, grd=None, strata=None, hydraulics=None, flowtrans=None, **elements):
    """Text of an ini-file."""
    r = dict(outputs=['npz'])
    r.update(run or {})
    m = grid(nx, ny, nz, d)
    m.update(grd or {})
    s = strata1(*elements)
    s.update(strata or {})
    h = hyd()
    h.update(hydraulics or {})
    return ini(run=r, model=m, strata=s, **elements, hydraulics=h, flowtrans=flowtrans)


_n = 0


class Out:
    pass


def run(text, seed=1, overwrite=None, directory=None, name='m.ini'):
    """Runs HyVR; ``.data`` are the arrays of the (last) realization, ``.error`` what was raised."""
    global _n
    import hyvr
    o = Out()
    if directory is None:
        _n += 1
        directory = os.path.join(SCRATCH, 'r%d' % _n)
        os.mkdir(directory)
    o.dir = directory
    o.ini = os.path.join(directory, name)
    if text is not None:
        with open(o.ini, 'w') as f:
            f.write(text)
    np.random.seed(seed)
    o.error = None
    o.stdout = io.StringIO()
    with contextlib.redirect_stdout(o.stdout), contextlib.redirect_stderr(io.StringIO()), \
            warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        try:
            hyvr.run(o.ini, overwrite)
        except (Exception, SystemExit) as e:
            o.error = e
    o.files = sorted(os.path.relpath(os.path.join(r, f), directory)
                     for r, _, fs in os.walk(directory) for f in fs)
    o.all = [dict(np.load(os.path.join(directory, f))) for f in o.files if f.endswith('.npz')]
    o.data = o.all[-1] if o.all else None
    return o


def ok(text, **kw):
    o = run(text, **kw)
    if o.error is not None:
        sys.exit('unexpected error: %r' % o.error)
    return o


def expect(cond, msg=''):
    if not cond:
        sys.exit('FAILED ' + str(msg))
