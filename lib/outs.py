"""Models for the checks of the output formats: all cells differ in conductivity, porosity and (mostly) orientation."""
from lib import scene, zoo
from lib.rng import Chooser

D = (0.5, 0.8, 0.3)
ORIGIN = (2., -1., 1.)


def text(shape, which, outputs, model=None, flowtrans=None, run=None, origin=ORIGIN):
    """(model section, ini-file)"""
    m = dict(dx=D[0], dy=D[1], dz=D[2], lx=D[0]*shape[0], ly=D[1]*shape[1], lz=D[2]*shape[2],
             x0=origin[0], y0=origin[1], z0=origin[2])
    m.update(model or {})
    x0, y0, z0 = origin
    top = z0 + m['lz']
    if which == 'trough':
        el = {'t': zoo.trough(structure='bulb', te_xyz=[[x0 + 0.6*m['lx'], y0 + 0.3*m['ly'], top]], length=4*m['lx'], width=3*m['ly'],
                              depth=2*m['lz'], paleoflow=[20., 20.], dip=[0., 60.], bg_azim=-35., bg_dip=-12.)}
        st = zoo.strata(['t'], [['t']], avul_prob=0, zmean=[[1e6]])
    else:
        n = max(1, min(4, shape[2]))
        el = {'s%d' % i: zoo.sheet(azimuth=[-70. + 45*i, -60. + 45*i], dip=[5. + 11*i, 12. + 11*i], lens_thickness=-1) for i in range(n)}
        st = zoo.strata(list(el), [[k] for k in el], [['flat', z0 + m['lz']*(i + 1)/n] for i in range(n - 1)], avul_prob=0,
                        zmean=[[1e6]]*n)
    hy = scene.hydraulics(k_h=[1e-1, 1e-3, 2e-4, 1e-5, 1e-6])
    r = dict(outputs=outputs)
    r.update(run or {})
    return m, scene.ini(r, m, st, el, hy, flowtrans)


def execute(txt, directory, salt=0, **kw):
    ch = Chooser(fields='generic')
    ch._salt = salt
    return scene.run(txt, chooser=ch, keep_outputs=True, directory=directory, **kw)
