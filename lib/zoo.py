"""
A collection of small complete models that together use every geometry, internal structure, contact type and option.
Each is (model, strata, elements); ``text(...)`` makes the ini-file.
"""
import copy

from lib import scene

BASE = dict(dx=0.5, dy=0.5, dz=0.25, lx=3., ly=2., lz=2.5, x0=2., y0=-1., z0=1.)


def trough(**kw):
    d = dict(geometry='trough', structure='flat', contact_model=['flat'], facies=['f1', 'f2'], dip=[10., 30.],
             azimuth=[-40., 40.], agg=0.6, length=2.5, width=1.6, depth=0.8, trough_density=0.3, paleoflow=[-30., 60.],
             dipset_dist=0.35, bulbset_dist=0.22)
    d.update(kw)
    return d


def channel(**kw):
    d = dict(geometry='channel', structure='massive', contact_model=['flat'], facies=['f1', 'f3'], dip=[15., 35.],
             azimuth=[0., 0.], agg=0.7, width=1.2, depth=0.7, h=0.4, k=0.7, ds=0.5, eps_factor=0.2, channel_no=2,
             mig=0.3, flow_angle=20., dipset_dist=0.4)
    d.update(kw)
    return d


def sheet(**kw):
    d = dict(geometry='sheet', structure='massive', contact_model=['flat'], facies=['f2', 'f4'], dip=[5., 25.],
             azimuth=[-90., 90.], lens_thickness=0.6, dipset_dist=0.3)
    d.update(kw)
    return d


def strata(ae, in_strata, contacts=(), prob=None, zmean=None, avul_prob=0.5, avul=(0.1, 0.2)):
    n = len(in_strata)
    return dict(strata=['s%d' % i for i in range(n)], strata_contact_models=[list(c) for c in contacts], ae=list(ae),
                ae_in_strata=[list(x) for x in in_strata],
                ae_prob=prob or [[1./len(x)]*len(x) for x in in_strata],
                ae_z_mean=zmean or [[0.8 + 0.2*i for i in range(len(x))] for x in in_strata],
                avul_prob=[[avul_prob]]*n, avul=[list(avul)]*n,
                bg_facies=['f%d' % (i % 5) for i in range(n)], bg_azim=[10.*i for i in range(n)],
                bg_dip=[3.*i for i in range(n)])


def scenes():
    res = {}
    one = lambda e, **kw: (dict(BASE, **kw), strata(['e'], [['e']]), {'e': e})
    for st in ('flat', 'massive', 'dip', 'bulb', 'bulb_sets', 'random'):
        res['trough-' + st] = one(trough(structure=st))
    res['trough-lag'] = one(trough(structure='dip', lag_height=0.2, lag_facies='f4', bg_facies='f3', bg_azim=5., bg_dip=6.))
    res['trough-periodic'] = one(trough(structure='bulb_sets', altfacies=[['f2'], ['f1']]), periodic=True)
    res['trough-ztrend'] = one(trough(structure='random', size_ztrend=[0.6, 1.4], buffer=0.3, migrate=[0.3, 0.1, 0.2, 0.]))
    res['trough-xyz'] = one(trough(te_xyz=[[3., 0., 3.4], [4., 0.5, 2.6], [2.2, -0.8, 3.]]))
    for st in ('massive', 'dip'):
        res['channel-' + st] = one(channel(structure=st))
    res['channel-lag'] = one(channel(structure='dip', lag_height=0.15, lag_facies='f0', size_ztrend=[0.8, 1.3],
                                     altfacies=[['f3'], ['f1']], buffer=0.2))
    for st in ('massive', 'dip'):
        res['sheet-' + st] = one(sheet(structure=st))
    res['sheet-one'] = one(sheet(lens_thickness=-1, structure='dip', altfacies=[['f4'], ['f2', 'f4']]))
    res['sheet-ztrend'] = one(sheet(size_ztrend=[0.5, 1.5], structure='dip'))
    el = {'t': trough(), 'c': channel(structure='dip'), 's': sheet(structure='dip')}
    three = ['t', 'c', 's']
    res['mixed'] = (dict(BASE), strata(three, [three]), el)
    res['mixed-random'] = (dict(BASE), strata(three, [three]),
                           {k: dict(v, contact_model=['random', 0.02, 1., 2.]) for k, v in el.items()})
    res['strata-flat'] = (dict(BASE), strata(three, [['s'], ['t'], ['c']], [['flat', 1.8], ['flat', 2.6]]), el)
    res['strata-random'] = (dict(BASE), strata(three, [['c', 's'], ['t', 's'], ['s']],
                                               [['random', 1.9, 0.05, 2., 1.], ['random', 2.4, 0.08, 1., 2.]]),
                            {k: dict(v, contact_model=['random', 0.01, 1., 1.]) for k, v in el.items()})
    res['strata-empty'] = (dict(BASE), strata(three, [['c'], ['s'], ['t']], [['flat', 2.8], ['flat', 2.1]]), el)
    res['strata-thin'] = (dict(BASE), strata(three, [['t', 'c'], ['s']], [['flat', 3.4]], zmean=[[0.3, 0.35], [0.2]]), el)
    res['strata-prob'] = (dict(BASE), strata(three, [['t', 'c', 's']], prob=[[0.5, 0., 0.5]]), el)
    res['order'] = (dict(BASE), strata(['s', 't', 'c'], [['t'], ['s', 'c']], [['flat', 2.0]]), el)
    # contacts exactly at the level of cell centres
    res['ties'] = (dict(BASE), strata(three, [['t', 'c'], ['s', 't'], ['c']], [['flat', 1.875], ['flat', 2.625]],
                                      zmean=[[0.25, 0.5], [0.25, 0.25], [0.375]], avul_prob=0.), el)
    res['channel-buffer'] = one(channel(size_ztrend=[0.5, 2.], buffer=1.5, agg=0.25, eps_factor=0., channel_no=1, width=0.8,
                                        depth=0.4))
    res['trough-buffer'] = one(trough(size_ztrend=[2., 0.5], buffer=1.5, agg=0.25, depth=0.4))
    # large aggradation: background only
    res['background'] = (dict(BASE), strata(['t', 'c'], [['t'], ['c']], [['flat', 2.3]]),
                         {'t': trough(trough_density=0., bg_facies='f4', bg_dip=7.), 'c': channel(agg=50., bg_azim=12.)})
    return res


def text(sc, hydraulics=None, run=None, model=None, flowtrans=None):
    m, s, e = copy.deepcopy(sc)
    m.update(model or {})
    return scene.ini(run or {}, m, s, e, hydraulics or scene.hydraulics(), flowtrans)
