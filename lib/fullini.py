"""A complete ini-file in which every option has its own value."""
import copy

FACIES = ['gravel', 'sand', 'silt', 'clay', 'peat']

BASE = {
    'run': dict(runname='myrun', modeldir='@DIR@/models', numsim=2, outputs=['npz', 'py'], overwrite_old_output=True),
    'model': dict(x0=1.5, y0=-2.5, z0=3.5, dx=0.5, dy=0.25, dz=0.125, lx=4.0, ly=3.0, lz=2.0, periodic=True,
                  hydraulics=False, anisotropy=False, heterogeneity=False, heterogeneity_level='facies'),
    'strata': dict(strata=['lower', 'middle', 'upper'],
                   strata_contact_models=[['flat', 4.125], ['random', 4.75, 0.05, 6.0, 7.0]],
                   ae=['tro', 'cha', 'she'],
                   ae_in_strata=[['tro'], ['cha', 'she'], ['she', 'tro', 'cha']],
                   ae_prob=[[1.0], [0.25, 0.75], [0.2, 0.3, 0.5]],
                   ae_z_mean=[[0.3], [0.4, 0.5], [0.6, 0.7, 0.8]],
                   avul_prob=[[0.01], [0.02], [0.03]], avul=[[0.1, 0.2], [0.3, 0.4], [0.5, 0.6]],
                   bg_facies=['silt', 'peat', 'gravel'], bg_azim=[11., 12., 13.], bg_dip=[14., 15., 16.]),
    'tro': dict(geometry='trough', structure='random', contact_model=['random', 0.11, 1.1, 1.2],
                facies=['sand', 'clay'], altfacies=[['clay', 'sand'], ['sand']], size_ztrend=[0.5, 1.5],
                k_ztrend=[0.51, 1.51], k_xtrend=[0.52, 1.52], n_xtrend=[0.53, 1.53], n_ztrend=[0.54, 1.54],
                dip=[1., 2.], azimuth=[3., 4.], bg_facies='peat', bg_azim=21., bg_dip=22.,
                agg=0.31, buffer=0.32, lag_height=0.033, lag_facies='gravel',
                dipset_dist=0.34, bulbset_dist=0.35, length=5.1, width=5.2, depth=0.53, trough_density=0.54,
                paleoflow=[-5., 6.], te_xyz=[[1., 2., 3.], [4., 5., 6.]], migrate=[0.1, 0.2, 0.3, 0.4]),
    'cha': dict(geometry='channel', structure='dip', contact_model=['flat'],
                facies=['silt'], altfacies=[['silt']], size_ztrend=[0.6, 1.6],
                k_ztrend=[0.61, 1.61], k_xtrend=[0.62, 1.62], n_xtrend=[0.63, 1.63], n_ztrend=[0.64, 1.64],
                dip=[5., 6.], azimuth=[7., 8.], bg_facies='sand', bg_azim=31., bg_dip=32.,
                agg=0.41, buffer=0.42, lag_height=0.043, lag_facies='clay',
                dipset_dist=0.44, width=6.2, depth=0.63, h=0.64, k=0.65, ds=0.66, eps_factor=0.67, channel_no=3,
                mig=0.68, flow_angle=69.),
    'she': dict(geometry='sheet', structure='dip', contact_model=['random', 0.22, 2.1, 2.2],
                facies=['clay', 'gravel', 'peat'], altfacies=[['gravel'], ['peat', 'clay'], ['clay']],
                size_ztrend=[0.7, 1.7],
                k_ztrend=[0.71, 1.71], k_xtrend=[0.72, 1.72], n_xtrend=[0.73, 1.73], n_ztrend=[0.74, 1.74],
                dip=[9., 10.], azimuth=[11., 12.], bg_facies='clay', bg_azim=41., bg_dip=42.,
                dipset_dist=0.54, lens_thickness=0.55),
    'hydraulics': dict(hydrofacies=FACIES, k_h=[1e-1, 1e-2, 1e-3, 1e-4, 1e-5], sig_y=[.1, .2, .3, .4, .5],
                       k_ratio=[1., 2., 3., 4., 5.], n=[.11, .12, .13, .14, .15], sig_n=[.01, .02, .03, .04, .05],
                       ycorlengths=[[1., 2., 3.], [4., 5., 6.], [7., 8., 9.], [10., 11., 12.], [13., 14., 15.]],
                       ncorlengths=[[.1, .2, .3], [.4, .5, .6], [.7, .8, .9], [1., 1.1, 1.2], [1.3, 1.4, 1.5]],
                       k_ztrend=[.8, 1.8], k_xtrend=[.81, 1.81], n_ztrend=[.82, 1.82], n_xtrend=[.83, 1.83]),
    'flowtrans': dict(hin=[1.1, 1.2, 1.3], hout=[0.1, 0.2, 0.3], gradh=0.014, q_in=0.015, kw_gradh=0.016, kw_q_in=0.017),
}

# options that may be left out, with the documented value used then
OPTIONAL = {
    'run': dict(runname='STEM', modeldir='INIDIR', numsim=1, outputs=[], overwrite_old_output=False),
    'model': dict(x0=0.0, y0=0.0, z0=0.0, dy='DX', dz='DX', periodic=False, hydraulics=True, anisotropy=True,
                  heterogeneity=True, heterogeneity_level='internal'),
    'strata': {},
    'hydraulics': dict(k_ztrend=None, k_xtrend=None, n_ztrend=None, n_xtrend=None),
    'flowtrans': dict(hin=None, hout=None, gradh=None, q_in=None, kw_gradh=None, kw_q_in=None),
}
_common = dict(altfacies=None, size_ztrend=None, k_ztrend=None, k_xtrend=None, n_xtrend=None, n_ztrend=None,
               dip=[0.0, 0.0], azimuth=[0.0, 0.0], bg_facies='NONE', bg_azim='NAN', bg_dip='NAN')
_erosive = dict(buffer=0.0, lag_height=0.0)
OPTIONAL['tro'] = dict(_common, **_erosive, te_xyz=None, migrate=None)
OPTIONAL['cha'] = dict(_common, **_erosive, mig=0.0, flow_angle=0.0)
OPTIONAL['she'] = dict(_common)


def base():
    return copy.deepcopy(BASE)
