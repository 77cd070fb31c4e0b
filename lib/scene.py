"""
Building ini-files and executing HyVR on them through its public entry point.
"""
import contextlib
import copy
import io
import os
import shutil
import warnings

import numpy as np

from lib import engine
from lib.rng import Chooser


def fmt(v):
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(fmt(x) for x in v) + ']'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, float):
        return repr(v)
    return str(v)


def ini(run=None, model=None, strata=None, elements=None, hydraulics=None, flowtrans=None, **other):
    out = []
    secs = [('run', run), ('model', model), ('strata', strata)]
    secs += list((elements or {}).items())
    secs += [('hydraulics', hydraulics), ('flowtrans', flowtrans)]
    for name, sec in secs:
        if sec is None:
            continue
        out.append('[%s]' % name)
        for k, v in sec.items():
            if v is not None:
                out.append('%s = %s' % (k, fmt(v)))
        out.append('')
    return '\n'.join(out) + '\n'


def hydraulics(names=('f0', 'f1', 'f2', 'f3', 'f4'), **kw):
    n = len(names)
    d = dict(hydrofacies=list(names),
             k_h=[10.0**(-i-1) for i in range(n)],
             sig_y=[0.5 + 0.25*i for i in range(n)],
             ycorlengths=[[3., 2., 1.]]*n,
             k_ratio=[1.0 + 0.5*i for i in range(n)],
             n=[0.1 + 0.05*i for i in range(n)],
             sig_n=[0.001]*n,
             ncorlengths=[[2., 3., 1.]]*n)
    d.update(kw)
    return d


def strata1(ae, **kw):
    """A single stratum with one type of element."""
    d = dict(strata=['s0'], strata_contact_models=[], ae=[ae], ae_in_strata=[[ae]],
             ae_prob=[[1.0]], ae_z_mean=[[1000.]], avul_prob=[[0]], avul=[[0, 0]],
             bg_facies=['f0'], bg_azim=[0.], bg_dip=[0.])
    d.update(kw)
    return d


class Real:
    """One realization: a copy of the model data, and the generated units."""

    def __init__(self, model, realdir, runname, outputs):
        self.model = model
        self.grid = model.grid
        self.data = {k: np.array(v, copy=True) for k, v in model.data.items()}
        self.strata = list(model.strata)
        self.realdir = str(realdir)
        self.runname = runname
        self.outputs = list(outputs)


class Outcome:
    def __init__(self):
        self.reals = []
        self.error = None
        self.chooser = None
        self.stdout = ''


_count = 0


def fresh_dir():
    global _count
    _count += 1
    d = os.path.join(engine.WORKDIR, 'd%06d' % _count)
    os.makedirs(d)
    return d


def run(text, deviations=(), chooser=None, keep_outputs=False, flag_ow=None, directory=None,
        name='m.ini', warned=None):
    """
    Writes the ini-file and runs hyvr.run on it with controlled randomness.
    Everything that HyVR raises ends up in ``outcome.error``.
    """
    import hyvr
    import hyvr.sim as sim
    import hyvr.postprocess.output as output
    o = Outcome()
    d = directory or fresh_dir()
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        f.write(text)
    orig = {}

    def capture(model, realization_dir, runname, formats):
        o.reals.append(Real(model, realization_dir, runname, formats))
        ch.next_realization()
        if keep_outputs:
            return orig['output'](model, realization_dir, runname, formats)

    ch = chooser or Chooser(deviations)
    o.chooser = ch
    orig['output'] = output.create_outputs
    orig['sim'] = getattr(sim, 'create_outputs', None)
    try:
        output.create_outputs = capture
        if orig['sim'] is not None:
            sim.create_outputs = capture
        buf = io.StringIO()
        with ch, warnings.catch_warnings(record=True) as caught, contextlib.redirect_stdout(buf):
            warnings.simplefilter('ignore' if warned is None else 'always')
            try:
                hyvr.run(path, flag_ow)
            except Exception as e:      # noqa: the error is part of the observed behaviour
                o.error = '%s: %s' % (type(e).__name__, e)
                o.exception = e
            except SystemExit as e:
                o.error = 'SystemExit: %s' % e
                o.exception = e
        o.stdout = buf.getvalue()
        if warned is not None:
            warned.extend(str(w.message) for w in caught)
    finally:
        output.create_outputs = orig['output']
        if orig['sim'] is not None:
            sim.create_outputs = orig['sim']
        if directory is None:
            shutil.rmtree(d, ignore_errors=True)
    return o


def cell_centres(model):
    """The cell centres that the ini-file's [model] section asks for (exact for our grids)."""
    res = []
    for a in 'xyz':
        d = model.get('d' + a, model['dx'])
        if d is None:
            d = model['dx']
        n = int(round(model['l' + a]/d))
        res.append(model.get(a + '0', 0.) + d*(np.arange(n) + 0.5))
    return res


def near(a, b, tol=1e-9):
    return np.allclose(a, b, rtol=1e-9, atol=tol, equal_nan=True)


def first_bad(mask, cells=None):
    """Index of the first True entry."""
    idx = np.argwhere(mask)
    return tuple(int(i) for i in idx[0]) if len(idx) else None
