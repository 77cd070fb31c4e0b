"""C31: every realization is a fresh, independent simulation; no state is carried over between realizations or runs."""
import itertools
import json
import os

from lib.engine import Result, digest
from lib import scene, zoo
from lib.rng import Taped

NEEDS_EXT = True
LEVEL = 'model_checking'
RULE = ('random answers are a function of (seed of the current realization, position of the draw in it) only; a case is either '
        'a scene and a sequence of seeds (one run with as many realizations must give exactly the models of the single runs '
        'with those seeds, each in its own directory) or an ordered history of runs of different scenes in one process (every '
        'run must give what the same ini-file gives on its own, whatever ran before); outcome = all arrays of the realizations')
BOUNDS = {'quick': '%d scenes x all seed sequences of length 2 over 2 seeds; all ordered pairs of scenes' % (len(zoo.scenes()) + 1),
          'thorough': '%d scenes x all seed sequences of length 2 and 3 over 3 seeds; all ordered pairs of scenes with two seed '
                      'choices, all ordered triples of 12 scenes' % (len(zoo.scenes()) + 1)}
ASSUMPTIONS = ['HyVR takes all its randomness from numpy.random']

TRIPLES = ['trough-bulb_sets', 'trough-ztrend', 'trough-xyz', 'channel-dip', 'channel-lag', 'sheet-dip', 'sheet-one', 'mixed',
           'mixed-random', 'strata-random', 'strata-thin', 'background']

TREND = scene.hydraulics(k_xtrend=[1., 3.], n_ztrend=[0.5, 1.])


def extra():
    res = zoo.scenes()
    m, s, e = res['mixed']
    e = {k: dict(v, k_ztrend=[0.5, 2.]) for k, v in e.items()}
    res['mixed-ktrend'] = (m, s, e)
    return res


def cases(tier):
    names = sorted(extra())
    for n in names:
        if tier == 'quick':
            yield {'kind': 'seq', 'scene': n, 'seeds': [0, 1], 'lengths': [2]}
        else:
            yield {'kind': 'seq', 'scene': n, 'seeds': [0, 1, 2], 'lengths': [2, 3]}
    for a in names:
        if tier == 'quick':
            yield {'kind': 'pairs', 'first': [a], 'seeds': [1]}
        else:
            yield {'kind': 'pairs', 'first': [a], 'seeds': [0, 2]}
    if tier != 'quick':
        for a, b in itertools.product(TRIPLES, repeat=2):
            yield {'kind': 'triples', 'first': [a, b], 'seeds': [1]}


def text(name, numsim=1):
    return zoo.text(extra()[name], hydraulics=TREND if name.endswith('trend') else None, run=dict(runname='r', numsim=numsim))


def setup(workdir):
    import hyvr.sim                      # noqa: F401  (imported once, but never run in this process)
    try:
        import hyvr.geo.trough, hyvr.geo.channel    # noqa: F401,E401  (only saves time)
    except ImportError:
        pass


def execute(history):
    """
    Runs a history [(scene, seeds), ...] in a process in which nothing ran before.
    Returns for every run (error, [(directory, {array: digest}), ...]).
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            res = []
            for name, seeds in history:
                o = scene.run(text(name, len(seeds)), chooser=Taped(seeds))
                res.append((o.error, [(x.realdir, {k: digest([str(v.dtype), v]) for k, v in x.data.items()})
                                      for x in o.reals]))
            with os.fdopen(w, 'w') as f:
                json.dump(res, f)
            code = 0
        except BaseException as e:       # noqa: reported to the parent
            os.write(2, repr(e).encode())
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r) as f:
            data = f.read()
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        _, status = os.waitpid(pid, 0)
    if status != 0:
        return [('the process died', [])]*len(history)
    return json.loads(data)


def same(a, b):
    """None, or what differs between two realizations"""
    if set(a) != set(b):
        return 'set of arrays'
    return next((k for k in sorted(a) if a[k] != b[k]), None)


def check(case):
    problems = []
    outcomes = set()
    trans = evals = 0
    single = {}

    def alone(name, seed):
        if (name, seed) not in single:
            err, reals = execute([(name, [seed])])[0]
            if err or len(reals) != 1:
                problems.append('%s seed %d: %s, %d realizations' % (name, seed, err, len(reals)))
                return None
            single[name, seed] = reals[0][1]
        return single[name, seed]

    if case['kind'] == 'seq':
        name = case['scene']
        refs = [alone(name, s) for s in case['seeds']]
        if any(r is None for r in refs):
            return Result(problems, 'error')
        for length in case['lengths']:
            for seeds in itertools.product(case['seeds'], repeat=length):
                err, reals = execute([(name, seeds)])[0]
                evals += 1
                trans += length
                if err or len(reals) != length:
                    problems.append('%s seeds %r: %s, %d realizations' % (name, seeds, err, len(reals)))
                    continue
                if len({d for d, _ in reals}) != length:
                    problems.append('%s: realizations share a directory' % name)
                outcomes.add(digest([r for _, r in reals]))
                for i, (s, (_, r)) in enumerate(zip(seeds, reals)):
                    d = same(r, single[name, s])
                    if d:
                        problems.append('%s seeds %r: %s of realization %d differs from a single run with the same random '
                                        'numbers' % (name, seeds, d, i + 1))
        return Result(problems[:5], outcomes, trans, evaluations=evals)

    names = sorted(extra()) if case['kind'] == 'pairs' else TRIPLES
    for s in case['seeds']:
        for last in names:
            if alone(last, s) is None:
                continue
            err, reals = execute([(f, [s + 1]) for f in case['first']] + [(last, [s])])[-1]
            evals += 1
            trans += 1 + len(case['first'])
            if err or len(reals) != 1:
                problems.append('%s after %r: %s, %d realizations' % (last, case['first'], err, len(reals)))
                continue
            outcomes.add(digest(reals[0][1]))
            d = same(reals[0][1], single[last, s])
            if d:
                problems.append('%s after %r: %s differs from a run in a fresh process' % (last, case['first'], d))
    return Result(problems[:5], outcomes, trans, evaluations=evals)
