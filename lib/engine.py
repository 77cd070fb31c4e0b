"""
Explicit enumeration engine.

A check module (checks/cXX.py) provides

    NEEDS_EXT  bool: whether the Cython modules have to be compiled
    LEVEL      'model_checking' or 'fault_enumeration'
    RULE       how cases are made and what makes one non-trivial
    BOUNDS     dict tier -> text describing the bound
    cases(tier)            -> iterable of JSON-able cases (the initial frontier)
    check(case)            -> Result

``Result.children`` are further cases discovered by executing a case (the
alternatives of the choice points that execution went through), so that the
engine performs a breadth-first, deviation-bounded exploration: all executions
with 0 deviations from the default answers, then 1, then 2, ...
Every case is a complete execution of the real code, compared step by step with
a reference model; a case fails if ``Result.problems`` is non-empty.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
CASE_TIMEOUT = 100
STALL_TIMEOUT = 400        # no answer from a worker (stuck in compiled code)
AFTER_BAD = 20             # seconds to look for more counterexamples
MAX_PROBLEM_CASES = 25


class Result:
    __slots__ = ('problems', 'outcome', 'transitions', 'children', 'trivial', 'evaluations')

    def __init__(self, problems=(), outcome='', transitions=1, children=(), trivial=False, evaluations=1):
        """``outcome`` identifies the final state (a set: those of a batch of ``evaluations`` executions)."""
        self.problems = list(problems)
        if isinstance(outcome, (set, frozenset)):
            self.outcome = {short(o) for o in outcome}
        else:
            self.outcome = {short(outcome)}
        self.evaluations = evaluations
        self.transitions = transitions
        self.children = list(children)
        self.trivial = trivial


def short(o):
    if isinstance(o, str) and len(o) <= 40:
        return o
    return digest(o)


def digest(obj):
    import numpy as np

    def default(o):
        if isinstance(o, np.ndarray):
            return hashlib.sha1(np.ascontiguousarray(o).tobytes() + str(o.shape).encode()).hexdigest()
        return repr(o)
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=default).encode()).hexdigest()


class Crashed(Exception):
    pass


def results(pool, todo, chunk, scratch, limit=0):
    """Results in order; notices workers that die or hang in compiled code."""
    def workers():
        return {p.pid: p for p in pool._pool}
    known = workers()
    chunks = [todo[i:i + chunk] for i in range(0, len(todo), chunk)]
    it = pool.imap(_work_chunk, chunks)
    last = time.time()
    stall = max(STALL_TIMEOUT, limit + 60)
    for _ in chunks:
        while True:
            try:
                res = it.next(timeout=2)
                last = time.time()
                break
            except mp.TimeoutError:
                now = workers()
                dead = [pid for pid, p in known.items() if pid not in now or p.exitcode is not None]
                if dead or time.time() - last > stall:
                    pid = dead[0] if dead else next(iter(known))
                    try:
                        case = json.load(open(os.path.join(scratch, 'current%d' % pid)))
                    except Exception:
                        case = todo[0]
                    raise Crashed('the process died' if dead else 'the execution hangs', case)
        yield from res


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


# ---------------------------------------------------------------------------
# building the code under test
# ---------------------------------------------------------------------------

def build(dest, ext):
    """Copies /repo's package and compiles its Cython modules, outside /repo."""
    import subprocess
    import sysconfig
    import numpy
    shutil.copytree(os.path.join(REPO, 'hyvr'), os.path.join(dest, 'hyvr'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__', '*.pyd'))
    if not ext:
        return
    mods = []
    for root, _, files in os.walk(os.path.join(dest, 'hyvr')):
        for f in files:
            # modules that also exist in pure Python are not compiled: the
            # Python version is the one that is used without a build
            if f.endswith('.pyx') and not os.path.exists(os.path.join(root, f[:-4] + '.py')):
                mods.append(os.path.join(root, f[:-4]))
    inc = ['-I' + sysconfig.get_path('include'), '-I' + numpy.get_include()]
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    py = sys.executable
    procs = []
    for m in mods:
        cmd = ('"{py}" -m cython -3 "{m}.pyx" && gcc -O1 -w -fPIC -shared {inc} "{m}.c" -o "{m}{suf}"'
               .format(py=py, m=m, inc=' '.join(inc), suf=suffix))
        procs.append((m, subprocess.Popen(cmd, shell=True, cwd=dest, stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT)))
    for m, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            sys.stderr.write(out.decode(errors='replace'))
            raise RuntimeError('cannot build ' + m)


# ---------------------------------------------------------------------------
# workers
# ---------------------------------------------------------------------------

_mod = None
WORKDIR = None


def _init(modname, scratch):
    global _mod, WORKDIR
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    WORKDIR = os.path.join(scratch, 'w%d' % os.getpid())
    os.makedirs(WORKDIR, exist_ok=True)
    os.chdir(WORKDIR)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    _mod = importlib.import_module(modname)
    global CASE_TIMEOUT
    CASE_TIMEOUT = getattr(_mod, 'CASE_TIMEOUT', {}).get(os.environ.get('VERIF_RUN_TIER'), CASE_TIMEOUT)
    if hasattr(_mod, 'setup'):
        _mod.setup(WORKDIR)


def _work_chunk(cases):
    res = []
    for c in cases:
        r = _work(c)
        res.append(r)
        if r[0] == 'ok' and 'timeout' in r[2]:
            break               # the run stops here anyway
    return res


# results of the wrong shape or type, or without an expected part
UNUSABLE = (IndexError, KeyError, ValueError, TypeError, ArithmeticError, AssertionError, EOFError,
            FileNotFoundError, NotADirectoryError, IsADirectoryError)


def _work(case):
    with open(os.path.join(os.path.dirname(WORKDIR), 'current%d' % os.getpid()), 'w') as f:
        json.dump(case, f)
    signal.alarm(CASE_TIMEOUT)
    try:
        r = _mod.check(case)
        signal.alarm(0)
        return ('ok', r.problems, r.outcome, r.transitions, r.children, r.trivial, r.evaluations)
    except CaseTimeout:
        return ('ok', ['the execution did not end within %d s' % CASE_TIMEOUT], {'timeout'}, 1, [], False, 1)
    except UNUSABLE as e:
        # the oracles evaluate everything that a correct run can produce
        where = traceback.extract_tb(e.__traceback__)[-1]
        return ('ok', ['the results cannot be evaluated: %s: %s (%s, line %d)' % (
            type(e).__name__, str(e)[:200], os.path.basename(where.filename), where.lineno)], {'unusable'}, 1, [], False, 1)
    except Exception as e:      # noqa
        # files that a reader does not understand
        if any(os.path.basename(t.filename) == 'readers.py' or '/flopy/' in t.filename
               for t in traceback.extract_tb(e.__traceback__)) and getattr(e, 'errno', None) is None:
            return ('ok', ['the results cannot be read: %s: %s' % (type(e).__name__, str(e)[:200])], {'unusable'}, 1, [], False, 1)
        return ('error', traceback.format_exc(), case)
    finally:
        signal.alarm(0)


# ---------------------------------------------------------------------------
# main
# ---------------------------------------------------------------------------

def known_findings(prop):
    """Lines 'finding: property=<id> key=<substring> <what fails>' of known_findings.txt"""
    res = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split('key=', 1)[1]
                key, _, text = rest.partition(' :: ')
                res.append((key.strip(), text.strip()))
    return res


def main(argv):
    if argv and argv[0] == '--selftest':
        return selftest()
    prop = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    rest = argv[1:]
    if rest and rest[0] in ('quick', 'thorough'):
        tier = rest[0]
    if rest and rest[0] == '--replay':
        replay = rest[1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.environ['VERIF_RUN_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    modname = 'checks.' + prop.lower()
    scratch = tempfile.mkdtemp(prefix='hyvr_verif_')
    try:
        src = os.path.join(scratch, 'src')
        os.makedirs(src)
        sys.path.insert(0, src)
        sys.path.insert(0, VERIF)
        os.environ['PYTHONPATH'] = src
        os.environ['VERIF_SRC'] = src
        # the modules only hold definitions; hyvr is imported in setup()/check()
        mod = importlib.import_module(modname)
        build(src, getattr(mod, 'NEEDS_EXT', False))
        return explore(prop, modname, mod, tier, seed, scratch, t0, replay)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, modname, mod, tier, seed, scratch, t0, replay):
    if replay:
        frontier = [json.load(open(replay))['case']]
    else:
        frontier = list(mod.cases(tier))
        rdir = os.path.join(EVIDENCE, 'replays')
        for f in os.listdir(rdir) if os.path.isdir(rdir) else ():
            if f.startswith(prop + '-'):
                os.remove(os.path.join(rdir, f))
    nproc = int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
    stats = dict(evaluations=0, transitions=0, nontrivial=0)
    outcomes = set()
    levels = []
    samples = []
    bad = []
    errors = []
    seen = set()
    ctx = mp.get_context('fork')
    cap = getattr(mod, 'CAP', {}).get(tier)
    capped = False
    stop = False
    with ctx.Pool(nproc, _init, (modname, scratch)) as pool:
        level = 0
        while frontier and not replay or (replay and level == 0):
            todo = []
            for c in frontier:
                k = json.dumps(c, sort_keys=True)
                h = hashlib.sha1(k.encode()).digest()
                if h not in seen:
                    seen.add(h)
                    todo.append(c)
            if cap and stats['evaluations'] + len(todo) > cap:
                capped = True
                break
            chunk = max(1, min(64, len(todo) // (nproc * 8) or 1))
            nxt = []
            it = results(pool, todo, chunk, scratch, getattr(mod, 'CASE_TIMEOUT', {}).get(tier, 0))
            t_bad = None
            count = 0
            for rnd, case in enumerate(todo):
                try:
                    res = next(it)
                except Crashed as e:
                    bad.append((e.args[1], [e.args[0]]))
                    stop = True
                    break
                if res[0] == 'error':
                    errors.append(res[1:])
                    if len(errors) > 3:
                        break
                    continue
                _, problems, outcome, trans, children, trivial, evals = res
                stats['evaluations'] += evals
                count += evals
                stats['transitions'] += trans
                outcomes |= outcome
                if not trivial:
                    stats['nontrivial'] += evals
                if problems:
                    bad.append((case, problems))
                    t_bad = t_bad or time.time()
                    if len(bad) >= MAX_PROBLEM_CASES or 'timeout' in outcome:
                        stop = True
                        break
                elif len(samples) < 3 or (len(samples) < 6 and rnd % 97 == 96):
                    samples.append(case)
                nxt.extend(children)
                if t_bad and time.time() - t_bad > AFTER_BAD:
                    stop = True
                    break
            levels.append(count)
            if errors or stop:
                pool.terminate()
                break
            if bad:
                # report the shortest counterexamples: do not go deeper
                break
            frontier = nxt
            level += 1
    wall = time.time() - t0
    coverage = {}
    if mod.LEVEL == 'model_checking':
        coverage.update(states=len(outcomes), transitions=stats['transitions'],
                        traces_validated_against_impl=stats['evaluations'])
    else:
        coverage.update(evaluations=stats['evaluations'], distinct_nontrivial=len(outcomes))
    coverage.update(
        executions_per_deviation_level=levels,
        rule=mod.RULE,
        bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
        exhaustive=not (capped or bad or errors or replay),
        nontrivial_executions=stats['nontrivial'],
        samples=[trim(s) for s in samples] or [trim(bad[0][0])] if (samples or bad) else ['none'],
    )
    findings = known_findings(prop)
    new = []
    known_hit = {}
    for case, problems in bad:
        rest = []
        for p in problems:
            for key, text in findings:
                if key in p:
                    known_hit[key] = text
                    break
            else:
                rest.append(p)
        if rest:
            new.append((case, rest))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=coverage,
                       assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2),
                       violations=len(new)), f, indent=1, default=str)
        f.write('\n')
    print('%s %s: %d executions %s, %d distinct outcomes, %d transitions, %.1f s' % (
        prop, tier, stats['evaluations'], levels, len(outcomes), stats['transitions'], wall))
    for key, text in known_hit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if errors and not new:
        for tb, case in errors[:2]:
            sys.stderr.write('check error on case %s\n%s\n' % (json.dumps(case, default=str)[:2000], tb))
        return 2
    if new:
        rdir = os.path.join(EVIDENCE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for i, (case, problems) in enumerate(new[:5]):
            path = os.path.join(rdir, '%s-%d.json' % (prop, i))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, case=case, problems=problems[:20],
                               replay='cd /verif && ./run.py %s --replay %s' % (prop, path)), f, indent=1, default=str)
                f.write('\n')
            print('VIOLATION property=%s replay=%s' % (prop, path))
            for p in problems[:3]:
                print('   ' + str(p)[:400])
        return 1
    if capped:
        sys.stderr.write('%s: case cap reached, exploration incomplete\n' % prop)
    if stats['evaluations'] == 0 or (len(outcomes) < 2 and not replay):
        sys.stderr.write('%s: vacuous exploration\n' % prop)
        return 2
    return 0


def trim(case):
    s = json.dumps(case, default=str)
    return case if len(s) < 1500 else s[:1500] + '...'


def selftest():
    import numpy, scipy, h5py, flopy, pyevtk, Cython   # noqa: F401,E401
    print('tool chain: ok')
    return 0
