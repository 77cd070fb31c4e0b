"""C02: shapes of list options: acceptance, expansion, rejection."""
import itertools

from lib.engine import Result

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is a declared shape (numbers, -1, names of other options with given values, nested shapes); every '
        'nested list value up to the bound is parsed against it by the real parser and by a reference '
        'implementation of the documented shape rules; outcome = resulting list or rejection')
BOUNDS = {'quick': 'shapes: all of {1,2,3,-1}^1..3, 8 referenced lists (flat, nested, ragged) alone and combined; '
                   'values: scalar, and all trees up to 3 levels with branching <= (3), (3,3), (2,2,2)',
          'thorough': 'shapes: all of {1,2,3,-1}^1..3; values: trees up to 3 levels with branching <= (4), (4,3), (3,2,2)'}

REFS = {'a': ['p'], 'b': ['p', 'q'], 'c': ['p', 'q', 'r'],
        'd': [['p'], ['q', 'r']], 'e': [['p', 'q'], ['r', 's']], 'f': [['p', 'q', 'r']],
        'g': [['p', 'q'], ['r', 's', 't'], ['u']], 'h': [['p'], ['q']]}


def text(v):
    if isinstance(v, list):
        return '[' + ', '.join(text(x) for x in v) + ']'
    return str(v)


def depth(v):
    return 0 if not isinstance(v, list) else 1 + (max(map(depth, v)) if v else 0)


class Reject(Exception):
    pass


def matches(v, flat):
    if not flat:
        return not isinstance(v, list)
    return isinstance(v, list) and (flat[0] in (-1, len(v))) and all(matches(x, flat[1:]) for x in v)


def like(v, ref):
    """v has the same nested shape as ref"""
    if isinstance(ref, list):
        return isinstance(v, list) and len(v) == len(ref) and all(like(x, r) for x, r in zip(v, ref))
    return not isinstance(v, list)


def fill(v, ref, d):
    """copies v into every list of ref that is d levels above the items"""
    if depth(ref) == d:
        return v
    return [fill(v, r, d) for r in ref]


def tree_of(s):
    """the list whose expanded shape has s as innermost part"""
    return [0]*s if isinstance(s, int) else [tree_of(x) for x in s]


def reference(shape, v):
    if shape == -1:
        return v if isinstance(v, list) else [v]
    if isinstance(shape, list) and any(isinstance(s, list) for s in shape):
        ref = tree_of(shape[-1])
        d = depth(v)
        if d > depth(ref):
            raise Reject()
        cand = v if d == depth(ref) else fill(v, ref, d)
        if not like(cand, ref):
            raise Reject()
        return cand
    if isinstance(shape, str):
        ref = REFS[shape]
        if depth(ref) == 1:
            shape = [len(ref)]
        else:
            d = depth(v)
            if d > depth(ref):
                raise Reject()
            cand = v if d == depth(ref) else fill(v, ref, d)
            if not like(cand, ref):
                raise Reject()
            return cand
    if isinstance(shape, int):
        shape = [shape]
    shape = [len(REFS[s]) if isinstance(s, str) else s for s in shape]
    if v == [] and shape[0] == -1:
        return []
    d = depth(v)
    if d > len(shape):
        raise Reject()
    if not matches(v, shape[len(shape) - d:]):
        raise Reject()
    outer = shape[:len(shape) - d]
    if -1 in outer:
        raise Reject()
    for n in reversed(outer):
        v = [v]*n
    return v


def trees(width, ctr):
    if not width:
        yield 0
        return
    for n in range(1, width[0] + 1):
        for sub in itertools.product(list(trees(width[1:], ctr)), repeat=n):
            yield list(sub)


def number(t, c):
    if isinstance(t, list):
        return [number(x, c) for x in t]
    c[0] += 1
    return c[0]


def values(tier):
    yield 7
    yield []
    for w in ([3], [3, 3], [2, 2, 2]) if tier == 'quick' else ([4], [4, 3], [3, 2, 2]):
        for t in trees(w, 0):
            yield number(t, [10])


def cases(tier):
    alpha = [1, 2, 3, -1]
    shapes = [-1, 1, 2, 3]
    for k in (1, 2, 3):
        shapes += [list(s) for s in itertools.product(alpha, repeat=k)]
    shapes += list(REFS)
    for r in REFS:
        for x in alpha:
            shapes += [[r, x], [x, r], [r, x, 2], [x, r, -1], [2, x, r]]
    shapes += [[2, [1, 2]], [2, [2, 2]], [1, [3]], [3, [1, 2, 1]], [2, [1, 2], [[3], [3, 3]]],
               [2, [2, 2], [[2, 2], [2, 2]]], [2, [2, 1], [[1, 2], [2]]]]
    for s in shapes:
        yield {'shape': s, 'tier': tier}


def check(case):
    from hyvr.input.option_parsing import Section, Option, ShapeError
    problems, outs, n = [], set(), 0
    shape = case['shape']
    used = [shape] if isinstance(shape, str) else [s for s in shape if isinstance(s, str)] if isinstance(shape, list) else []
    for dt, dtname in ((int, 'int'), (float, 'float')):
        for v in values(case['tier']):
            n += 1
            opts = [Option(r, list, shape=-1, datatype=str) for r in used]
            opts.append(Option('o', list, shape=[list(shape)][0] if isinstance(shape, list) else shape, datatype=dt))
            sec = {r: text(REFS[r]) for r in used}
            sec['o'] = text(v)
            try:
                want = reference(shape, v)
            except Reject:
                want = None
            try:
                parsed = Section('s', opts).parse(sec)
                got = parsed['o']
            except (ShapeError, ValueError):
                got = None
            except Exception as e:   # noqa
                problems.append('shape %r, value %s: raised %s' % (shape, text(v), type(e).__name__))
                continue
            if got != want or (got is not None and dt is float and 'float' not in repr(type(first(got)))):
                problems.append('shape %r, value %s: got %r, expected %r (None = rejected)' % (shape, text(v), got, want))
            elif got is not None and shared(list(parsed.values())):
                problems.append('shape %r, value %s: lists of the result %r are one and the same object' % (shape, text(v), got))
            outs.add(repr((case['shape'], want))[:400])
            if len(problems) > 5:
                return Result(problems, outs, n, evaluations=n)
    return Result(problems, outs, n, evaluations=n)


def first(v):
    while isinstance(v, list):
        if not v:
            return 0.0
        v = v[0]
    return v


def shared(v):
    """a list object that occurs twice"""
    ids = []

    def walk(x):
        if isinstance(x, list):
            ids.append(id(x))
            for y in x:
                walk(y)
    walk(v)
    return len(ids) != len(set(ids))
