"""C01: text of list options <-> nested lists."""
import itertools

from lib.engine import Result

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is a prefix of texts over the alphabet "[", "]", ",", one or two item texts and blank; '
        'all completions up to the length bound are parsed by the real option parser and by a reference '
        'grammar (recursive descent), for int, float and str items; outcome = parsed structure')
BOUNDS = {'quick': 'all texts up to 8 tokens over {[ ] , 1}, up to 6 tokens over {[ ] , 12 blank newline} (numbers), up to 7 '
                   'over {[ ] , f} and 6 over {[ ] , f blank newline} (names), up to 5 with items of the wrong type (1.5, x, - for '
                   'int, x, 1.5.2 for float); all trees up to 3 levels with branching <= 3 (3,2,2), 4 whitespace layouts, 3 item types',
          'thorough': 'all texts up to 10 tokens over {[ ] , 1}, up to 7 over {[ ] , 12 blank newline}, up to 9 over {[ ] , f}, 7 over '
                      '{[ ] , f blank newline}, 6 with items of the wrong type; same trees'}


class Bad(Exception):
    pass


def ref_parse(tokens, conv):
    """Reference: value := item | '[' ']' | '[' value (',' value)* ']', uniform depth; blanks ignored."""
    toks = [t for t in tokens if t.strip()]
    pos = 0

    def value():
        nonlocal pos
        if pos >= len(toks):
            raise Bad()
        t = toks[pos]
        if t == '[':
            pos += 1
            items = []
            if pos < len(toks) and toks[pos] == ']':
                pos += 1
                return [], 1
            depth = None
            while True:
                v, d = value()
                if depth is not None and d != depth:
                    raise Bad()
                depth = d
                items.append(v)
                if pos >= len(toks):
                    raise Bad()
                if toks[pos] == ',':
                    pos += 1
                    continue
                if toks[pos] == ']':
                    pos += 1
                    return items, depth + 1
                raise Bad()
        if t in '],':
            raise Bad()
        pos += 1
        return conv(t), 0

    v, d = value()
    if pos != len(toks):
        raise Bad()
    return v if d else [v]


def ambiguous(tokens):
    """Two items next to each other (only blanks between): not claimed."""
    prev = None
    for t in tokens:
        if not t.strip():
            continue
        if prev not in (None, '[', ']', ',') and t not in '[],':
            return True
        prev = t
    return False


def real(text, dt):
    from hyvr.input.option_parsing import Section, Option
    return Section('s', [Option('o', list, shape=-1, datatype=dt)]).parse({'o': text})['o']


TYPES = {'int': int, 'float': float, 'str': str}


def compare(tokens, dtname, problems, outs):
    dt = TYPES[dtname]
    text = ''.join(tokens)
    try:
        want = ref_parse(tokens, dt)
    except (Bad, ValueError):
        want = None
    try:
        got = real(text, dt)
    except ValueError:
        got = None
    except Exception as e:      # noqa
        problems.append('%r as %s: %s instead of ValueError or a list' % (text, dtname, type(e).__name__))
        return
    if got != want or (got is not None and repr(got) != repr(want)):
        problems.append('%r as list of %s: got %r, expected %r (None = rejected)' % (text, dtname, got, want))
    outs.add(repr(want))


def trees(levels, width):
    if levels == 0:
        yield 'x'
        return
    for n in range(0, width[0] + 1):
        for sub in itertools.product(list(trees(levels - 1, width[1:])), repeat=n):
            yield list(sub)


def tokens_of(t, layout, ctr):
    if t == 'x':
        ctr[0] += 1
        item = ctr[1][ctr[0] % len(ctr[1])]
        return {0: [item], 1: [' ', item, ' '], 2: ['\n  ', item], 3: [item, '\t']}[layout]
    out = ['['] if layout != 1 else [' ', '[', ' ']
    for i, s in enumerate(t):
        if i:
            out += [','] if layout != 2 else [' ', ',', '\n']
        out += tokens_of(s, layout, ctr)
    return out + ([']'] if layout != 3 else [' ', ']', ' '])


ITEMS = {'int': ['1', '-2', '30', '+4'], 'float': ['1.5', '-2e-3', '3', '.25', 'nan0'][:4],
         'str': ['sand', 'a_b', 'f0', '"q"', 'x-y', '10%']}


def cases(tier):
    n1, n2 = (8, 6) if tier == 'quick' else (10, 7)
    for pre in itertools.product(['[', ']', ',', '1'], repeat=3):
        yield {'k': 'text', 'alpha': ['[', ']', ',', '1'], 'prefix': list(pre), 'len': n1}
    for pre in itertools.product(['[', ']', ',', '12', ' ', '\n'], repeat=2):
        yield {'k': 'text', 'alpha': ['[', ']', ',', '12', ' ', '\n'], 'prefix': list(pre), 'len': n2}
    n3, n4, n5 = (7, 6, 5) if tier == 'quick' else (9, 7, 6)
    for alpha, n, dt in [(['[', ']', ',', 'f'], n3, 'str'), (['[', ']', ',', 'f', ' ', '\n'], n4, 'str'),
                         (['[', ']', ',', '7', '1.5', 'x', '-'], n5, 'int'), (['[', ']', ',', '.5', 'x', '1.5.2'], n5, 'float')]:
        for pre in itertools.product(alpha, repeat=2):
            yield {'k': 'text', 'alpha': alpha, 'prefix': list(pre), 'len': n, 'dt': dt}
    for t in ['', ' ', '\n', '[', ']', ',', '1', 'f', 'x', '1.5', '-']:
        for dt in TYPES:
            yield {'k': 'text', 'alpha': [], 'prefix': [t], 'len': 1, 'dt': dt}
    for L in range(1, 4):
        for i, t in enumerate(trees(L, [3, 2, 2] if L == 3 else [3, 3, 2])):
            yield {'k': 'tree', 'tree': t}


def check(case):
    problems, outs, n = [], set(), 0
    if case['k'] == 'text':
        pre = case['prefix']
        for extra in range(0, case['len'] - len(pre) + 1):
            for rest in itertools.product(case['alpha'], repeat=extra):
                toks = pre + list(rest)
                if ambiguous(toks):
                    continue
                n += 1
                compare(toks, case.get('dt', 'int'), problems, outs)
                if len(problems) > 5:
                    return Result(problems, outs, n, evaluations=n)
        return Result(problems, outs, n, evaluations=max(n, 1))
    for dtname in TYPES:
        for layout in range(4):
            n += 1
            compare(tokens_of(case['tree'], layout, [0, ITEMS[dtname]]), dtname, problems, outs)
    return Result(problems, outs, n, evaluations=n)
