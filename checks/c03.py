"""C03: scalar options: conversion, defaults, alternatives, required options, validation."""
import itertools

from lib.engine import Result

NEEDS_EXT = False
LEVEL = 'model_checking'
RULE = ('a case is (item type, required/optional, default, list of alternative names, validation); for each, all '
        'subsets of the names {name, alternatives, unrelated} being present and all texts of the alphabet are parsed; '
        'outcome = value or kind of rejection')
BOUNDS = 'complete product of the alphabets below (5 types, 12 to 16 texts each, up to 3 alternatives)'

TEXTS = {
    'int': [('3', 3), ('-4', -4), ('0', 0), ('+12', 12), ('1.5', None), ('x', None), ('', None), ('1e3', None), ('true', None)],
    'float': [('3', 3.0), ('-4.25', -4.25), ('2e-4', 2e-4), ('.5', .5), ('1E3', 1000.0), ('0', 0.0), ('x', None), ('', None),
              ('1,5', None), ('[1]', None), ('--1', None)],
    'str': [('a', 'a'), ('A b', 'A b'), ('1', '1'), ('[x]', '[x]'), ('f0', 'f0'), ('no', 'no')],
    'bool': [('True', True), ('true', True), ('TRUE', True), ('yes', True), ('Yes', True), ('1', True),
             ('False', False), ('false', False), ('FALSE', False), ('no', False), ('NO', False), ('0', False),
             ('', None), ('maybe', None), ('-1', None), ('t', None), ('truee', None), ('1.0', None), ('none', None), ('n', None)],
    'list': [('[1, 2]', [1, 2]), ('[3]', [3]), ('4', [4]), ('[]', []), ('[1, x]', None), ('[1', None), ('', None)],
}
DTYPES = {'int': int, 'float': float, 'str': str, 'bool': bool, 'list': list}
DEFAULTS = {'int': [None, 9], 'float': [None, 2.5], 'str': [None, 'dflt'], 'bool': [None, True, False], 'list': [None, [7, 8]]}


def cases(tier):
    for t in DTYPES:
        for optional in (True, False):
            for d in range(len(DEFAULTS[t])):
                for nalt in range(0, 4):
                    for valid in ('all', 'none', 'first', 'notfirst'):
                        yield {'type': t, 'optional': optional, 'default': d, 'nalt': nalt, 'valid': valid}


def same(a, b):
    return type(a) is type(b) and a == b


def check(case):
    from hyvr.input.option_parsing import Section, Option, MissingOptionError, ShapeError
    t = case['type']
    texts = TEXTS[t]
    default = DEFAULTS[t][case['default']]
    alts = ['alt1', 'other2', 'al3'][:case['nalt']]
    firstval = texts[0][1][0] if t == 'list' else texts[0][1]
    funcs = {'all': lambda x: True, 'none': lambda x: False,
             'first': lambda x: x == firstval, 'notfirst': lambda x: x != firstval}
    func = funcs[case['valid']]
    problems, outs, n = [], set(), 0
    names = ['name'] + alts
    for k in range(len(names) + 1):
        for present in itertools.combinations(range(len(names)), k):
            for off in range(len(texts)):
                n += 1
                sec = {}
                for i in reversed(present):
                    sec[names[i]] = texts[(off + i) % len(texts)][0]
                sec['unrelated'] = '5'
                if not present:
                    want = ('value', default) if case['optional'] else ('missing', None)
                else:
                    v = texts[(off + present[0]) % len(texts)][1]
                    ok = v is not None and all(func(x) for x in (v if t == 'list' else [v]))
                    want = ('value', v) if ok else ('invalid', None)
                o = Option('name', DTYPES[t], optional=case['optional'], default=default, shape=-1, datatype=int,
                           validation_func=func, alternatives=list(alts))
                u = Option('unrelated', int)
                desc = '%s option, present %r' % (t, {a: b for a, b in sec.items() if a != 'unrelated'})
                try:
                    res = Section('s', [o, u]).parse(dict(sec))
                    got = ('value', res['name'])
                    if res['unrelated'] != 5:
                        problems.append(desc + ': another option of the section changed to %r' % res['unrelated'])
                except MissingOptionError:
                    got = ('missing', None)
                except (ValueError, ShapeError):
                    got = ('invalid', None)
                except Exception as e:   # noqa
                    got = (type(e).__name__, None)
                if got[0] != want[0] or not same(got[1], want[1]):
                    problems.append(desc + ' (optional=%s, default=%r, alternatives=%r, validation=%s): got %r, expected %r'
                                    % (case['optional'], default, alts, case['valid'], got, want))
                outs.add(repr((t, want)))
                if len(problems) > 5:
                    return Result(problems, outs, n, evaluations=n)
    return Result(problems, outs, n, evaluations=n)
