"""Executes runs in an environment of its own (check C43): reads a JSON object from the file given as argument."""
import contextlib
import io
import json
import os
import sys
import warnings


def main():
    with open(sys.argv[1], encoding='utf-8') as f:
        req = json.load(f)
    if req.get('umask') is not None:
        os.umask(req['umask'])
    import numpy as np
    import hyvr
    before = req.get('before')
    if before == 'print':
        np.set_printoptions(precision=2, threshold=3, suppress=True, linewidth=20)
    elif before == 'decimal':
        import decimal
        decimal.getcontext().prec = 3
    elif before == 'python':
        import random
        random.seed(3)
        random.random()
    elif before == 'recursion':
        sys.setrecursionlimit(400)
    elif before == 'gc':
        import gc
        gc.disable()
    elif before == 'locale':
        import locale
        locale.setlocale(locale.LC_ALL, '')
    elif before == 'tempdir':
        import tempfile
        tempfile.tempdir = '/nonexistent'
    answers = []
    for r in req['runs']:
        np.random.seed(r['seed'])
        try:
            if req.get('quiet'):
                with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    hyvr.run(r['ini'], r.get('flag'))
            else:
                hyvr.run(r['ini'], r.get('flag'))
            answers.append(None)
        except BaseException as e:      # noqa: every error is an answer
            answers.append(type(e).__name__)
    with open(req['answer'], 'w', encoding='utf-8') as f:
        json.dump(answers, f)


main()
