#!/opt/venv/bin/python
"""Entry point of all checks.

    run.py <ID> [quick|thorough]          decide one property
    run.py <ID> --replay <file>           re-run one recorded case
    run.py --selftest                     (setup) check the tool chain

Exit 0: the property held on everything explored.  Exit 1 + a VIOLATION line:
it is broken.  Anything else is an error of the check itself.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'

from lib.engine import main   # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
