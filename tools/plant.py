#!/usr/bin/env python3
"""
Writes the planted bugs to /verif/seeded and confirms each of them in a scratch copy of /repo:
the patch changes lines of the original repository only, the stable tests pass, the
demonstration passes without and fails with the change; then runs the check of its property
(and others on request) against the copy.

    plant.py [--check] [--all-checks] [ID-regex]
"""
import concurrent.futures as cf
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BASE = 'e1c35a6'
REPO = '/repo'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def bugs():
    out = []
    d = os.path.join(HERE, 'plants')
    for f in sorted(os.listdir(d)):
        if f.startswith('p_') and f.endswith('.py'):
            spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            out += m.BUGS
    ids = [b['id'] for b in out]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return out


def plant(b, check=False, props=None):
    msg = []
    tmp = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    try:
        copy = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '--shared', REPO, copy], check=True)
        blame = {}
        for fname, old, new in b['edits']:
            path = os.path.join(copy, fname)
            text = open(path, newline='').read()
            if text.count(old) != 1 and text.count(old.replace('\n', '\r\n')) == 1:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if text.count(old) != 1:
                return b['id'], 'ERROR old text occurs %d times: %r' % (text.count(old), old)
            open(path, 'w', newline='').write(text.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=copy, capture_output=True).stdout.decode()
        # every removed line has to be an original one
        cur = None
        line = 0
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                cur = l[6:]
                _, out = sh('git blame -s HEAD -- ' + cur, copy)
                blame[cur] = out.splitlines()
            elif l.startswith('@@'):
                line = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-'):
                if not blame[cur][line-1].startswith('^' + BASE):
                    msg.append('NOTORIGINAL ' + l)
                line += 1
            elif not l.startswith('+'):
                line += 1
        if not any(l.startswith('-') and not l.startswith('---') for l in diff.split('\n')):
            msg.append('ONLYADDS')
        seeded = os.path.join(VERIF, 'seeded', b['id'])
        shutil.rmtree(seeded, ignore_errors=True)
        os.makedirs(seeded)
        open(os.path.join(seeded, 'patch.diff'), 'wb').write(diff.encode())
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(seeded, 'meta.json'), 'w'), indent=1)
        with open(os.path.join(seeded, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(seeded, 'demo.sh'), 0o755)
        head = 'from kit import *\n\n'
        if b.get('ext'):
            head += 'compile_ext()\n'
        open(os.path.join(seeded, 'demo.py'), 'w').write(head + b['demo'].strip('\n') + '\n')
        shutil.copy(os.path.join(HERE, 'plants', 'kit.py'), seeded)

        rc, out = sh(PY + ' -m pytest -q -p no:cacheprovider tests/unittests/input/test_parameters.py', copy)
        m = re.search(r'(\d+) passed', out)
        if not m or int(m.group(1)) < 5:
            msg.append('TESTS ' + out[-200:])
        demo = 'bash %s/demo.sh' % seeded
        rc, out = sh(demo, copy)
        if rc == 0:
            msg.append('DEMO PASSES WITH BUG')
        demo_out = out[-150:].strip().replace('\n', ' | ')
        sh('git apply -R %s/patch.diff' % seeded, copy)
        rc, out = sh(demo, copy)
        if rc != 0:
            msg.append('DEMO FAILS WITHOUT BUG ' + out[-600:])
        sh('git apply %s/patch.diff' % seeded, copy)
        shutil.rmtree(os.path.join(seeded, '__pycache__'), ignore_errors=True)
        if msg:
            # does not count: only used to try the checks
            shutil.rmtree(seeded)
        res = []
        if check:
            for p in props or [b['property']]:
                rc, out = sh(PY + ' run.py %s quick' % p, VERIF, {'VERIF_REPO': copy, 'VERIF_SEED': '1',
                             'VERIF_EVIDENCE': os.path.join(tmp, 'ev')})
                hit = rc == 1 and ('VIOLATION property=' + p) in out
                if hit:
                    res.append(p)
                elif rc != 0:
                    res.append('%s:rc%d %s' % (p, rc, out[-200:]))
        return b['id'], '%s  %s [%s] %s' % ('; '.join(msg) or 'ok', 'caught by ' + ','.join(res) if res else
                                             ('MISSED' if check else ''), demo_out, '')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    check = '--check' in args or '--all-checks' in args
    allc = '--all-checks' in args
    pats = [a for a in args if not a.startswith('--')]
    todo = [b for b in bugs() if not pats or any(re.match(p + '$', b['id']) for p in pats)]
    props = None
    if allc:
        props = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    with cf.ThreadPoolExecutor(2 if check else 6) as ex:
        for r in ex.map(lambda b: plant(b, check, props), todo):
            print(*r, flush=True)


if __name__ == '__main__':
    main()
