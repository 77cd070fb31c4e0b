"""Snapshots of directory trees."""
import os


def snap(root):
    """relative path -> ('d',) | ('l', target) | ('f', bytes)"""
    res = {}
    for d, dirs, files in os.walk(root, followlinks=False):
        for n in dirs + files:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                res[r] = ('l', os.readlink(p))
            elif os.path.isdir(p):
                res[r] = ('d',)
            else:
                with open(p, 'rb') as f:
                    res[r] = ('f', f.read())
    return res


def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append(('removed ' if k not in b else 'added ' if k not in a else 'changed ') + k)
    return out
