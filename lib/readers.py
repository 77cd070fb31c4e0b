"""Independent readers of the result files."""
import os
import pickle
import re

import numpy as np


def npz(path):
    with np.load(path, allow_pickle=False) as f:
        return {k: f[k].copy() for k in f.files}


def pick(path):
    with open(path, 'rb') as f:
        d = pickle.load(f)
    return {k: np.asarray(v) for k, v in d.items()}


def mat(path):
    import scipy.io
    return {k: np.asarray(v) for k, v in scipy.io.loadmat(path).items() if not k.startswith('__')}


def h5(path):
    import h5py
    with h5py.File(path, 'r') as f:
        return {k: f[k][()] for k in f}


def vtr(path):
    """(coordinates, cell data) of a rectilinear grid with raw appended data"""
    raw = open(path, 'rb').read()
    cut = raw.index(b'<AppendedData')
    head = raw[:cut].decode()
    start = raw.index(b'_', cut) + 1
    assert 'byte_order="LittleEndian"' in head
    ext = [int(x) for x in re.search(r'<Piece Extent="([^"]*)"', head).group(1).split()]
    shape = [ext[2*i+1] - ext[2*i] for i in range(3)]
    hs = 8 if 'header_type="UInt64"' in head else 4
    types = {'Float64': '<f8', 'Float32': '<f4', 'Int32': '<i4', 'Int64': '<i8', 'Int16': '<i2', 'Int8': '<i1',
             'UInt8': '<u1', 'UInt16': '<u2', 'UInt32': '<u4', 'UInt64': '<u8'}
    sections = {}
    for sec in ('Coordinates', 'CellData', 'PointData'):
        m = re.search(r'<%s[^>]*>(.*?)</%s>' % (sec, sec), head, re.S)
        res = {}
        for tag in re.findall(r'<DataArray ([^>]*)/>', m.group(1)) if m else []:
            at = dict(re.findall(r'(\w+)="([^"]*)"', tag))
            off = start + int(at['offset'])
            n = int.from_bytes(raw[off:off+hs], 'little')
            res[at['Name']] = np.frombuffer(raw[off+hs:off+hs+n], dtype=types[at['type']])
        sections[sec] = res
    cells = {k: v.reshape(shape, order='F') for k, v in sections['CellData'].items()}
    return [sections['Coordinates'][a + '_coordinates'] for a in 'xyz'], cells, sections['PointData']


READ = {'npz': ('npz', npz), 'py': ('pickle', pick), 'mat': ('mat', mat), 'h5': ('h5', h5)}


def files(d):
    res = []
    for r, _, fs in os.walk(d):
        res += [os.path.relpath(os.path.join(r, f), d) for f in fs]
    return sorted(res)
