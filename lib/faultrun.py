"""
Server process of checks C35, C36 and C41, started with the fault injector preloaded. Reads requests (one JSON
object per line), executes each in a forked child with one failing operation (or two runs in two children under a
given schedule), and answers with one line.
"""
import contextlib
import ctypes
import io
import json
import os
import sys
import warnings


def child(req, lib, stop=None):
    import numpy as np
    import hyvr
    buf = io.StringIO()
    error = None
    np.random.seed(req.get('seed', 1))
    with contextlib.redirect_stdout(buf), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        lib.fault_arm(req['dir'].encode(), req['k'] if stop is None else stop, req['err'])
        try:
            hyvr.run(req['ini'], req['flag'])
        except BaseException as e:      # noqa: every error is an answer
            error = '%s: %s' % (type(e).__name__, str(e)[:200])
        # what is still open is closed (and written) now, as at the end of a program
        import gc
        gc.collect()
        n = lib.fault_disarm()
    return dict(error=error, stdout=buf.getvalue(), count=n, ops=lib.fault_ops().decode())


def steps(req, lib):
    """
    Two runs at the same time: req['runs'] are their requests, req['schedule'] a list of (run, operation): the run
    goes on until it is about to do this operation; in the end, each run goes on until it ends, in the order 0, 1, or
    in the order of req['last'].
    """
    import resource
    import signal
    import struct
    procs = []
    for i, r in enumerate(req['runs']):
        out_r, out_w = os.pipe()        # from the run: p = stopped
        in_r, in_w = os.pipe()          # to the run: next operation to stop at
        res_r, res_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            for fd in [out_r, in_w, res_r] + [x for q in procs for x in q[1:4]]:
                os.close(fd)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.alarm(120)
            lib.fault_sched(out_w, in_r)
            os.read(in_r, 8)
            data = json.dumps(child(dict(r, k=-1, err=0), lib, struct.unpack('q', os.read(in_r, 8))[0])).encode()
            os.write(out_w, b'e')
            os.write(res_w, data)
            os._exit(0)
        for fd in (out_w, in_r, res_w):
            os.close(fd)
        os.write(in_w, b'start   ')
        procs.append((pid, out_r, in_w, res_r))
    ended = [False, False]

    def advance(i, k):
        if not ended[i]:
            os.write(procs[i][2], struct.pack('q', k))
            ended[i] = os.read(procs[i][1], 1) != b'p'

    for i, k in req['schedule']:
        advance(i, k)
    for i in req['last']:
        while not ended[i]:
            advance(i, -1)
    answers = []
    for pid, out_r, in_w, res_r in procs:
        data = b''
        while True:
            chunk = os.read(res_r, 1 << 16)
            if not chunk:
                break
            data += chunk
        _, status = os.waitpid(pid, 0)
        for fd in (out_r, in_w, res_r):
            os.close(fd)
        answers.append(json.loads(data) if data else dict(error='died with status %d' % status, stdout='', count=-1, ops='',
                                                          died=True))
    return answers


def main():
    lib = ctypes.CDLL(None)
    lib.fault_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
    lib.fault_disarm.restype = ctypes.c_long
    lib.fault_ops.restype = ctypes.c_char_p
    import numpy, scipy.io, h5py, flopy, pyevtk.hl, hyvr    # noqa: F401,E401
    answer = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    answer.write('ready\n')
    answer.flush()
    for line in sys.stdin:
        req = json.loads(line)
        if 'runs' in req:
            answer.write(json.dumps(steps(req, lib)) + '\n')
            answer.flush()
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            import signal
            signal.alarm(60)
            out = json.dumps(child(req, lib)).encode()
            os.write(w, out)
            os._exit(0)
        os.close(w)
        data = b''
        while True:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if not data:
            data = json.dumps(dict(error='died with status %d' % status, stdout='', count=-1, ops='', died=True)).encode()
        answer.write(data.decode() + '\n')
        answer.flush()


main()
