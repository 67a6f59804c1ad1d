"""Crash-point exploration: run a function in a forked child and stop it at the n-th file-system mutation.

Between two mutations the disk does not change, so stopping before and after every mutation (and in the middle of
every write) covers all disk states a kill can leave behind (writes being torn at one point)."""
import builtins
import io
import os
import pickle
import shutil
import subprocess
import sys
import traceback

KILLED = 77


class Points:
    def __init__(self, stop_at=None, only=None, action=None):
        self.n, self.stop_at, self.labels, self.only = 0, stop_at, [], only
        self.action = action

    def hit(self, label, path):
        if self.only is not None and not self.only(path):
            return
        self.n += 1
        self.labels.append('%s %s' % (label, os.path.basename(str(path))))
        if self.n == self.stop_at:
            if self.action is not None:
                self.action()
            os._exit(KILLED)


class File:
    """A file opened for writing: every write reaches the disk in two parts."""

    def __init__(self, real, path, points):
        self.__dict__.update(_r=real, _p=path, _pts=points, _n=0)

    def write(self, data):
        n = len(data)
        h = n // 2
        self.__dict__['_n'] += 1
        if self._n > 6 and self._n & (self._n - 1):
            # of many writes to one file only some are separate stopping points
            self._r.write(data)
            return n
        if h:
            self._r.write(data[:h])
            self._r.flush()
            self._pts.hit('half write', self._p)
        self._r.write(data[h:])
        self._r.flush()
        self._pts.hit('write', self._p)
        return n

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def truncate(self, *a):
        r = self._r.truncate(*a)
        self._pts.hit('truncate', self._p)
        return r

    def close(self):
        if not self._r.closed:
            self._r.close()
            if self._n > 6:
                self._pts.hit('close', self._p)

    def __getattr__(self, n):
        return getattr(self._r, n)

    def __setattr__(self, n, v):
        setattr(self._r, n, v)

    def __enter__(self):
        self._r.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._r)

    def __next__(self):
        return next(self._r)


io.IOBase.register(File)


def install(points):
    """Patch this process (a forked child)."""
    real_open = io.open

    def op(file, mode='r', *a, **kw):
        if any(c in mode for c in 'wax+'):
            existed = not isinstance(file, int) and os.path.exists(file)
            r = real_open(file, mode, *a, **kw)
            if 'w' in mode or not existed:
                points.hit('open(%s)' % mode, file)
            return File(r, file, points)
        return real_open(file, mode, *a, **kw)

    builtins.open = io.open = op
    for name in ('replace', 'rename', 'unlink', 'remove', 'mkdir', 'rmdir', 'symlink', 'link', 'truncate'):
        def wrap(f=getattr(os, name), name=name):
            def g(*a, **kw):
                r = f(*a, **kw)
                points.hit(name, a[-1])
                return r
            return g
        setattr(os, name, wrap())


def run(fn, stop_at=None, only=None, action=None, setup=None):
    """Returns dict(killed, points, labels, error, value)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            pts = Points(stop_at, only, action)
            out = os.fdopen(w, 'wb')
            if setup:
                setup(pts)
            install(pts)
            err = val = None
            try:
                val = fn()
            except BaseException as e:
                err = '%s: %s | %s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-700:])
            pts.stop_at = None
            out.write(pickle.dumps((pts.n, pts.labels, err, val)))
            out.close()
            code = 0
        except BaseException:
            traceback.print_exc(file=sys.__stderr__)
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    st = os.waitstatus_to_exitcode(st)
    if st == KILLED:
        return {'killed': True}
    if st != 0:
        return {'killed': False, 'error': 'child ended with status %s' % st, 'points': 0, 'labels': [], 'value': None}
    n, labels, err, val = pickle.loads(data)
    return {'killed': False, 'points': n, 'labels': labels, 'error': err, 'value': val}
