"""Controlled scheduler: all interleavings of the file-system and lock operations of several runs.

Every "process" is a thread running the real code. Only one thread runs at a time; it stops before each operation
that other processes can observe (locks, reading, writing, replacing and checking files below one directory). The
explorer re-executes prefixes of schedules and expands every distinct global state - what every process has observed
so far and the content of the directory - exactly once, thus all interleavings are covered without any bound on
preemptions. Locks are real flock() locks, tried without blocking; converting a lock is not atomic, as documented.
"""
import builtins
import fcntl
import hashlib
import io
import os
import stat
import subprocess
import threading

from .core import Violation


class Abort(BaseException):
    """Unwinds threads of executions which need not be continued."""


REAL = {'open': io.open, 'flock': fcntl.flock, 'stat': os.stat, 'mkdir': os.mkdir}
for _n in ('replace', 'rename', 'unlink', 'remove', 'link', 'symlink', 'truncate', 'rmdir'):
    REAL[_n] = getattr(os, _n)

CURRENT = threading.local()


def me():
    return getattr(CURRENT, 'proc', None)


class Proc:
    def __init__(self, world, num, fn):
        self.world, self.num, self.fn = world, num, fn
        self.log, self.pending, self.done, self.error = [], None, False, None
        self.reading, self.held, self.aborting = None, {}, False
        self.go = threading.Semaphore(0)
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        CURRENT.proc = self
        self.go.acquire()
        try:
            if not self.world.aborted:
                self.fn(self.world, self)
        except Abort:
            pass
        except BaseException as e:
            self.error = e
        CURRENT.proc = None
        self.done = True
        self.pending = None
        self.reading = None
        self.world.back.release()

    def point(self, kind, path, try_=None):
        """Stop before an operation; try_ says (and does), whether the operation is possible now."""
        if self.aborting:
            return
        self.pending = (kind, path, try_)
        self.world.back.release()
        self.go.acquire()
        if self.world.aborted:
            self.aborting = True
            raise Abort()
        self.pending = None
        self.reading = None

    def seen(self, *what):
        if not self.aborting:
            self.log.append(what)


class WFile:
    """File opened for writing by a process."""

    def __init__(self, real, path, proc):
        self.__dict__.update(_r=real, _p=path, _proc=proc)

    def close(self):
        if not self._r.closed:
            try:
                self._proc.point('close', self._p)
            finally:
                self._r.close()
                self._proc.world.written(self._proc, self._p)

    def __getattr__(self, n):
        return getattr(self._r, n)

    def __setattr__(self, n, v):
        setattr(self._r, n, v)

    def __enter__(self):
        self._r.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self._r)

    def __next__(self):
        return next(self._r)

    def __del__(self):
        try:
            self._r.close()
        except Exception:
            pass


io.IOBase.register(WFile)


class World:
    """One execution."""

    # Opening a lock file can only be noticed by others, if lock files are removed or replaced
    lock_points = False
    lock_removed = False

    def __init__(self, root, fns, base_time, dirs=()):
        self.root = os.path.realpath(root) + '/'
        self.base_time = base_time
        self.aborted = False
        self.dirs = set(dirs)
        self.back = threading.Semaphore(0)
        self.writing, self.productions, self.violation = {}, {}, None
        self.procs = [Proc(self, i, f) for i, f in enumerate(fns)]

    # -- monitors
    def fail(self, *msg):
        if self.violation is None:
            self.violation = ' '.join(str(m) for m in msg)

    def rel(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        return p[len(self.root):] if p.startswith(self.root) else None

    def start_write(self, proc, p):
        for q in self.procs:
            if q is not proc and q.reading == p:
                self.fail('process', proc.num, 'writes', p, 'while process', q.num, 'reads it')
        if p in self.writing and self.writing[p] is not proc:
            self.fail('processes', self.writing[p].num, 'and', proc.num, 'write', p, 'at the same time')
        self.writing[p] = proc

    def written(self, proc, p):
        if self.writing.get(p) is proc:
            del self.writing[p]
        self.produced(proc, p)

    def produced(self, proc, p):
        if not proc.aborting:
            self.productions.setdefault(p, []).append(proc.num)

    def start_read(self, proc, p):
        w = self.writing.get(p)
        if w is not None and w is not proc:
            self.fail('process', proc.num, 'reads', p, 'while process', w.num, 'writes it')
        proc.reading = p

    # -- state
    def files(self):
        out = []
        for d, _, fs in os.walk(self.root):
            for f in fs:
                if f.endswith('.lock'):
                    continue
                p = os.path.join(d, f)
                st = REAL['stat'](p)
                with REAL['open'](p, 'rb') as fp:
                    out.append((p[len(self.root):], hashlib.md5(fp.read()).hexdigest(), st.st_mtime > self.base_time))
        return tuple(sorted(out))

    def key(self):
        return (frozenset(d for d in self.dirs if is_dir(self.root + d)),
                tuple((tuple(p.log), p.done, p.pending and p.pending[:2]) for p in self.procs), self.files())

    # -- control
    def step(self, i):
        """Let process i run to its next point."""
        self.step_proc(self.procs[i])

    def step_proc(self, proc):
        proc.go.release()
        self.back.acquire()

    def enabled(self):
        out = []
        for p in self.procs:
            if p.done:
                continue
            if p.pending is None or p.pending[2] is None or p.pending[2]():
                out.append(p.num)
        return out

    def finish(self):
        self.aborted = True
        for p in self.procs:
            p.go.release()
        for p in self.procs:
            p.thread.join(20)


# ------------------------------------------------------------------ hooks
def _flock(fd, op):
    p = me()
    if p is None or p.aborting or op & fcntl.LOCK_NB:
        r = REAL['flock'](fd, op)
        if p is not None and not p.aborting:
            p.seen('flock-nb', op)
        return r
    num = fd if isinstance(fd, int) else fd.fileno()
    if op == fcntl.LOCK_UN:
        p.held.pop(num, None)
        p.seen('unlock')
        return REAL['flock'](fd, op)
    try:
        name = os.path.basename(os.readlink('/proc/self/fd/%d' % num))
    except OSError:
        name = '?'
    if p.held.pop(num, None) is not None:
        # Conversions remove the old lock first and may have to wait for the new one
        p.point('unlock', name)
        REAL['flock'](fd, fcntl.LOCK_UN)

    def free():
        try:
            REAL['flock'](num, op | fcntl.LOCK_NB)
        except BlockingIOError:
            return False
        REAL['flock'](num, fcntl.LOCK_UN)
        return True
    p.point('exclusive' if op == fcntl.LOCK_EX else 'shared', name, free)
    REAL['flock'](fd, op | fcntl.LOCK_NB)
    p.held[num] = op
    p.seen('locked', op)


def _open(file, mode='r', *a, **kw):
    p = me()
    if p is None or p.aborting or isinstance(file, int):
        return REAL['open'](file, mode, *a, **kw)
    path = p.world.rel(file)
    if path is None:
        return REAL['open'](file, mode, *a, **kw)
    if path.endswith('.lock'):
        if p.world.lock_points:
            p.point('open', path)
        r = REAL['open'](file, mode, *a, **kw)
        p.held.pop(r.fileno(), None)
        return r
    if any(c in mode for c in 'wax+'):
        p.point('open for writing', path)
        r = REAL['open'](file, mode, *a, **kw)
        p.world.start_write(p, path)
        p.seen('write')
        f = WFile(r, path, p)
        p.point('write', path)
        return f
    p.point('open', path)
    try:
        r = REAL['open'](file, mode, *a, **kw)
    except OSError as e:
        p.seen('missing')
        raise
    with REAL['open'](file, 'rb') as f:
        p.seen('read', hashlib.md5(f.read()).hexdigest())
    p.world.start_read(p, path)
    try:
        p.point('read', path)
        # (the file is actually read in the step which follows)
    except Abort:
        r.close()
        raise
    return r


def is_dir(path):
    try:
        return stat.S_ISDIR(REAL['stat'](path).st_mode)
    except OSError:
        return False


def _stat(path, *a, **kw):
    p = me()
    if p is None or p.aborting or isinstance(path, int):
        return REAL['stat'](path, *a, **kw)
    rel = p.world.rel(path)
    if rel is None or rel.endswith('.lock'):
        return REAL['stat'](path, *a, **kw)
    if is_dir(path):
        return REAL['stat'](path, *a, **kw)     # directories are never removed again
    p.point('stat', rel)
    try:
        r = REAL['stat'](path, *a, **kw)
    except OSError:
        if rel not in p.world.dirs:     # (creating directories leads to the same state in all orders)
            p.seen('absent')
        raise
    p.seen('stat', r.st_mtime > p.world.base_time)
    return r


def _mkdir(path, *a, **kw):
    p = me()
    if p is None or p.aborting:
        return REAL['mkdir'](path, *a, **kw)
    rel = p.world.rel(path)
    if rel is not None and not is_dir(path):
        p.point('mkdir', rel)
    try:
        r = REAL['mkdir'](path, *a, **kw)
    except FileExistsError:
        if rel not in p.world.dirs:
            p.seen('exists')
        raise
    return r


def _two(name):
    def g(src, dst, *a, **kw):
        p = me()
        if p is None or p.aborting or (p.world.rel(src) is None and p.world.rel(dst) is None):
            return REAL[name](src, dst, *a, **kw)
        s, d = p.world.rel(src), p.world.rel(dst)
        if (s or '').endswith('.lock') or (d or '').endswith('.lock'):
            World.lock_removed = True
        p.point(name, d)
        w = p.world.writing.get(s)
        if w is not None and w is not p:
            p.world.fail('process', p.num, 'renames', s, 'while process', w.num, 'writes it')
        w = p.world.writing.get(d)
        if w is not None and w is not p:
            p.world.fail('processes', w.num, 'and', p.num, 'write', d, 'at the same time')
        r = REAL[name](src, dst, *a, **kw)
        p.world.produced(p, d)
        p.seen(name)
        return r
    return g


def _one(name):
    def g(path, *a, **kw):
        p = me()
        rel = p.world.rel(path) if p is not None and not p.aborting else None
        if rel is None:
            return REAL[name](path, *a, **kw)
        p.point(name, rel)
        if rel.endswith('.lock'):
            World.lock_removed = True
        try:
            r = REAL[name](path, *a, **kw)
        except OSError:
            p.seen(name, 'failed')
            raise
        p.seen(name)
        return r
    return g


def tool(cmd):
    """Compiler stand-in: the output is a function of the arguments and the content of the inputs."""
    cmd = [str(c) for c in cmd]
    out = cmd[cmd.index('-o') + 1]
    h = hashlib.md5()
    args, skip = [], False
    for c in cmd:
        if skip:
            skip = False
            continue
        if c == '-o':
            skip = True
            continue
        if c.endswith(('.c', '.s', '.o')):
            args.append(os.path.basename(c))
            names = [c]
            if os.path.basename(c) == 'main.c':
                names.append(os.path.join(os.path.dirname(c), 'kernel.h'))
            for n in names:
                with open(n, 'rb') as f:
                    h.update(f.read())
        else:
            args.append(c)
    h.update(repr(args).encode())
    with open(out, 'w') as f:
        f.write(ASM % h.hexdigest() if '-S' in cmd else 'binary %s\n' % h.hexdigest())
    os.chmod(out, 0o755)


ASM = '''\t.file "%s"
.L1:
\tmovsd (%%rax), %%xmm0
\tmovsd %%xmm0, (%%rbx)
\taddq $8, %%rax
\taddq $8, %%rbx
\tcmpq %%rax, %%rcx
\tjne .L1
'''


ON_TOOL = []


def _run(cmd, *a, **kw):
    tool(cmd)
    for f in ON_TOOL:
        f(cmd)
    return subprocess.CompletedProcess(cmd, 0, b'', b'')


def _check_output(cmd, *a, **kw):
    _run(cmd)
    return b''


class Tools:
    """Installs only the stand-ins for external tools."""

    def __enter__(self):
        self.saved = [(subprocess, n, getattr(subprocess, n)) for n in ('check_output', 'run', 'check_call', 'call')]
        subprocess.check_output = _check_output
        subprocess.run = _run
        subprocess.check_call = subprocess.call = lambda cmd, *a, **kw: _run(cmd).returncode
        return self

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)


class Hooks:
    """Installs all hooks into this process."""

    def __enter__(self):
        self.saved = [(builtins, 'open'), (io, 'open'), (fcntl, 'flock'), (os, 'stat'), (os, 'mkdir'),
                      (subprocess, 'check_output'), (subprocess, 'run'), (subprocess, 'check_call'),
                      (subprocess, 'call')] + [(os, n) for n in ('replace', 'rename', 'unlink', 'remove', 'link',
                                                                'truncate')]
        self.saved = [(m, n, getattr(m, n)) for m, n in self.saved]
        builtins.open = io.open = _open
        fcntl.flock = _flock
        os.stat, os.mkdir = _stat, _mkdir
        for n in ('replace', 'rename', 'link'):
            setattr(os, n, _two(n))
        for n in ('unlink', 'remove', 'truncate'):
            setattr(os, n, _one(n))
        subprocess.check_output = _check_output
        subprocess.run = _run
        subprocess.check_call = subprocess.call = lambda cmd, *a, **kw: _run(cmd).returncode
        return self

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)


def execute(make, prefix, visited):
    """Run one schedule: follow prefix, then the first enabled process.

    make(root) -> World. Returns (world, schedule, branches, ended, labels): branches are unexplored alternatives.
    """
    world = make()
    sched, branches, labels = [], [], []
    ended = False
    try:
        for p in world.procs:
            p.thread.start()
        while True:
            if world.violation:
                break
            if all(p.done for p in world.procs):
                ended = True
                break
            new = len(sched) >= len(prefix)
            if new:
                k = hash(world.key())
                if k in visited:
                    break
                visited.add(k)
            en = world.enabled()
            if not en:
                world.fail('deadlock: ' + ', '.join('process %d waits for %s of %s' % (p.num, p.pending[0], p.pending[1])
                                                    for p in world.procs if not p.done))
                break
            if new:
                for alt in en[1:]:
                    branches.append(sched + [alt])
                c = en[0]
            else:
                c = prefix[len(sched)]
                if c not in en:
                    world.fail('harness: schedule cannot be repeated')
                    break
            q = world.procs[c]
            labels.append('%d:%s %s' % ((c,) + (q.pending[:2] if q.pending else ('start', ''))))
            sched.append(c)
            world.step(c)
            for p in world.procs:
                if p.error is not None:
                    import traceback
                    world.fail('process', p.num, 'failed:', ''.join(traceback.format_exception(p.error))[-600:])
    finally:
        world.finish()
    return world, sched, branches, ended, labels


def explore(make, final, ctx=None, limit=None):
    """Explore all interleavings. final(world) is called for each completed execution. Returns (states, executions)."""
    World.lock_points = World.lock_removed = False
    r = explore_(make, final, ctx, limit)
    if World.lock_removed:
        World.lock_points = True
        r = explore_(make, final, ctx, limit)
        World.lock_points = False
    return r


def explore_(make, final, ctx, limit):
    visited = set()
    stack = [[]]
    execs = ends = 0
    while stack:
        prefix = stack.pop()
        world, sched, branches, ended, labels = execute(make, prefix, visited)
        execs += 1
        if ctx is not None:
            ctx.step(max(1, len(sched) - len(prefix)))
        if world.violation is None and ended:
            ends += 1
            try:
                final(world)
            except Violation as e:
                world.violation = str(e)
        if world.violation is not None:
            raise Violation('%s\nschedule: %s' % (world.violation, ' | '.join(labels)))
        stack.extend(branches)
        if limit and execs >= limit:
            break
    return visited, execs, ends
