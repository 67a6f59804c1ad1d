"""C02: killed and failing runs, decided by stopping the real code at every file-system mutation and tool call.

A run asking for one or more intermediates is stopped at its n-th mutation of the file system (writes reach the disk
in two parts), or the mutation or tool call fails; then a second run has to deliver what a run in an empty directory
delivers. All sequences of two interrupted runs are explored as well.
"""
import contextlib
import errno
import os
import re
import subprocess

from .. import crash, sched
from ..core import Suite, require, scratch
from . import c01

PROPERTY = 'C02'
ASSUMPTIONS = [
    'Only the process is stopped: what was written before is found on the disk afterwards, in the order it was written.',
    'A write is torn at one point; of many writes to one file, the 1st to 6th and then every power of two is a stopping point.',
    'Compilers may leave any prefix of their output when they fail or are killed (gcc removes it, others do not).',
    'The second run uses the same inputs, and modification times of the inputs lie in the past.',
]


class Task:
    """Stands for the process in the tasks of C01; collects contents of files and results."""

    def __init__(self):
        self.num, self.log, self.got = 0, [], []

    def point(self, *a):
        pass

    def seen(self, *a):
        pass


def goal(case, tasks):
    """Run all tasks with a new kernel object; returns what was delivered."""
    def fn():
        got = []

        def hold(world, proc, c, path, lock):
            path = os.path.abspath(path)
            got.append((os.path.relpath(path, c.root), c01.digest(path)))
            lock.close()

        def find(name):
            found = [os.path.join(r, n) for r, _, fs in os.walk(case.root) for n in fs if n == name]
            return min(found)
        case.find = find
        case.expected = None
        case.result = lambda world, proc, r: got.append(re.sub('Timestamp: *[-0-9]* [:0-9]*', '', repr(r)))
        old = c01.hold
        c01.hold = hold
        try:
            for name in tasks:
                for t in c01.TASKS[name]:
                    t(case.kernels[0], case.machines[0], None, Task(), case)
        finally:
            c01.hold = old
        # Everything found under its final name is trusted later on
        for r, _, fs in os.walk(case.root):
            for f in fs:
                # (in-core reports contain the time, their content is compared above)
                if f != 'k.c' and not f.endswith('.lock') and c01.final_path(f) and not f.startswith('incore_analysis'):
                    got.append((os.path.relpath(os.path.join(r, f), case.root), c01.digest(os.path.join(r, f))))
        return sorted(set(map(str, got)))
    return fn


class Fault(OSError):
    pass


def full_disk():
    raise Fault(errno.ENOSPC, 'No space left on device')


def inside(case):
    root = os.path.realpath(case.root) + '/'
    return lambda path: not isinstance(path, int) and os.path.realpath(str(path)).startswith(root)


def ev(case, ctx):
    tasks, init, mode = case['tasks'], case['init'], case['mode']
    real = case.get('real', False)
    with scratch() as d, contextlib.ExitStack() as st:
        if real:
            st.enter_context(real_environment())
        else:
            st.enter_context(c01.standins(hooks=False))
        cwd = os.getcwd()
        os.chdir(d)
        st.callback(os.chdir, cwd)
        c = c01.Case(d, ['x'])
        fn = goal(c, tasks)
        only = inside(c)
        c.reset({})
        clean = crash.run(fn, only=only)
        require(not clean['killed'] and clean['error'] is None, 'undisturbed run fails', clean.get('error'))
        n = clean['points']
        require(n > 3, 'no file-system operations were seen')
        content = snapshot(c)
        state = {}
        if init == 'stale':
            state = {k: ('stale', b'stale ' + k.encode()) for k in content}
        elif init == 'half':
            # sources are up-to-date, products are missing
            state = {k: ('fresh', v) for k, v in content.items() if k.endswith(('.c', '.h'))}
        if mode == 'kill':
            plans = [[('kill', i)] for i in range(1, 3 * n)]
        elif mode == 'disk full':
            plans = [[('fail', i)] for i in range(1, 3 * n)]
        elif mode == 'tools':
            plans = [[(k, i)] for i in range(1, 5) for k in ('tool', 'tool half', 'tool killed', 'tool nothing')]
        elif mode == 'two':
            plans = [[('kill', case['first']), (k, j)] for k in ('kill', 'fail') for j in range(1, 3 * n)]
        ended = {}
        for plan in plans:
            if ended.get(str(plan[:-1] + [plan[-1][0]])):
                continue
            c.reset(state)
            undisturbed = False
            for kind, i in plan:
                r = interrupted(c, fn, only, kind, i)
                ctx.step()
                undisturbed = not r['killed'] and not r.get('faulted')
                ctx.state(kind, disk(c))
            if undisturbed:
                ended[str(plan[:-1] + [plan[-1][0]])] = True
            left = disk(c)
            r = crash.run(fn, only=only)
            ctx.step()
            ctx.trace()
            require(not r['killed'] and r['error'] is None, 'after', plan, 'the next run fails:', r.get('error'), 'files left:', left)
            got = [g for g in r['value']]
            require(got == clean['value'] or init != '' and subset(got, clean['value']), 'after', plan, 'the next run delivers',
                    [x for x in got if x not in clean['value']][:3], 'instead of', [x for x in clean['value'] if x not in got][:3])
        require(ended or mode == 'two', 'the run has more steps than were explored')
        ctx.count('runs', len(plans))
    return '%s %s %s %d' % ('|'.join(tasks), init, mode, n)


def subset(got, want):
    """Stale files nobody asked for may remain."""
    return all(g in want or 'stale' in g for g in got) and not [w for w in want if w not in got and not w.startswith('(')]


def snapshot(c):
    out = {}
    for r, _, fs in os.walk(c.root):
        for f in fs:
            if f != 'k.c' and not f.endswith('.lock') and c01.final_path(f):
                p = os.path.join(r, f)
                with open(p, 'rb') as fp:
                    out[os.path.relpath(p, c.root)] = fp.read()
    return out


def disk(c):
    out = []
    for r, _, fs in os.walk(c.root):
        for f in fs:
            if not f.endswith('.lock'):
                p = os.path.join(r, f)
                out.append((f, os.path.getsize(p), c01.digest(p)))
    return sorted(out)


def interrupted(c, fn, only, kind, i):
    if kind == 'kill':
        return crash.run(fn, stop_at=i, only=only)
    if kind == 'fail':
        r = crash.run(fn, stop_at=i, only=only, action=full_disk)
        r['faulted'] = bool(r.get('error')) or r.get('points', 0) >= i
        return r
    # i-th tool call fails (with all, half or none of its output)
    calls = [0]
    hit = c.dir + '/hit'
    if os.path.exists(hit):
        os.unlink(hit)

    def on_tool(cmd):
        calls[0] += 1
        if calls[0] != i:
            return
        with sched.REAL['open'](hit, 'w'):
            pass
        out = cmd[cmd.index('-o') + 1]
        if kind == 'tool half':
            with sched.REAL['open'](out, 'rb') as f:
                data = f.read()
            with sched.REAL['open'](out, 'wb') as f:
                f.write(data[:len(data) // 2])
        elif kind == 'tool nothing':
            sched.REAL['unlink'](out)
        if kind == 'tool killed':
            with sched.REAL['open'](out, 'wb') as f:
                f.write(b'')
            os._exit(crash.KILLED)
        raise subprocess.CalledProcessError(1, cmd)
    sched.ON_TOOL.append(on_tool)
    try:
        r = crash.run(fn, only=only)
    finally:
        sched.ON_TOOL.remove(on_tool)
    r['faulted'] = os.path.exists(hit)
    return r


@contextlib.contextmanager
def real_environment():
    from unittest import mock
    with mock.patch.dict(os.environ, {'LIKWID_LIB': '', 'LIKWID_INC': '-I' + os.path.dirname(os.path.abspath(__file__))}):
        yield


SINGLE = ['header', 'code', 'omp', 'main', 'asm', 'obj', 'exe', 'ompexe', 'osaca', 'iaca', 'lc', 'csim', 'osaca+exe', 'lc+csim']


def suites(tier):
    deep = tier == 'thorough'

    def one():
        for mode in ('kill', 'disk full', 'tools'):
            for t in SINGLE:
                if mode == 'tools' and t in ('header', 'code', 'omp', 'main', 'lc', 'csim', 'lc+csim'):
                    continue
                for init in ('', 'stale', 'half'):
                    yield {'tasks': [t], 'init': init, 'mode': mode}

    def two():
        for t in SINGLE:
            for first in range(1, 60 if deep else 16):
                yield {'tasks': [t], 'init': '', 'mode': 'two', 'first': first}

    def real():
        for t in ('asm', 'obj', 'lc', 'csim') + (('osaca',) if deep else ()):
            for mode in ('kill', 'disk full'):
                yield {'tasks': [t], 'init': '', 'mode': mode, 'real': True}
    t = 7000 if deep else 800
    return [
        Suite('one-interruption', one, ev, chunk=1, timeout=t, bound='every mutation and tool call of runs producing every kind of intermediate'),
        Suite('two-interruptions', two, ev, chunk=1, timeout=t, bound='pairs of interrupted runs'),
        Suite('real-tools', real, ev, chunk=1, timeout=t, bound='real compiler, instrumentation and analyses'),
    ]
