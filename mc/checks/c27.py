"""C27: interrupting and resuming benchmark runs of the machine file generator (main()), at every measurement, every
source line of the update and at every change of the disk."""
import itertools
import os
import sys

from ..core import REPO, Suite, require, scratch
from .. import crash, sysfake
from . import c28

PROPERTY = 'C27'
ASSUMPTIONS = ['the host (likwid-topology, likwid-bench, machine-state.sh, clock) is a deterministic stand-in: equal commands give equal bandwidths',
               'an interruption while the file is saved may tear a write at one point',
               'a measurement is the group of repetitions recorded as one result']

TOPOS = {
    'one': dict(cps=1, caches=((32, 1),)),
    'two': dict(cps=2, caches=((32, 2),)),
    'shared': dict(cps=2, caches=((32, 2), (4096, 1))),
    'smt': dict(cps=2, tpc=2, caches=((32, 2),)),
    'three': dict(cps=3, caches=((32, 3), (256, 3), (4096, 1))),
    'three-smt': dict(cps=3, tpc=2, sockets=2, numa=2, caches=((32, 6), (256, 6), (4096, 2))),
}
REPS = 10


class Kill(BaseException):
    pass


def call_main(argv):
    import kerncraft.machinemodel as mm
    old = sys.argv
    sys.argv = ['kc-machine'] + argv
    try:
        mm.main()
        return 0
    except SystemExit as e:
        return e.code or 0
    finally:
        sys.argv = old


def load(path):
    from kerncraft.machinemodel import MachineModel
    return MachineModel(path)._data


_full = {}


def full(topo, opts=()):
    """Uninterrupted run: (normalised file, log)."""
    key = (topo, tuple(opts))
    if key not in _full:
        with scratch() as d:
            p = os.path.join(d, 'm.yml')
            with sysfake.System(**TOPOS[topo]).active() as s:
                call_main(list(opts) + [p])
            _full[key] = (c28.norm(load(p)), s.log, load(p))
    return _full[key]


SEARCH = {'load': 2, 'copy': 2, 'update': 1, 'triad': 2, 'daxpy': 1}    # candidates for the fastest kernel


def groups(log):
    """Number of complete groups of repetitions in the log of a first run (the search for the fastest kernel comes first)."""
    n, rest, seen = 0, [], {}
    for c in log:
        fam = [k for k in SEARCH if c[2].startswith(k)][0]
        seen[fam] = seen.get(fam, 0) + 1
        if seen[fam] > SEARCH[fam]:
            rest.append(c)
    for _, g in itertools.groupby(rest):
        n += len(list(g)) // REPS
    return n


def check_file(path, log):
    """A saved file is complete: loadable and without partly recorded measurements."""
    data = load(path)
    b = data['benchmarks']
    done = 0
    if isinstance(b, dict):
        for lv, ms in b.get('measurements', {}).items():
            for t, m in ms.items():
                for k, r in m.get('results', {}).items():
                    st = m['stats'].get(k, []) if 'stats' in m else []
                    require(len(r) == len(st), 'saved results and stats differ in length', lv, t, k, len(r), len(st))
                    require(len(r) <= len(m['total size']), 'more results than sizes', lv, t, k)
                    for x, s in zip(r, st):
                        require(len(s) == REPS and float(max(s)) == float(x), 'saved measurement is not complete', lv, t, k, r, st)
                    done += len(r)
    return data, done


def ev_interrupt(case, ctx):
    topo, mode, ks, opts = case
    want, flog, _ = full(topo)
    with scratch() as d:
        p = os.path.join(d, 'm.yml')
        done = 0
        seen = []
        for n, k in enumerate(list(ks) + [None]):
            s = sysfake.System(stop_at=k, stop_with=sysfake.Interrupt if mode == 'int' else Kill, **TOPOS[topo])
            args = list(opts) + (['-m', p] if os.path.exists(p) else []) + [p]
            with s.active():
                try:
                    call_main(args)
                except Kill:
                    pass
            ctx.step(len(s.log) + 1)
            seen.append(s.log)
            if os.path.exists(p):
                data, got = check_file(p, s.log)
                ctx.state(topo, got, k is None)
            else:
                require(mode != 'int', 'no file was written although the run was interrupted by the user')
                got = 0
            real = groups(s.log) if n == 0 else 0
            require(got >= done + real, 'only', got, 'of', done + real, 'finished measurements are in the saved file')
            if k is None:
                require(c28.norm(load(p)) == want, 'the file differs from that of an uninterrupted run:',
                        c28.first_diff(c28.norm(load(p)), want))
                require(len(s.log) <= len(flog) - REPS * done, 'finished measurements were repeated:', len(s.log), 'runs, of',
                        len(flog), 'in total with', done, 'measurements finished before')
            done = got
        require(sorted(os.listdir(d)) == ['m.yml'] or mode != 'int', 'left over files', os.listdir(d))
        ctx.trace()
        return [len(l) for l in seen], done


def interrupt_cases(tier):
    def it():
        names = ['one', 'two', 'shared', 'smt'] + (['three'] if tier != 'quick' else [])
        for topo in names:
            total = len(full(topo)[1])
            step = 1 if topo in ('one',) or tier != 'quick' else {'two': 3, 'shared': 7, 'smt': 7}[topo]
            for mode in ('int', 'kill'):
                for k in range(0, total, step):
                    yield [topo, mode, [k], []]
        for topo in ('one', 'two'):
            total = len(full(topo)[1])
            for k in range(0, total, 11):
                for k2 in range(0, total - k, 17):
                    yield [topo, 'kill' if (k + k2) % 2 else 'int', [k, k2], []]
            for k in range(0, total, 9):
                for opts in (['-v'], ['-vv'], ['-vvv']):
                    yield [topo, 'int', [k], opts]
    return it


# ------------------------------------------------------------------ interruption at every source line
FUNCS = ('update', '_update_benchmarks', 'dump')


def traced(stop, path, topo, opts=()):
    """Run main; raise KeyboardInterrupt before the stop-th selected line event. Returns list of (function, line)."""
    import kerncraft.machinemodel as mm
    fname = mm.__file__
    events = []

    def local(frame, event, arg):
        if event == 'line':
            events.append((frame.f_code.co_name, frame.f_lineno))
            if stop is not None and len(events) == stop:
                sys.settrace(None)
                raise KeyboardInterrupt()
        return local

    def tr(frame, event, arg):
        if frame.f_code.co_filename == fname and frame.f_code.co_name in FUNCS:
            return local
        return None
    with sysfake.System(**TOPOS[topo]).active() as s:
        old = sys.gettrace()
        sys.settrace(tr)
        try:
            try:
                call_main(list(opts) + [path])
            except KeyboardInterrupt:
                pass        # during the final save
        finally:
            sys.settrace(old)
    return events, s.log


_events = {}


def selected(topo, tier):
    """Event numbers: every line of the traced functions at its first, second, middle and last execution."""
    if topo not in _events:
        with scratch() as d:
            _events[topo] = traced(None, os.path.join(d, 'm.yml'), topo)[0]
    ev = _events[topo]
    occ = {}
    for n, e in enumerate(ev, 1):
        occ.setdefault(e, []).append(n)
    out = set()
    for e, ns in occ.items():
        out |= {ns[0], ns[min(1, len(ns) - 1)], ns[len(ns) // 2], ns[-1]}
        if tier != 'quick':
            out |= set(ns[:20]) | set(ns[::50])
    return sorted(out)


def ev_line(case, ctx):
    topo, stop = case
    want, flog, _ = full(topo)
    with scratch() as d:
        p = os.path.join(d, 'm.yml')
        events, log = traced(stop, p, topo)
        at = events[stop - 1] if len(events) >= stop else None
        if os.path.exists(p):
            load(p)
        s = sysfake.System(**TOPOS[topo])
        with s.active():
            call_main((['-m', p] if os.path.exists(p) else []) + [p])
        require(c28.norm(load(p)) == want, 'interrupted before', at, ': the file differs from that of an uninterrupted run:',
                c28.first_diff(c28.norm(load(p)), want))
        require(sorted(os.listdir(d)) == ['m.yml'], 'left over files', os.listdir(d))
        ctx.step(2)
        ctx.state(topo, stop)
        return at[0] if at else None, len(s.log)


# ------------------------------------------------------------------ killed while saving
def ev_disk(case, ctx):
    topo, part, of = case
    want, flog, _ = full(topo)
    with scratch() as d:
        def only(path):
            return str(path).startswith(d)

        def go():
            with sysfake.System(**TOPOS[topo]).active():
                call_main([os.path.join(d, 'm.yml')])
        r = crash.run(go, only=only)
        require(r.get('error') is None, r.get('error'))
        n = r['points']
        labels = r['labels']
        require(c28.norm(load(os.path.join(d, 'm.yml'))) == want, 'complete run differs')
    seen = 0
    for stop in range(1 + part, n + 1, of):
        with scratch() as d:
            p = os.path.join(d, 'm.yml')

            def go2():
                with sysfake.System(**TOPOS[topo]).active():
                    call_main([p])
            r = crash.run(go2, stop_at=stop, only=lambda path: str(path).startswith(d))
            require(r['killed'], 'not reproducible: stop', stop, 'of', n, r)
            got = 0
            if os.path.exists(p):
                try:
                    _, got = check_file(p, None)
                except Exception as e:
                    require(False, 'killed at', labels[stop - 1], '(change %d of %d): the saved file is damaged:' % (stop, n), repr(e)[:300])
            s = sysfake.System(**TOPOS[topo])
            with s.active():
                call_main((['-m', p] if os.path.exists(p) else []) + [p])
            require(c28.norm(load(p)) == want, 'killed at', labels[stop - 1], ': the file differs from that of an uninterrupted run:',
                    c28.first_diff(c28.norm(load(p)), want))
            require(len(s.log) <= len(flog) - REPS * got, 'repeated finished measurements')
            ctx.step(2)
            ctx.state(topo, stop)
            ctx.trace()
            seen += 1
    return topo, n, seen


# ------------------------------------------------------------------ changed systems
CHANGES = {
    'same': {}, 'l1 +0.5%': {'l1': 1.005}, 'l1 x2': {'l1': 2}, 'l1 -5%': {'l1': .95}, 'l2 x2': {'l2': 2}, 'l2 x0.5': {'l2': .5},
    'cores +1': {'cps': 1}, 'smt on': {'tpc': 2}, 'l2 private': {'l2groups': 2},
}


def changed(name):
    c = CHANGES[name]
    cps = 2 + c.get('cps', 0)
    return dict(cps=cps, tpc=c.get('tpc', 1), caches=((int(1000 * c.get('l1', 1)), cps), (int(4000 * c.get('l2', 1)), c.get('l2groups', 1))))


def bw_of(which):
    def bw(cmd):
        base = 2000.0 if cmd[2].endswith('_avx') else 1000.0
        return base + which * 10000.0 + (sum(ord(c) * (i % 5 + 1) for i, c in enumerate(' '.join(cmd))) % 499)
    return bw


_sys = {}


def run_on(name, which, args, stop=None):
    s = sysfake.System(stop_at=stop, bw=bw_of(which), **changed(name))
    with s.active():
        call_main(args)
    return s


def fresh(name, which):
    if (name, which) not in _sys:
        with scratch() as d:
            p = os.path.join(d, 'm.yml')
            s = run_on(name, which, [p])
            _sys[name, which] = (load(p), s.log)
    return _sys[name, which]


def close(a, b):
    """Configurations within 1 % of each other."""
    for k in ('cores', 'threads', 'threads per core', 'size per core', 'size per thread', 'total size'):
        x, y = a[k], b[k]
        if not isinstance(x, list):
            x, y = [x], [y]
        if len(x) != len(y):
            return False
        for i, j in zip(x, y):
            if abs(float(i) - float(j)) >= .01 * min(float(i), float(j)):
                return False
    return True


def ev_changed(case, ctx):
    before, after, stop = case
    want, _ = fresh(after, 1)
    with scratch() as d:
        p = os.path.join(d, 'm.yml')
        run_on(before, 0, [p], stop)
        old = load(p)
        s = run_on(after, 1, ['-m', p, p])
        got = load(p)
    om = old['benchmarks'].get('measurements', {}) if isinstance(old['benchmarks'], dict) else {}
    kept = 0
    for lv, ms in want['benchmarks']['measurements'].items():
        for t, m in ms.items():
            g = got['benchmarks']['measurements'][lv][t]
            o = om.get(lv, {}).get(t)
            keep = o is not None and close(o, m)
            for key in ('cores', 'threads', 'threads per core'):
                require(g[key] == m[key], 'configuration', key, 'of', lv, t, 'is', g[key], 'not', m[key])
            for key in ('size per core', 'size per thread', 'total size'):
                exp = o[key] if keep else m[key]
                require([float(x) for x in g[key]] == [float(x) for x in exp], key, 'of', lv, t, 'is', g[key], 'not', exp)
            for k in want['benchmarks']['kernels']:
                exp = [float(x) for x in (o['results'].get(k, []) if keep else [])]
                kept += len(exp)
                new = [float(x) for x in m['results'][k]]
                res = [float(x) for x in g['results'][k]]
                require(len(res) == len(new) == len(g['stats'][k]), 'wrong number of results for', lv, t, k, res)
                for i, x in enumerate(res):
                    if i < len(exp):
                        require(x == exp[i], 'finished measurement', lv, t, k, i, 'is', x, 'instead of', exp[i])
                    elif keep:
                        require(x >= 10000, 'value of the old system', lv, t, k, i, x)
                    else:
                        require(x == new[i], 'measurement', lv, t, k, i, 'is', x, 'but the changed system gives', new[i])
    ctx.step(3)
    ctx.state(before, after, stop is None)
    return before, after, kept, len(s.log)


def changed_cases(tier):
    def it():
        pairs = [(a, b) for a in CHANGES for b in CHANGES if a == 'same' or b == 'same' or tier != 'quick']
        for a, b in pairs:
            if a == 'smt on' and b != a:
                continue        # measurements for more threads per core than available stay in the file
            yield [a, b, None]
        for a, b in pairs:
            if a == 'smt on' and b != a:
                continue
            total = len(fresh(a, 0)[1])
            for k in range(0, total, 61 if tier == 'quick' else 17):
                yield [a, b, k]
    return it


# ------------------------------------------------------------------ command line
def ev_cli(case, ctx):
    """Everything that is not to be updated is kept; a file is never lost."""
    opts, target = case
    with scratch() as d:
        p = os.path.join(d, 'm.yml')
        q = os.path.join(d, 'q.yml')
        with sysfake.System(**TOPOS['two']).active():
            call_main([p])
        base = load(p)
        base['FLOPs per cycle']['DP']['total'] = 8
        from kerncraft.machinemodel import MachineModel
        MachineModel(machine_yaml=base).dump(p)
        base = load(p)
        out = p if target == 'same' else q
        if target == 'link':
            os.symlink(p, q)
        if target == 'stdout':
            import io
            buf = io.StringIO()
            old, sys.stdout = sys.stdout, buf
        with sysfake.System(bw=lambda cmd: 5., **TOPOS['two']).active() as s:
            try:
                call_main(['-m', p] + opts + ['-' if target == 'stdout' else out])
            finally:
                if target == 'stdout':
                    sys.stdout = old
        if target == 'stdout':
            with open(q, 'w') as f:
                f.write(buf.getvalue())
            require(sorted(os.listdir(d)) == ['m.yml', 'q.yml'], 'other files written', os.listdir(d))
        if target == 'link':
            require(os.path.islink(q), 'the link was replaced')
        got = load(out)
        require(not s.log, 'complete benchmarks measured again', s.log[:3])
        a, b = dict(c28.norm(base)[1]), dict(c28.norm(got)[1])
        for k in a:
            if k[1] == 'memory hierarchy' and '--no-memory-hierarchy' not in opts:
                continue
            require(a[k] == b.get(k), k, 'was changed', a[k], b.get(k))
        if target in ('other', 'stdout'):
            require(c28.norm(load(p)) == c28.norm(base), 'the file given with -m was changed')
        ctx.step(2)
        ctx.state(tuple(opts), target)
        return opts, target


def cli_cases():
    sw = [['--no-readouts'], ['--no-memory-hierarchy'], ['--no-benchmarks'], ['--no-overwrite'], ['-v']]
    for target in ('same', 'other', 'link', 'stdout'):
        for n in range(4):
            for c in itertools.combinations(sw, n):
                yield [sum(c, []), target]


def suites(tier):
    q = tier == 'quick'
    return [
        Suite('interrupt', interrupt_cases(tier), ev_interrupt, timeout=300, chunk=2,
              bound='interruption (Ctrl-C or kill) before every benchmark run of 1-core systems, every 3rd/7th on larger ones (every one in '
                    'the thorough tier), pairs of interruptions, verbosity 0-3; resumed to the end'),
        Suite('lines', lambda: ([t, n] for t in (['two'] if q else ['two', 'smt', 'shared']) for n in selected(t, tier)), ev_line,
              timeout=300, chunk=2, bound='Ctrl-C before every source line of update/_update_benchmarks/dump at its first, second, middle and last execution'),
        Suite('disk', lambda: ([t, i, 16] for t in (['one'] if q else ['one', 'two', 'smt']) for i in range(16)), ev_disk, timeout=3000, chunk=1,
              bound='killed after every change of the disk (open, half write, write, replace, unlink) of a complete run'),
        Suite('changed', changed_cases(tier), ev_changed, timeout=300, chunk=2,
              bound='all pairs of 9 system configurations with one unchanged; complete or interrupted first run'),
        Suite('cli', cli_cases, ev_cli, timeout=120, chunk=2, bound='all combinations of up to 3 of 5 switches x 4 output targets'),
    ]
