"""C22: result files (--store, --json) and picklemerge: all short histories of runs on one file, and a kill at every change of
the disk."""
import collections
import contextlib
import itertools
import json
import os
import pickle
import sys

from ..core import Suite, require, scratch
from .. import crash
from . import c21

PROPERTY = 'C22'
ASSUMPTIONS = ['one run at a time uses a result file', 'a kill leaves completed system calls on disk, writes may be torn at one point',
               'without --store the JSON file holds the current run only']

KNAME = 'NM'
VERSION = [0]


def results(gen, key):
    from kerncraft.prefixedunit import PrefixedUnit
    return {'gen': gen, 'key': repr(key), 'perf': {'cy/CL': PrefixedUnit(1.5 + gen, '', 'cy/CL'), 'list': [1, 2.25, (3, 'x'), {'y': None}]},
            'inf': float('inf'), 'tuple': (1, ('a', 'b')), 'flag': True, 7: 'int key', 'text': 'a' * 3000}


def stubs(fail_at=None):
    """Models recording results with the current generation; optionally failing at the n-th analysis."""
    count = [0]

    def make(name):
        class Rec:
            @classmethod
            def configure_arggroup(cls, parser):
                pass

            def __init__(self, kernel, machine, args=None, parser=None):
                self.kernel = kernel

            def analyze(self):
                count[0] += 1
                if fail_at is not None and count[0] == fail_at:
                    raise RuntimeError('analysis failed')
                self.results = results(VERSION[0], (name, sorted((str(k), int(v)) for k, v in self.kernel.constants.items())))

            def report(self, output_file=None):
                pass
        Rec.name = name
        return Rec
    return {m: make(m) for m in c21.MODELS}


def go(d, argv, gen, fail_at=None):
    VERSION[0] = gen
    orig = c21.recorder
    st = stubs(fail_at)
    c21.recorder = lambda m: st[m]
    try:
        return c21.run_cli(d, c21.KERNELS[KNAME], argv)[0]
    finally:
        c21.recorder = orig


RUNS = [  # (models, N values, M values)
    (['LC'], [100], [100]),
    (['LC', 'ECMData'], [100, 101], [100]),
    (['ECMData'], [101, 102], [100, 120]),
    (['RooflineFLOP'], [102], [120]),
    (['LC'], [101, 100, 102], [100]),
]


def argv(run, store, js):
    models, ns, ms = RUNS[run]
    out = sum((['-p', m] for m in models), []) + sum((['-D', 'N', str(n)] for n in ns), []) + sum((['-D', 'M', str(m)] for m in ms), [])
    if store:
        out += ['--store', store]
    if js:
        out += ['--json', js]
    return out


def combos(run):
    models, ns, ms = RUNS[run]
    return [((('M', m), ('N', n)), p) for m in sorted(ms) for n in sorted(ns) for p in models]


def content(stored):
    """{(define, model): generation} of entries of ours; everything else kept apart"""
    ours, other = {}, {}
    for k, v in stored.items():
        if isinstance(k, tuple):
            d = dict(k)
            ours[c21.norm_define(d['define']), d['pmodel']] = v
        else:
            other[k] = v
    return ours, other


def check_results(ours, want):
    require(set(ours) == set(want), 'stored entries are', sorted(ours), 'instead of', sorted(want))
    for k, gen in want.items():
        exp = results(gen, (k[1], [list(x) for x in k[0]]))
        got = dict(ours[k])
        require(got['gen'] == gen, 'entry', k, 'is of run', got['gen'], 'instead of', gen)
        exp['key'] = got['key']
        require(repr(k[1]) in got['key'] and all(repr(x) in got['key'] for x in k[0]), 'entry', k, 'holds the results of', got['key'])
        require(repr(got) == repr(exp), 'entry', k, 'changed:', got, exp)


def mirrors(j, x):
    if isinstance(x, dict):
        return isinstance(j, dict) and len(j) == len(x) and all(str(k) in j and mirrors(j[str(k)], v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return isinstance(j, list) and len(j) == len(x) and all(mirrors(a, b) for a, b in zip(j, x))
    if isinstance(x, (bool, str, float, int)):
        return type(j) is type(x) and j == x
    return j == str(x) or j is None and x is None


def load(p):
    with open(p, 'rb') as f:
        data = pickle.load(f)
        require(f.read() == b'', 'garbage behind the stored results')
    return data


FOREIGN = {'something else': {'nested': [1, 2, 3]}, 'x': 1}


def prepare(state, store, js):
    if state == 'absent':
        return {}
    if state == 'empty':
        open(store, 'w').close()
        open(js, 'w').close()
        return {}
    if state == 'foreign':
        with open(store, 'wb') as f:
            pickle.dump(FOREIGN, f)
        with open(js, 'w') as f:
            json.dump({'old': 1}, f)
        return dict(FOREIGN)
    if state == 'left-over':
        for p in (store, js):
            with open(p + '.tmp', 'w') as f:
                f.write('incomplete {{{ of a killed run' * 500)
        return {}


def ev_history(case, ctx):
    state, runs, mode = case
    with scratch() as d:
        store, js = os.path.join(d, 'r.pickle'), os.path.join(d, 'r.json')
        other = prepare(state, store, js)
        want = {}
        for gen, run in enumerate(runs):
            m = mode if mode != 'alternate' else ('store', 'both')[gen % 2]
            if m == 'json' or m == 'none':
                go(d, argv(run, None, js if m == 'json' else None), gen)
                if m == 'json':
                    with open(js) as f:
                        j = json.load(f)
                    keys = [eval(k) for k in j]
                    require(sorted((c21.norm_define(dict(k)['define']), dict(k)['pmodel']) for k in keys) == sorted(combos(run)), 'JSON of the run holds', keys)
                if m == 'none' and state == 'absent':
                    require(not os.path.exists(store) and not os.path.exists(js), 'results written without being asked')
                continue
            go(d, argv(run, store, js if m == 'both' else None), gen)
            for c in combos(run):
                want[c] = gen
            data = load(store)
            ours, rest = content(data)
            check_results(ours, want)
            require(rest == other, 'other entries of the file changed', rest, other)
            if m == 'both':
                with open(js) as f:
                    j = json.load(f)
                require(mirrors(j, data), 'JSON does not mirror the stored results')
            ctx.step()
            ctx.state(state, tuple(runs[:gen + 1]), m)
        return state, sorted(want.values())


def history_cases(tier):
    def it():
        for state in ('absent', 'empty', 'foreign', 'left-over'):
            for n in range(1, 4 if tier == 'quick' else 5):
                for runs in itertools.product(range(len(RUNS)), repeat=n):
                    yield [state, list(runs), ('both', 'store', 'alternate')[sum(runs) % 3]]
            for run in range(len(RUNS)):
                yield [state, [run, (run + 1) % len(RUNS)], 'json']
                yield [state, [run], 'none']
    return it


# ------------------------------------------------------------------ which results belong together
IDENT = [  # (arguments, same entries as the plain run)
    ('plain', []),
    ('verbose', ['-v']),
    ('unit', ['-u', 'cy/It']),
    ('clean', ['--clean-intermediates']),
    ('other kernel directory', []),
    ('other machine directory', []),
    ('cores', ['-c', '2']),
    ('predictor', ['-P', 'LC']),
    ('compiler', ['-C', 'gcc']),
    ('compiler flags', ['--compiler-flags=-O1']),
    ('incore', ['-i', 'LLVM-MCA']),
    ('increment', ['--pointer-increment', '32']),
    ('block', ['--asm-block', '2']),
    ('block manual', ['--asm-block', 'manual']),
]
SAME = ('plain', 'verbose', 'unit', 'clean')


def ev_identity(case, ctx):
    """Runs with different arguments are different entries, equal runs (and those differing in the presentation) replace theirs."""
    with scratch() as d:
        store, js = os.path.join(d, 'r.pickle'), os.path.join(d, 'r.json')
        for sub in ('one', 'two', 'machine'):
            os.mkdir(os.path.join(d, sub))
        machine = os.path.join(d, 'machine', os.path.basename(c21.MACHINE))
        with open(c21.MACHINE) as f, open(machine, 'w') as g:
            g.write(f.read())
        want = {}
        for gen, (i, run) in enumerate(case):
            name, extra = IDENT[i]
            if name == 'other machine directory':
                extra = ['-m', machine]
            go(os.path.join(d, 'two' if name == 'other kernel directory' else 'one'), argv(run, store, js) + extra, gen)
            for c in combos(run):
                want['plain' if name in SAME else name, c] = gen
            data = load(store)
            got = sorted(((c21.norm_define(dict(k)['define']), dict(k)['pmodel']), v['gen']) for k, v in data.items())
            exp = sorted((c, g) for (_, c), g in want.items())
            require(got == exp, 'after runs', [(IDENT[i][0], RUNS[r]) for i, r in case[:gen + 1]], 'the file holds', got, 'instead of', exp)
            with open(js) as f:
                require(mirrors(json.load(f), data), 'JSON does not mirror the stored results')
            ctx.step()
            ctx.state(tuple(map(tuple, case[:gen + 1])))
        return len(want)


def identity_cases(tier):
    def it():
        n = len(IDENT)
        for a in range(n):
            for b in range(n):
                yield [[a, 0], [b, 0]]
                if a != b:
                    yield [[a, 1], [b, 0], [a, 0]]
                if tier != 'quick':
                    for c in range(n):
                        for r in ((1, 0, 2), (0, 0, 0)):
                            yield [[a, r[0]], [b, r[1]], [c, r[2]]]
    return it


# ------------------------------------------------------------------ failures and kills
def ev_fail(case, ctx):
    """An analysis failing at any point keeps what was stored before, and everything of finished combinations."""
    first, run, at = case
    with scratch() as d:
        store, js = os.path.join(d, 'r.pickle'), os.path.join(d, 'r.json')
        want = {}
        if first is not None:
            go(d, argv(first, store, js), 0)
            want = {c: 0 for c in combos(first)}
        try:
            go(d, argv(run, store, js), 1, fail_at=at)
            failed = False
        except RuntimeError:
            failed = True
        nmodels = len(RUNS[run][0])
        done = combos(run)[:((at - 1) // nmodels) * nmodels] if failed else combos(run)
        data = load(store) if os.path.getsize(store) else {}
        ours, _ = content(data)
        full = dict(want)
        full.update({c: 1 for c in done})
        more = dict(want)
        more.update({c: 1 for c in combos(run)[:at - 1]} if failed else full)
        check_results(ours, more if set(ours) == set(more) and all(ours[k]['gen'] == more[k] for k in more) else full)
        go(d, argv(run, store, js), 2)
        want.update({c: 2 for c in combos(run)})
        check_results(content(load(store))[0], want)
        with open(js) as f:
            require(mirrors(json.load(f), load(store)), 'JSON does not mirror the stored results')
        ctx.step(3)
        ctx.state(first, run, at)
        return failed


def ev_kill(case, ctx):
    first, run, mode, part, of = case
    total = None
    stop = 1 + part
    seen = 0
    while total is None or stop <= total:
        with scratch() as d:
            store, js = os.path.join(d, 'r.pickle'), os.path.join(d, 'r.json')
            before = {}
            if first is not None:
                go(d, argv(first, store, js), 0)
                before = {c: 0 for c in combos(first)}
            args = argv(run, store, js if mode == 'both' else None)

            def job():
                go(d, args, 1)
            only = lambda p: str(p).startswith(d) and 'r.' in os.path.basename(str(p))
            if total is None:
                r = crash.run(job, only=only)
                require(r.get('error') is None, r.get('error'))
                total, labels = r['points'], r['labels']
                if stop > total:
                    break
                continue
            r = crash.run(job, stop_at=stop, only=only)
            require(r['killed'], 'not reproducible', r)
            where = 'killed after change %d of %d (%s)' % (stop, total, labels[stop - 1])
            got = {}
            if os.path.exists(store) and os.path.getsize(store):
                try:
                    got = content(load(store))[0]
                except Exception as e:
                    require(False, where, ': the result file is damaged', repr(e))
            else:
                require(first is None, where, ': earlier results are lost')
            cs = combos(run)
            gens = {k: v['gen'] for k, v in got.items()}
            ok = False
            for n in range(len(cs) + 1):
                w = dict(before)
                w.update({c: 1 for c in cs[:n]})
                ok = ok or gens == w
            require(ok, where, ': the result file holds', gens)
            check_results(got, gens)
            if mode == 'both' and os.path.exists(js) and os.path.getsize(js):
                try:
                    with open(js) as f:
                        json.load(f)
                except ValueError as e:
                    require(False, where, ': the JSON file is damaged', repr(e))
            else:
                require(first is None or mode != 'both', where, ': the JSON file is lost')
            # extend
            go(d, argv(3, store, js), 2)
            w = dict(gens)
            w.update({c: 2 for c in combos(3)})
            check_results(content(load(store))[0], w)
            with open(js) as f:
                require(mirrors(json.load(f), load(store)), 'JSON does not mirror the stored results')
            ctx.step(3)
            ctx.state(first, run, mode, stop)
            ctx.trace()
            seen += 1
            stop += of
    return first, run, total, seen


def ev_damaged(case, ctx):
    """A result file which cannot be read is refused and not touched."""
    kind, n = case
    with scratch() as d:
        store = os.path.join(d, 'r.pickle')
        go(d, argv(1, store, None), 0)
        with open(store, 'rb') as f:
            data = f.read()
        bad = data[:max(1, len(data) * n // 20)] if kind == 'cut' else b'text ' * n
        with open(store, 'wb') as f:
            f.write(bad)
        try:
            go(d, argv(2, store, None), 1)
        except Exception as e:
            with open(store, 'rb') as f:
                require(f.read() == bad, 'an unreadable result file was changed')
            ctx.step()
            return type(e).__name__
        require(False, 'an unreadable result file was accepted; it now holds', list(load(store)))


# ------------------------------------------------------------------ picklemerge
def ref_merge(a, b):
    out = dict(a)
    for k, v in b.items():
        if isinstance(v, dict):
            out[k] = ref_merge(out[k] if isinstance(out.get(k), dict) else {}, v)
        else:
            out[k] = v
    return out


def trees(depth):
    leaves = [1, [1, 2]]
    if depth == 0:
        return leaves
    sub = trees(depth - 1)
    vals = [None] + sub + ([{}] if depth else [])      # None: key absent
    out = []
    for x in vals:
        for y in vals:
            out.append({k: v for k, v in (('a', x), ('b', y)) if v is not None})
    return leaves + [t for n, t in enumerate(out) if t not in out[:n]]


DICTS = [t for t in trees(2) if isinstance(t, dict)]
SMALL = [t for t in trees(1) if isinstance(t, dict)] + [{'a': {'a': 1}}, {'a': {'b': 2, 'c': {}}}, {'a': {'b': {'c': 5}}, 'z': 0}, {('N', 5): {'L1': 2.5}}]


def variant(t, n, salt):
    """Different leaf values per file; other mapping types."""
    if isinstance(t, dict):
        items = {k: variant(v, n, salt + str(k)) for k, v in t.items()}
        return collections.OrderedDict(items) if n % 2 else items
    return [salt, n] if isinstance(t, list) else '%s%s%d' % (salt, t, n)


def call_merge(paths):
    from kerncraft import picklemerge
    old = sys.argv
    sys.argv = ['picklemerge'] + paths
    try:
        picklemerge.main()
    finally:
        sys.argv = old


def plain(x):
    return {k: plain(v) for k, v in x.items()} if isinstance(x, dict) else x


def put(d, n, t):
    p = os.path.join(d, 'f%d.pickle' % n)
    with open(p, 'wb') as f:
        pickle.dump(t, f)
    return p


def ev_merge(case, ctx):
    idx, pool = case
    src = DICTS if pool == 'dicts' else SMALL
    ts = [variant(src[i], n, '') for n, i in enumerate(idx)]
    with scratch() as d:
        paths = [put(d, n, t) for n, t in enumerate(ts)]
        call_merge(paths)
        want = plain(ts[0])
        for t in ts[1:]:
            want = ref_merge(want, plain(t))
        got = plain(load(paths[0]))
        require(got == want, 'merge of', [plain(t) for t in ts], 'gives', got, 'instead of', want)
        for p, t in list(zip(paths, ts))[1:]:
            require(load(p) == t, 'a source file was changed')
        ctx.step(len(idx))
        ctx.state(repr(want))
        require(sorted(os.listdir(d)) == sorted(os.path.basename(p) for p in paths), 'left over files', os.listdir(d))
        return repr(want)[:100]


def merge_cases(tier):
    def it():
        n = len(DICTS)
        step = 1 if tier != 'quick' else 5
        for a in range(n):
            for b in range(a % step, n, step):
                yield [[a, b], 'dicts']
        for k in (2, 3):
            for c in itertools.product(range(len(SMALL)), repeat=k):
                yield [list(c), 'small']
    return it


def ev_merge_kill(case, ctx):
    ts = [{('k', n): results(n, n) for n in range(3)}, {('k', n): {'more': n, 'perf': {'list': n}} for n in range(2, 5)}, {'x': {'y': {}}}][:case[0]]
    if case[1] == 'reversed':
        ts.reverse()
    want = plain(ts[0])
    for t in ts[1:]:
        want = ref_merge(want, plain(t))
    total = None
    stop = 0
    while total is None or stop <= total:
        with scratch() as d:
            paths = [put(d, n, t) for n, t in enumerate(ts)]
            job = lambda: call_merge(paths)
            only = lambda p: str(p).startswith(d)
            r = crash.run(job, stop_at=stop or None, only=only)
            if total is None:
                require(r.get('error') is None, r.get('error'))
                total, labels = r['points'], r['labels']
                require(repr(plain(load(paths[0]))) == repr(want), 'merge is wrong')
            else:
                require(r['killed'], 'not reproducible')
                try:
                    got = repr(plain(load(paths[0])))
                except Exception as e:
                    require(False, 'killed after', labels[stop - 1], ': the destination is damaged', repr(e))
                require(got in (repr(plain(ts[0])), repr(want)), 'killed after', labels[stop - 1], ': the destination holds', got[:300])
                call_merge(paths)
                require(repr(plain(load(paths[0]))) == repr(want), 'repeated merge is wrong')
            ctx.step()
            ctx.state(case[0], case[1], stop)
            ctx.trace()
            stop += 1
    return total


def ev_merge_bad(case, ctx):
    """A bad file among the arguments leaves the destination as it was."""
    pos, kind = case
    with scratch() as d:
        paths = [put(d, n, {'a': n, 'b': {'c%d' % n: 1}}) for n in range(3)]
        bad = {'missing': None, 'empty': b'', 'garbage': b'garbage', 'list': pickle.dumps([1, 2])}[kind]
        if bad is None:
            os.unlink(paths[pos])
        else:
            with open(paths[pos], 'wb') as f:
                f.write(bad)
        before = open(paths[0], 'rb').read() if os.path.exists(paths[0]) else None
        try:
            call_merge(paths)
        except (Exception, SystemExit):
            after = open(paths[0], 'rb').read() if os.path.exists(paths[0]) else None
            require(after == before, 'the destination was changed although the merge was refused')
            ctx.step()
            return kind
        require(False, 'bad file accepted', kind, pos)


def suites(tier):
    q = tier == 'quick'
    return [
        Suite('history', history_cases(tier), ev_history, chunk=8, bound='4 initial states x all sequences of up to %d of 5 runs, store/JSON modes' % (3 if q else 4)),
        Suite('identity', identity_cases(tier), ev_identity, chunk=4, bound='all pairs%s of %d variants of the arguments' % ('' if q else ' and triples', len(IDENT))),
        Suite('fail', lambda: ([f, r, a] for f in (None, 0, 1, 2) for r in range(len(RUNS)) for a in range(1, len(combos(r)) + 1)), ev_fail, chunk=2,
              bound='an analysis failing at every point'),
        Suite('kill', lambda: ([f, r, m, i, 4] for f in (None, 1, 2) for r in ((1, 2, 3) if q else range(len(RUNS))) for m in ('both', 'store') for i in range(4)), ev_kill,
              chunk=1, timeout=600, bound='killed at every change of the result files (open, half write, write, replace)'),
        Suite('damaged', lambda: ([k, n] for k in ('cut', 'text') for n in range(1, 20)), ev_damaged, bound='19 truncations, 19 foreign files'),
        Suite('merge', merge_cases(tier), ev_merge, chunk=64, bound='all pairs%s of %d nested dictionaries, all pairs and triples of %d small ones' % (' (every 5th)' if q else '', len(DICTS), len(SMALL))),
        Suite('merge-kill', lambda: ([n, o] for n in (2, 3) for o in ('', 'reversed')), ev_merge_kill, chunk=1, bound='killed at every change of the disk'),
        Suite('merge-bad', lambda: ([p, k] for p in (0, 1, 2) for k in ('missing', 'empty', 'garbage', 'list')), ev_merge_bad, bound='4 kinds of bad files at 3 positions'),
    ]
