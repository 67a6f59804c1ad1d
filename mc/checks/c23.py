"""C23: counter scheduling measures every event once on a register it may use.

Everything is enumerated exhaustively on the real functions of the benchmark model and of the
stand-alone script: all register descriptions of a grammar up to a length, all character groups
up to a length, and all sequences of events up to a length.
"""
import importlib.util
import itertools
import os

from mc.core import Suite, require

PROPERTY = 'C23'
ASSUMPTIONS = [
    'register descriptions follow the documented grammar: characters, groups in brackets and '
    'unions on the outermost level; ranges stay within lower case, upper case or digits',
    'group ranges are inclusive; a descending range denotes nothing',
]
ROOT = os.environ.get('VERIF_REPO', '/repo')

CHARS = ['P', 'C', '0', '1']
GROUPS = ['[01]', '[0-2]', '[1-0]', '[2]', '[13-4]', '[A-C]', '[x0-1Y]', '[0-1a-b]']
BENCH, SCRIPT = 'model', 'script'


def module(which):
    if which == BENCH:
        from kerncraft.models import benchmark
        return benchmark
    spec = importlib.util.spec_from_file_location(
        'likwid_counter_packing', os.path.join(ROOT, 'likwid-counter-packing.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


# --- reference --------------------------------------------------------------------------------
def ref_group(g):
    out, i = [], 0
    while i < len(g):
        if i + 2 < len(g) and g[i + 1] == '-' and g[i].isalnum() and g[i + 2].isalnum():
            a, b = g[i], g[i + 2]
            out += [chr(c) for c in range(ord(a), ord(b) + 1)]
            i += 3
        else:
            out.append(g[i])
            i += 1
    return out


def ref_options(desc):
    out = []
    for alt in desc.split('|'):
        parts, i = [], 0
        while i < len(alt):
            if alt[i] == '[':
                j = alt.index(']', i)
                parts.append(ref_group(alt[i + 1:j]))
                i = j + 1
            else:
                parts.append([alt[i]])
                i += 1
        out += [''.join(p) for p in itertools.product(*parts)]
    return out


# --- expansion --------------------------------------------------------------------------------
def words(n):
    for l in range(1, n + 1):
        for w in itertools.product(CHARS + GROUPS, repeat=l):
            yield ''.join(w)


def desc_cases(tier):
    n = 4 if tier == 'quick' else 5

    def cases():
        ws = list(words(n))
        for i in range(0, len(ws), 200):
            for which in (BENCH, SCRIPT):
                yield {'which': which, 'descs': ws[i:i + 200]}
        short = list(words(2))
        un = [a + '|' + b for a in short for b in short]
        for i in range(0, len(un), 500):
            yield {'which': BENCH, 'descs': un[i:i + 500]}
        tri = [a + '|' + b + '|' + c for a in CHARS + GROUPS for b in CHARS + GROUPS
               for c in CHARS + GROUPS]
        for which in (BENCH, SCRIPT):
            yield {'which': which, 'descs': tri}
    return cases


def desc_eval(case, ctx):
    mod = module(case['which'])
    for d in case['descs']:
        got = list(mod.register_options(d))
        exp = ref_options(d)
        ctx.step(1)
        ctx.state(d)
        require(set(got) == set(exp), 'register description', repr(d), 'expands to', got,
                'but denotes', exp)
    return 'expanded'


ALPHA = 'ab01-'


def group_cases(tier):
    n = 6 if tier == 'quick' else 8

    def cases():
        for which in (BENCH, SCRIPT):
            for first in itertools.product(ALPHA, repeat=2):
                yield {'which': which, 'prefix': ''.join(first), 'n': n - 2}
    return cases


def group_eval(case, ctx):
    mod = module(case['which'])
    for l in range(case['n'] + 1):
        for t in itertools.product(ALPHA, repeat=l):
            g = case['prefix'] + ''.join(t)
            # ranges across letters and digits have no stated meaning
            if any(g[i] == '-' and i and i + 1 < len(g) and g[i - 1] != '-' and g[i + 1] != '-'
                   and g[i - 1].isdigit() != g[i + 1].isdigit() for i in range(len(g))):
                continue
            ctx.step(1)
            ctx.state(g)
            got = list(mod.group_iterator(g))
            require(set(got) == set(ref_group(g)), 'group', repr(g), 'is', got, 'not',
                    ref_group(g))
    return 'expanded'


# --- packing ----------------------------------------------------------------------------------
REGS = ['PMC0', 'PMC[01]', 'PMC[0-2]', 'PMC0|MBOX0', 'MBOX[01]C0', 'PMC2|PMC[10]', 'PMC1']
PARAMS = [(), ('EDGEDETECT', 'THRESHOLD=0x2')]


def pool(kind):
    if kind == 'wide':
        return [(e, r, p) for e in 'AB' for r in REGS for p in PARAMS]
    if kind == 'mid':
        return [(e, r, ()) for e in 'ABC' for r in ('PMC0', 'PMC[01]', 'PMC[0-2]')]
    return [('A', 'PMC[0-1]', ()), ('B', 'PMC0', ()), ('B', 'PMC[0-1]', ('EDGEDETECT',)),
            ('C', 'PMC1|FIXC0', ())]


def pack_cases(tier):
    plan = [('wide', 1), ('wide', 2), ('wide', 3), ('mid', 4), ('narrow', 7)] if tier == 'quick' else \
        [('wide', 1), ('wide', 2), ('wide', 3), ('mid', 5), ('mid', 6), ('narrow', 9)]

    def cases():
        for kind, n in plan:
            size = len(pool(kind))
            yield_prefix = max(0, n - 2)
            for prefix in itertools.product(range(size), repeat=yield_prefix):
                yield {'pool': kind, 'n': n, 'prefix': list(prefix)}
    return cases


def check_runs(mod, which, events, ctx):
    if which == SCRIPT:
        conv = {(): None, ('EDGEDETECT',): {'EDGEDETECT': None},
                ('EDGEDETECT', 'THRESHOLD=0x2'): {'EDGEDETECT': None, 'THRESHOLD': 2}}
        back = {repr(v): k for k, v in conv.items()}
        given = [(e, r, conv[p]) for e, r, p in events]
    else:
        given = list(events)
    runs = mod.build_minimal_runs(list(given))
    ctx.step(1)
    distinct = list(dict.fromkeys(events))
    measured = []
    for run in runs:
        require(len(run) > 0, 'empty run for', events)
        regs = [m[1] for m in run]
        require(len(set(regs)) == len(regs), 'register used twice in one run:', run, 'for', events)
        for m in run:
            e, r, p = m
            text = mod.eventstr(m)
            require(mod.eventstr(event=e, register=r, parameters=p) == text,
                    'eventstr depends on how it is called:', m)
            if which == SCRIPT:
                p = back[repr(p)]
            exp = ':'.join([e, r] + list(p))
            require(text == exp, 'event string is', text, 'instead of', exp)
            measured.append((e, r, tuple(p)))
    require(len(measured) == len(distinct), 'events', distinct, 'are measured by', runs)
    # a one-to-one assignment of measurements to requested events must exist
    todo = list(distinct)

    def assign(i):
        if i == len(measured):
            return True
        e, r, p = measured[i]
        for k, d in enumerate(todo):
            if d is not None and d[0] == e and tuple(d[2]) == p and r in ref_options(d[1]):
                todo[k] = None
                if assign(i + 1):
                    return True
                todo[k] = d
        return False
    require(assign(0), 'runs', runs, 'do not measure each of', distinct, 'on its registers')
    return len(runs)


def pack_eval(case, ctx):
    p = pool(case['pool'])
    rest = case['n'] - len(case['prefix'])
    mods = [(BENCH, module(BENCH)), (SCRIPT, module(SCRIPT))]
    out = set()
    for suffix in itertools.product(range(len(p)), repeat=rest):
        events = [p[i] for i in list(case['prefix']) + list(suffix)]
        for which, mod in mods:
            ctx.state(which, tuple(events))
            out.add(check_runs(mod, which, events, ctx))
    return 'runs ' + ','.join(map(str, sorted(out)))


# --- events without any register ----------------------------------------------------------------
def odd_cases():
    for which in (BENCH, SCRIPT):
        for reg in ('PMC[3-0]', '[b-a]', 'PMC[1-0]|MBOX[2-1]'):
            for others in ([], [('A', 'PMC0', ())], [('A', 'PMC0', ()), ('B', 'PMC[0-1]', ())]):
                for pos in range(len(others) + 1):
                    ev = list(others)
                    ev.insert(pos, ('X', reg, ()))
                    yield {'which': which, 'events': ev}
        yield {'which': which, 'events': []}
        yield {'which': which, 'events': None}


def odd_eval(case, ctx):
    mod = module(case['which'])
    ctx.step(1)
    if case['events'] is None:
        for d in ('', None):
            require(list(mod.register_options(d)) == [None], 'no register description')
        return 'no description'
    if not case['events']:
        require(mod.build_minimal_runs([]) == [], 'no events need no runs')
        return 'no events'
    try:
        runs = mod.build_minimal_runs([tuple(e) for e in case['events']])
    except (ValueError, SystemExit):
        return 'refused'
    require(False, 'an event without any possible register was scheduled:', runs)


def suites(tier):
    return [
        Suite('expansion', desc_cases(tier), desc_eval,
              bound='all descriptions of up to %d elements out of %d characters and groups, unions '
                    'of up to three alternatives' % (4 if tier == 'quick' else 5,
                                                     len(CHARS + GROUPS))),
        Suite('groups', group_cases(tier), group_eval,
              bound='all groups of up to %d characters' % (6 if tier == 'quick' else 8)),
        Suite('packing', pack_cases(tier), pack_eval,
              bound='all event sequences (quick: triples of 28, quadruples of 9, seven of 4 event '
                    'kinds; thorough: six of 9, nine of 4)'),
        Suite('unschedulable', odd_cases, odd_eval, timeout=20,
              bound='events whose description denotes no register at every position'),
    ]
