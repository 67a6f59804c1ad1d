"""Bounded-exhaustive exploration framework.

A check module defines PROPERTY and suites(tier) -> [Suite]. A suite enumerates a finite space of cases
(inputs, operation histories, schedules, crash points); `evaluate(case, ctx)` runs the real code on one
case and compares with the oracle.  The runner covers every case of every suite (or says it was capped).
"""
import contextlib
import hashlib
import io
import itertools
import json
import mmap
import multiprocessing
import os
import pickle
import re
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """Raised by an oracle: the property does not hold for the current case."""


class Skip(Exception):
    """The case cannot be judged (e.g. outside the quantified domain)."""


class Hang(BaseException):
    pass


def require(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


def h64(obj):
    if not isinstance(obj, bytes):
        obj = (obj if isinstance(obj, str) else repr(obj)).encode()
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'big')


class Ctx:
    """Per-case recorder."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.obs = None
        self.extra = {}

    def state(self, *key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """One complete execution of the implementation was compared with the oracle."""
        self.traces += n

    def observe(self, o):
        self.obs = o

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


class Suite:
    def __init__(self, name, cases, evaluate, timeout=120, chunk=16, bound='', nontrivial=None):
        """cases: callable returning an iterator over JSON-able cases, simplest first."""
        self.name, self.cases, self.evaluate = name, cases, evaluate
        self.timeout, self.chunk, self.bound = timeout, chunk, bound
        self.nontrivial = nontrivial


@contextlib.contextmanager
def quiet():
    """Silence stdout/stderr at Python level."""
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


@contextlib.contextmanager
def scratch(prefix='kcmc-'):
    d = tempfile.mkdtemp(prefix=prefix)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _alarm(sig, frm):
    raise Hang()


def run_case(suite, case, timeout=None):
    """Evaluate one case. Returns (status, message, ctx); status ok|skip|violation."""
    ctx = Ctx()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout or suite.timeout, 1.0)
    try:
        try:
            with quiet():
                r = suite.evaluate(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if r is not None and ctx.obs is None:
            ctx.obs = r
        status, msg = 'ok', None
    except Violation as e:
        status, msg = 'violation', str(e)
    except Skip as e:
        status, msg = 'skip', str(e)
    except Hang:
        status, msg = 'violation', 'no answer within {} s (endless loop or deadlock)'.format(
            timeout or suite.timeout)
    except MemoryError:
        status, msg = 'skip', 'memory'
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.format_exc().strip().split('\n')
        status, msg = 'violation', 'unexpected {}: {} | {}'.format(
            type(e).__name__, str(e)[:300], ' / '.join(l.strip() for l in tb[-7:-1])[:900])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return status, msg, ctx


class Agg:
    def __init__(self):
        self.evaluations = self.skips = self.transitions = self.traces = 0
        self.states = set()
        self.obs = set()
        self.violations = []
        self.samples = []
        self.extra = {}
        self.skip_reasons = {}

    def add(self, suite, idx, case, status, msg, ctx, max_viol):
        self.evaluations += 1
        self.transitions += ctx.transitions
        self.traces += ctx.traces
        self.states |= ctx.states
        for k, v in ctx.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        if status == 'skip':
            self.skips += 1
            self.skip_reasons[msg] = self.skip_reasons.get(msg, 0) + 1
        elif status == 'violation':
            if len(self.violations) < max_viol:
                self.violations.append((idx, case, msg))
        else:
            if ctx.traces == 0:
                self.traces += 1
            if ctx.transitions == 0:
                self.transitions += 1
            if not ctx.states:
                self.states.add(h64((suite.name, json.dumps(case, default=str))))
            if ctx.obs is not None:
                self.obs.add(h64(ctx.obs))
        if idx < 2 or (idx % 997 == 5 and len(self.samples) < 4):
            self.samples.append((idx, case, status, (str(ctx.obs) if ctx.obs is not None else '')[:300]))

    def merge(self, o):
        self.evaluations += o.evaluations
        self.skips += o.skips
        self.transitions += o.transitions
        self.traces += o.traces
        self.states |= o.states
        self.obs |= o.obs
        self.violations += o.violations
        self.samples += o.samples
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        for k, v in o.skip_reasons.items():
            self.skip_reasons[k] = self.skip_reasons.get(k, 0) + v


MAX_VIOL = 6


def _worker(suite, wid, nwork, next_chunk, stop, board, out_path, deadline, max_viol, known):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    agg = Agg()
    capped = False
    it = iter(suite.cases())
    pos = 0
    exhausted = False
    while not exhausted:
        if stop.value:
            break
        if time.time() > deadline:
            capped = True
            break
        with next_chunk.get_lock():
            k = next_chunk.value
            next_chunk.value += 1
        start = k * suite.chunk
        # advance
        if start > pos:
            n = sum(1 for _ in itertools.islice(it, start - pos))
            pos += n
            if pos < start:
                break
        for case in itertools.islice(it, suite.chunk):
            if time.time() > deadline:
                capped = True
                break
            struct.pack_into('q', board, 8 * wid, pos)
            status, msg, ctx = run_case(suite, case)
            if status == 'violation' and known(suite.name, case, msg):
                status = 'known'
                agg.extra['known_findings'] = agg.extra.get('known_findings', 0) + 1
                agg.samples.append((pos, case, 'known', msg[:300]))
                agg.evaluations += 1
            else:
                agg.add(suite, pos, case, status, msg, ctx, max_viol)
            pos += 1
            if status == 'violation' and len(agg.violations) >= max_viol:
                stop.value = 1
                break
        else:
            if pos < start + suite.chunk:
                exhausted = True
            continue
        break
    with open(out_path, 'wb') as f:
        pickle.dump((agg, capped), f)
    os._exit(0)


def nproc():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, min(8, n))


def run_suite(suite, deadline, known=lambda s, c, m: False, jobs=None, max_viol=MAX_VIOL):
    jobs = jobs or nproc()
    agg = Agg()
    capped = False
    ctxm = multiprocessing.get_context('fork')
    next_chunk = ctxm.Value('q', 0)
    stop = ctxm.Value('b', 0)
    board = mmap.mmap(-1, 8 * jobs)
    tmp = tempfile.mkdtemp(prefix='kcmc-run-')
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        pids = {}
        for w in range(jobs):
            struct.pack_into('q', board, 8 * w, -1)
            pid = os.fork()
            if pid == 0:
                try:
                    _worker(suite, w, jobs, next_chunk, stop, board,
                            os.path.join(tmp, str(w)), deadline, max_viol, known)
                except BaseException:
                    with open(os.path.join(tmp, '%d.err' % w), 'w') as f:
                        traceback.print_exc(file=f)
                finally:
                    os._exit(3)
            pids[pid] = w
        while pids:
            pid, st = os.wait()
            if pid not in pids:
                continue
            w = pids.pop(pid)
            p = os.path.join(tmp, str(w))
            if os.path.exists(p) and st == 0:
                with open(p, 'rb') as f:
                    a, c = pickle.load(f)
                agg.merge(a)
                capped = capped or c
                continue
            err = os.path.join(tmp, '%d.err' % w)
            if os.path.exists(err):
                with open(err) as f:
                    raise RuntimeError('harness error in suite {}:\n{}'.format(suite.name, f.read()))
            # died: find culprit case, re-run it alone to confirm
            idx = struct.unpack_from('q', board, 8 * w)[0]
            case = next(itertools.islice(suite.cases(), idx, None), None) if idx >= 0 else None
            if case is not None and _dies_again(suite, case):
                agg.violations.append((idx, case, 'the process running the case died (status {})'.format(st)))
            else:
                capped = True
                agg.skip_reasons['worker lost'] = agg.skip_reasons.get('worker lost', 0) + 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    agg.violations.sort(key=lambda v: v[0])
    agg.samples.sort(key=lambda v: v[0])
    return agg, capped


def _dies_again(suite, case):
    pid = os.fork()
    if pid == 0:
        try:
            run_case(suite, case)
        finally:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    return st != 0


# ---------------------------------------------------------------- known findings
class Known:
    """Entries of /verif/KNOWN_FINDINGS.jsonl. Only {"kind":"known",...} entries suppress, and only for the
    exact suite and case they name."""

    def __init__(self, prop):
        self.entries = []
        p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
        if os.path.exists(p):
            with open(p) as f:
                for line in f:
                    line = line.strip()
                    if not line or line.startswith('#') or line.startswith('fixed:'):
                        continue
                    d = json.loads(line)
                    if d.get('kind') == 'known' and d['property'] == prop:
                        self.entries.append(d)

    def __call__(self, suite, case, msg):
        c = json.dumps(case, sort_keys=True, default=str)
        for e in self.entries:
            if e['suite'] == suite and json.dumps(e['case'], sort_keys=True) == c and \
                    re.search(e.get('match', ''), msg or '', re.S):
                return True
        return False
