"""Command line: run the check of one property."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', choices=['quick', 'thorough'], default=None)
    ap.add_argument('--replay')
    ap.add_argument('--suite', action='append')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--verbose', '-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    prop = a.property.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = a.budget or (600 if tier == 'quick' else 7200)
    evdir = os.path.join(core.VERIF, 'evidence')
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    sys.path.insert(0, core.REPO)
    violations = []

    def report(suite, case, msg):
        path = os.path.join(rdir, '{}-{}.json'.format(prop, len(violations) + 1))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'suite': suite, 'tier': tier, 'case': case, 'message': msg,
                       'replay': 'bin/check {} --tier {} --replay {}'.format(prop, tier, os.path.relpath(path, core.VERIF))},
                      f, indent=1, default=str)
        violations.append((suite, case, msg))
        print('VIOLATION property={} replay={}'.format(prop, path))
        print('   suite={} case={}'.format(suite, json.dumps(case, default=str)[:600]))
        print('   {}'.format(msg[:1500]))
        sys.stdout.flush()

    try:
        mod = importlib.import_module('mc.checks.' + prop.lower())
        import kerncraft
        got = os.path.dirname(os.path.dirname(os.path.abspath(kerncraft.__file__)))
        assert os.path.realpath(got) == os.path.realpath(core.REPO), 'kerncraft imported from ' + got
        suites = mod.suites(tier)
    except Exception:
        # The code under test cannot even be imported / set up: nothing of the property is delivered.
        report('setup', None, 'the code under test cannot be loaded: ' + traceback.format_exc()[-1200:])
        suites = []
        mod = None

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        suite = [s for s in suites if s.name == r['suite']][0]
        status, msg, ctx = core.run_case(suite, r['case'])
        print(status, msg)
        print('observed:', ctx.obs)
        if status == 'violation':
            print('VIOLATION property={} replay={}'.format(prop, a.replay))
        sys.exit(1 if status == 'violation' else 0)

    known = core.Known(prop)
    deadline = t0 + budget
    total = core.Agg()
    per = []
    capped_any = False
    samples = []
    if a.suite:
        suites = [s for s in suites if s.name in a.suite]
    for s in suites:
        ts = time.time()
        agg, capped = core.run_suite(s, deadline, known, a.jobs)
        capped_any = capped_any or capped
        per.append({'suite': s.name, 'bound': s.bound, 'evaluations': agg.evaluations,
                    'states': len(agg.states), 'transitions': agg.transitions,
                    'executions_compared': agg.traces, 'distinct_outcomes': len(agg.obs),
                    'out_of_domain': agg.skips, 'capped': capped,
                    'wall_s': round(time.time() - ts, 1), **agg.extra})
        if agg.skip_reasons:
            per[-1]['skipped'] = dict(sorted(agg.skip_reasons.items(), key=lambda x: -x[1])[:4])
        for idx, case, st, obs in agg.samples[:3]:
            samples.append({'suite': s.name, 'index': idx,
                            'case': json.loads(json.dumps(case, default=str))
                            if len(json.dumps(case, default=str)) < 800 else json.dumps(case, default=str)[:800],
                            'result': st, 'observed': obs})
        if a.verbose:
            print(per[-1])
        for e in [x for x in agg.samples if x[2] == 'known']:
            print('KNOWN-FINDING: property={} suite={} case={} {}'.format(
                prop, s.name, json.dumps(e[1], default=str)[:300], e[3][:200].replace('\n', ' ')))
        for idx, case, msg in agg.violations[:3]:
            report(s.name, case, msg)
        total.merge(agg)
        if len(violations) >= 6:
            break
    level = 'model_checking'
    coverage = {
        'states': len(total.states), 'transitions': total.transitions,
        'traces_validated_against_impl': total.traces,
        'evaluations': total.evaluations, 'distinct_nontrivial': len(total.obs),
        'rule': 'every case of every suite is enumerated (see bounds); non-trivial = distinct observed outcome '
                'of the implementation',
        'samples': samples[:12] or [{'note': 'none'}],
        'exhaustive': not capped_any and not violations,
        'suites': per,
        'explanation': 'transitions are operations executed on the real implementation; each execution is '
                       'compared step by step with a reference model, so every explored trace is a conformance '
                       'check against the code in ' + core.REPO,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) if mod else [],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    txt = json.dumps(ev, indent=1, default=str)
    if len(txt) > 60000:
        coverage['samples'] = [{k: (v if k != 'case' else str(v)[:200]) for k, v in s.items()} for s in samples[:4]]
        txt = json.dumps(ev, indent=1, default=str)
    tmp = os.path.join(evdir, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        f.write(txt + '\n')
    os.replace(tmp, os.path.join(evdir, prop + '.json'))
    print('{} {}: {} suites, {} cases, {} states, {} transitions, {} outcomes, {} violations, {:.1f}s{}'.format(
        prop, tier, len(per), total.evaluations, len(total.states), total.transitions, len(total.obs),
        len(violations), time.time() - t0, ' (capped)' if capped_any else ''))
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
