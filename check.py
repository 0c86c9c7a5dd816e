#!/usr/bin/env python3
"""check.py PROP [quick|thorough]   decide one property on /repo's current tree
   check.py --case P S I            re-run one case of the replay harness
   check.py --setup                 build everything once
   check.py --smoke                 reachability: every contract's precondition and loop can be reached"""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
WORK = os.path.join(V, 'work')
sys.path.insert(0, V)
import coqcheck
import prove
from plan import PLAN, SEARCH_S

BUDGET_S = 820   # a quick check answers within 900 s whatever the tree


def harness_env():
    e = dict(os.environ)
    e['RUSTFLAGS'] = '--cfg verif_hooks -Awarnings'
    e['AUTO_PALETTE_VERIF_HOOKS'] = os.path.join(V, 'harness/hooks/root.rs')
    e['CARGO_TARGET_DIR'] = os.path.join(WORK, 'harness')
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def build_harness():
    """Build the replay harness against /repo's working tree; returns (binary, error)."""
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(V, 'harness'),
                       env=harness_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = os.path.join(WORK, 'harness/release/vharness')
    return (b, None) if p.returncode == 0 else (None, p.stdout[-4000:])


def run_harness(binary, prop, seed, tier, replay, limit=None):
    rep = os.path.join(WORK, prop + '.report.json')
    if os.path.exists(rep):
        os.remove(rep)
    try:
        p = subprocess.run([binary, 'run', prop, str(seed), tier, rep, replay], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return 'ok', 'stopped after %d s' % limit, {}
    out = p.stdout.strip()
    r = json.load(open(rep)) if os.path.exists(rep) else {}
    if p.returncode == 0:
        return 'ok', out, r
    if p.returncode == 1 and out.startswith('FAIL'):
        return 'fail', out, r
    # the process itself died (abort, stack overflow, memory): the code under test did that
    if p.returncode < 0:
        json.dump({'property': prop, 'seed': seed, 'failure': 'the process running the cases was killed by signal %d' % -p.returncode,
                   'rerun': 'VERIF_SEED=%d python3 /verif/check.py %s' % (seed, prop)}, open(replay, 'w'))
        return 'fail', 'killed by signal %d' % -p.returncode, r
    return 'error', out, r


# loops behind a rejection that the contract of the same function demands
UNREACHABLE = {'u_cut': 2}


def smoke_unit(u):
    r = prove.run_unit(u, smoke=True)
    lines = open(r['generated']).read().split('\n') if os.path.exists(r['generated']) else []
    marks = [i + 1 for i, l in enumerate(lines) if '/*smoke*/' in l]
    at = lambda f: int(f['detail'].split('-->')[1].split()[0].split(':')[1])
    got = {at(f) for f in r['failures'] if '/*smoke*/' in f['detail']}
    gave_up = sum('Resource limit' in f['detail'] or 'Resource limit' in f.get('message', '') for f in r['failures'])
    missing = len(set(marks) - got)
    # an entry counts as unreachable only if the solver refuted it, not if it gave up on its function
    if not marks or not got or (missing > UNREACHABLE.get(u, 0) and not gave_up):
        return '%s: %d of %d entries reachable %s' % (u, len(got), len(marks), r.get('reason', '')[:300] if not got else '')


def smoke(units):
    """Each `assert(false)` put at a function or loop entry must fail; returns the names of those that do not."""
    with ThreadPoolExecutor(3) as ex:
        return [x for x in ex.map(smoke_unit, units) if x]


def main():
    os.makedirs(WORK, exist_ok=True)
    for d in ('evidence', 'replay'):
        os.makedirs(os.path.join(V, d), exist_ok=True)
    if sys.argv[1] == '--case':
        b, err = build_harness()
        if not b:
            print(err)
            return 1
        return subprocess.run([b, 'case'] + sys.argv[2:5]).returncode
    if sys.argv[1] == '--setup':
        e1 = prove.build_extractor()
        b, err = build_harness()
        print(e1 or 'extractor built')
        print(err or 'harness built')
        return 0 if b and not e1 else 1
    if sys.argv[1] == '--smoke':
        prove.build_extractor()
        bad = smoke(sys.argv[2:] or sorted({u.lstrip('+') for p in PLAN.values() for u in p[0] if not u.startswith('kani ')}))
        print('\n'.join(bad) or 'every entry reachable')
        return 1 if bad else 0
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = sys.argv[2] if len(sys.argv) > 2 else (os.environ.get('VERIF_TIER', 'quick') or 'quick')
    t0 = time.time()
    replay = os.path.join(V, 'replay', '%s.json' % prop)
    if os.path.exists(replay):
        os.remove(replay)
    units, proved_text, bounded_text = PLAN.get(prop, ([], '', ''))

    # 1. the obligations
    results = []
    if units:
        err = prove.build_extractor()
        names = [u.lstrip('+') for u in units]
        if err:
            results = [{'unit': u, 'status': 'undecided', 'reason': 'extractor: ' + err, 'verified': 0, 'errors': 0, 'functions': [],
                        'smt_ms': 0, 'trusted': [], 'failures': []} for u in names]
        else:
            with ThreadPoolExecutor(max_workers=3) as ex:
                results = list(ex.map(prove.decide, names))
    # an obligation only other properties rest on leaves this one unproved, it does not refute it
    for r in results:
        if r['status'] == 'failed' and not any(prop in f['properties'] or not f['properties'] for f in r['failures']):
            r['status'] = 'undecided'
            r['reason'] = 'obligations of other properties failed: ' + r['reason']
        if r['status'] == 'failed' and '+' + r['unit'] in units:
            r['status'] = 'undecided'
            r['reason'] = 'contracts this property builds on failed: ' + r['reason']
    units = [u.lstrip('+') for u in units]
    failed = [r for r in results if r['status'] == 'failed']
    undecided = [r for r in results if r['status'] == 'undecided']
    for r in results:
        print('%s: %s, %d obligations discharged, %d not%s' % (r['unit'], r['status'], r['verified'], r['errors'],
              '' if r['status'] == 'proved' else '\n  NOT-PROVED ' + r.get('reason', '')[:1500]))
    reach = smoke([u for u in units if not u.startswith('kani ')]) if tier == 'thorough' and units and not failed and not undecided else []
    for x in reach:
        print('UNREACHABLE ' + x)
    coq = None
    if tier == 'thorough' and any('axiom ' in t for r in results for t in r['trusted']):
        th, ax, errs = coqcheck.run()
        coq = 'not proved: ' + '; '.join(errs) if errs else '%d theorems proved again in Coq, which assumes %s' % (len(th), ', '.join(ax))
        print('floating-point axioms: ' + coq)
    if tier == 'thorough' and not failed and not undecided:
        for u in [u for u in units if not u.startswith('kani ')]:
            for s in (7, 23):
                r = prove.run_unit(u, seed=s)
                print('%s with solver seed %d: %s' % (u, s, r['status']))

    # 2. the same contracts executed on the real code: the failing input of an obligation, and the bounded stand-in
    b, err = build_harness()
    deep = False
    if b:
        st, out, rep = run_harness(b, prop, seed, tier, replay, limit=max(60, BUDGET_S - (time.time() - t0)) if tier == 'quick' else None)
        if st == 'ok' and (failed or undecided) and tier != 'thorough':
            deep = True
            limit = max(20, min(SEARCH_S if failed else SEARCH_S / 2, BUDGET_S - (time.time() - t0)))
            st, out, rep2 = run_harness(b, prop, seed + 1000, 'thorough', replay, limit=limit)
            rep = rep2 or rep
    else:
        st, out, rep = 'nobuild', 'BOUNDED PART NOT RUN, the replay harness does not build against this tree:\n' + err, {}
    print(out)
    if st == 'error':
        print('the replay harness gave no answer')

    cov = {'evaluations': rep.get('evaluations', 0), 'distinct_nontrivial': rep.get('distinct_nontrivial', 0),
           'rule': rep.get('rule', ''), 'samples': rep.get('samples', []), 'bound': rep.get('bound', '')}
    level = 'exploration'
    assumptions = []
    verus = [u for u in units if not u.startswith('kani ')]
    if units:
        level = 'proof'
        cov.update({
            'obligations': sum(r['verified'] + r['errors'] for r in results),
            'discharged': sum(r['verified'] for r in results),
            'checker_cmd': '; '.join(r.get('cmd', 'vextract ' + r['unit']) for r in results),
            'trusted_base': sorted({t for r in results for t in r['trusted']}) + (['verus 0.2026.09.13.671956e, Z3, vstd', 'vextract (desugaring described in DESIGN.md)'] if verus else []),
            'units': [{'unit': r['unit'], 'status': r['status'], 'obligations_discharged': r['verified'], 'errors': r['errors'],
                       'functions_and_types_under_contract': r['functions'], 'smt_ms': r['smt_ms'], 'wall_s': r.get('wall_s'),
                       'back_end': r.get('back_end', 'Verus / Z3'), 'hardest': r.get('hardest', []), 'reason': r.get('reason', '')} for r in results],
            'proved': proved_text if not (failed or undecided) else 'not all of: ' + proved_text,
            'bounded_only': bounded_text,
            'bounded_stand_in': 'the executed contracts (evaluations, rule, samples) are a bounded check and count for no obligation',
        })
        if coq:
            cov['axioms_in_coq'] = coq
        if verus:
            assumptions = ['floating-point numbers are opaque values with an IEEE comparison; arithmetic laws used are the listed axioms; those with a Coq theorem are proved for IEEE 754 binary32 and binary64, that f32 and f64 follow it is assumed',
                           'machine integers are exact (overflow is an obligation); 2*n fits in usize for data already in memory',
                           'generic parameters are opaque types with the contracts listed in the unit']
        else:
            assumptions = ['floating point and machine integers are bit-precise; the harnesses contain no loop, so no bound applies',
                           'the target is x86_64 (64-bit usize)']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if (st == 'fail' or failed) else 0}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    if st == 'fail':
        if failed and os.path.exists(replay):
            try:
                d = json.load(open(replay))
                d['failed_obligations'] = [f for r in failed for f in r['failures']][:5]
                json.dump(d, open(replay, 'w'), indent=1)
            except ValueError:
                pass
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if failed:
        json.dump({'property': prop, 'failed_obligations': [f for r in failed for f in r['failures']],
                   'verifier_output': '\n'.join(r['output'][-6000:] for r in failed), 'checker_cmd': [r['cmd'] for r in failed],
                   'searched': 'quick and thorough tier of the replay harness found no failing input' if deep else 'no failing input found'},
                  open(replay, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        return 1
    return 0


sys.exit(main())
