"""The deciding step: extract the functions a unit names from /repo's current source, and have Verus
discharge every obligation of the resulting file."""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import coqcheck

V = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(V, 'work')
VEXTRACT = os.path.join(WORK, 'extract/release/vextract')

# messages by which Verus reports an obligation it could not discharge
FAILED = ['postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
          'possible arithmetic underflow/overflow', 'decreases not satisfied', 'possible division by zero',
          'ensures not satisfied', 'requires not satisfied', 'possible bit shift', 'loop ensures not satisfied',
          'could not prove termination', 'index out of bounds', 'unable to prove', 'assert_by', 'cannot prove',
          'loop must have a decreases', 'not satisfied']
GAVE_UP = ['rlimit', 'Resource limit']


def build_extractor():
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(WORK, 'extract'), CARGO_NET_OFFLINE='true')
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(V, 'extract'), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if p.returncode == 0 else p.stdout[-2000:]


def trusted(text):
    """Mechanical scan of the generated file for everything accepted without proof."""
    out = []
    ls = text.split('\n')
    for i, l in enumerate(ls):
        if 'assume_specification' in l:
            m = re.search(r'\[(.*?)\]\s*\(', l)
            out.append('assumed specification of ' + (m.group(1) if m else l.strip()))
        elif re.search(r'\baxiom fn\b', l):
            n = re.search(r'axiom fn (\w+)', l).group(1)
            f = coqcheck.theorems().get(n)
            out.append('axiom %s%s' % (n, ', proved for f32 and f64 in Coq, specs/coq/%s' % f if f else ': ' + coqcheck.ELSEWHERE[n] if n in coqcheck.ELSEWHERE else ''))
        elif 'external_body' in l:
            m = None
            for j in range(i, min(i + 4, len(ls))):
                m = re.search(r'\b(?:fn|struct)\s+(\w+)', ls[j])
                if m:
                    break
            if m:
                owner = None
                for j in range(i, -1, -1):
                    o = re.match(r'impl\b.*?(?:for\s+)?(\w+)(?:<[^{]*>)?\s*\{', ls[j])
                    if o:
                        owner = o.group(1)
                        break
                    if ls[j].startswith('}'):
                        break
                kind = 'opaque type' if 'struct' in m.group(0) else 'external body'
                here = ' '.join(ls[max(0, i - 3):i + 1])
                done = re.search(r'contract discharged in (\w+)', here)
                if done:
                    kind = 'body left out, contract discharged in %s:' % done.group(1)
                    out.append(kind + ' ' + (owner + '::' if owner else '') + m.group(1))
                    continue
                out.append('%s %s' % (kind, (owner + '::' if owner and kind == 'external body' else '') + m.group(1)))
        if re.search(r'\b(assume|admit)\s*\(', l) and not l.strip().startswith('//'):
            out.append('ASSUME at generated line %d: %s' % (i + 1, l.strip()))
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


def run_unit(unit, src='/repo/src', smoke=False, rlimit=None, seed=None):
    """Returns a dict: status proved | failed | undecided, reason, verified, errors, functions, smt_ms, ..."""
    d = os.path.join(WORK, 'prove')
    os.makedirs(d, exist_ok=True)
    gen = os.path.join(d, unit + ('_smoke' if smoke else '') + '.rs')
    if os.path.exists(gen):
        os.remove(gen)
    t0 = time.time()
    env = dict(os.environ)
    if smoke:
        env['VEXTRACT_SMOKE'] = '1'
    p = subprocess.run([VEXTRACT, src, os.path.join(V, 'specs', unit + '.vspec'), gen], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r = {'unit': unit, 'verified': 0, 'errors': 0, 'functions': [], 'smt_ms': 0, 'status': 'undecided', 'failures': [],
         'generated': gen, 'trusted': []}
    if p.returncode != 0:
        r['reason'] = 'not extracted: ' + p.stdout.strip()[-1500:]
        return r
    text = open(gen).read()
    r['functions'] = re.findall(r'^\s*// @begin (\S+)', text, re.M)
    r['trusted'] = trusted(text)
    cmd = ['verus', '--triggers-mode', 'silent', '--num-threads', '8', '--output-json', '--time-expanded']
    cmd += ['--rlimit', str(rlimit or (100 if smoke else 40))]
    for o in re.findall(r'^// solver-option (\S+)', text, re.M):
        cmd += ['--smt-option', o]
    if smoke:
        cmd += ['--multiple-errors', '200']
    if seed is not None:
        cmd += ['--smt-option', 'smt.random_seed=%d' % seed, '--smt-option', 'sat.random_seed=%d' % seed]
    cmd += [gen]
    r['cmd'] = ' '.join(cmd).replace(V, '/verif')
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=420)
    except subprocess.TimeoutExpired:
        r['reason'] = 'verus ran out of time'
        return r
    r['wall_s'] = round(time.time() - t0, 2)
    try:
        j = json.loads(p.stdout)
        res = j['verification-results']
    except (ValueError, KeyError):
        r['reason'] = 'verus does not accept the extracted text: ' + (p.stderr or p.stdout)[-2500:]
        return r
    r['verified'] = res.get('verified', 0)
    r['errors'] = res.get('errors', 0)
    smt = j.get('times-ms', {}).get('smt', {})
    r['smt_ms'] = smt.get('smt-run', 0)
    slow = []
    for m in smt.get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            slow.append((f.get('rlimit', 0), f['function'], f.get('time', 0)))
    slow.sort(reverse=True)
    r['hardest'] = ['%s %d ms rlimit %d' % (f, t, l) for l, f, t in slow[:3]]
    r['output'] = p.stderr
    if res.get('success') and r['errors'] == 0 and not res.get('encountered-vir-error') and r['verified'] > 0:
        r['status'] = 'proved'
        return r
    # every reported error, with the function of the real source it belongs to
    ranges = []
    src_lines = text.split('\n')
    for i, l in enumerate(text.split('\n'), 1):
        m = re.match(r'\s*// @(begin|end) (\S+)', l)
        if m and m.group(1) == 'begin':
            ranges.append([i, 10**9, m.group(2), re.findall(r'@(C\d\d)', l)])
        elif m:
            ranges[-1][1] = i
    other = []
    for b in re.split(r'\n(?=error)', '\n' + p.stderr):
        b = b.strip()
        if not b.startswith('error'):
            continue
        head = b.split('\n')[0]
        if 'aborting due to' in head:
            continue
        lines = [int(x) for x in re.findall(r'-->\s+\S+?:(\d+):', b)]
        fn, tags = next(((n, t) for ln in lines for a, z, n, t in ranges if a <= ln <= z), (None, []))
        # the clause that fails may name the properties that rest on it
        own = []
        for ln in re.findall(r'^\s*(\d+)\s+\|', b, re.M):
            t = src_lines[int(ln) - 1] if int(ln) <= len(src_lines) else ''
            if '// @C' in t:
                own += re.findall(r'@(C\d\d)', t)
        # a lemma of the specification can only fail through a contract that changed
        if any(g in head for g in GAVE_UP):
            other.append('solver gave up: ' + b[:300])
        elif any(g in head for g in FAILED):
            r['failures'].append({'function': fn or 'specification lemma', 'message': head, 'detail': b[:1500], 'properties': sorted(set(own or tags))})
        else:
            other.append(b[:600])
    if r['failures'] and not any(not o.startswith('solver gave up') for o in other):
        r['status'] = 'failed'
        r['reason'] = '; '.join('%s: %s' % (f['function'], f['message']) for f in r['failures'])
    else:
        r['reason'] = 'verus: ' + ('\n'.join(other) or p.stderr[-1500:])
    return r


def decide(unit):
    """A discharged proof is a proof under any solver seed: retry where the solver may only have been unlucky."""
    if unit.startswith('kani '):
        return run_kani(unit.split()[1])
    t0 = time.time()
    r = run_unit(unit)
    first = r
    for seed in (7, 23):
        if time.time() - t0 > 200:
            break
        if r['status'] == 'proved' or r.get('reason', '').startswith(('not extracted', 'verus does not accept')):
            break
        if r['status'] == 'undecided' and 'solver gave up' not in r.get('reason', ''):
            break
        again = run_unit(unit, seed=seed)
        if again['status'] == 'proved':
            return again
    return first


# ---- Kani: contracts on code without loops, checked bit-precisely over the full domain of every argument
KANI = os.path.join(V, 'kani')


def kani_env():
    e = dict(os.environ)
    e['RUSTFLAGS'] = '--cfg verif_hooks -Awarnings'
    e['AUTO_PALETTE_VERIF_HOOKS'] = os.path.join(KANI, 'hooks/root.rs')
    e['CARGO_TARGET_DIR'] = os.path.join(WORK, 'kani')
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def run_kani(group, only=None, extra=(), timeout=500):
    """Every harness of one module of /verif/kani; same dict as run_unit."""
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, 'kani_%s.json' % group)
    if os.path.exists(out):
        os.remove(out)
    t0 = time.time()
    cmd = ['cargo', 'kani', '-Z', 'function-contracts', '-Z', 'stubbing', '-Z', 'unstable-options', '-j', '8', '--output-format=terse',
           '--harness-timeout', '400', '--export-json', out, '--harness', only or group] + list(extra)
    r = {'unit': 'kani ' + group, 'verified': 0, 'errors': 0, 'functions': [], 'smt_ms': 0, 'status': 'undecided', 'failures': [],
         'trusted': ['Kani 0.68.0, CBMC 6.11.0, CaDiCaL: bit-precise semantics of the compiled MIR'], 'cmd': 'cd kani && ' + ' '.join(cmd).replace(V, '/verif'), 'back_end': 'Kani / CBMC', 'output': ''}
    if group == 'c16':
        r['trusted'] += ['stub cbrt: NaN only for NaN, 0 <= cbrt x <= 1 + x for x >= 0', 'stub powf: for x >= 0 and y > 0 not negative, at most 1 for x <= 1', 'stub powi: NaN only for NaN']
    try:
        p = subprocess.run(cmd, cwd=KANI, env=kani_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        r['reason'] = 'kani ran out of time'
        return r
    r['wall_s'] = round(time.time() - t0, 2)
    r['output'] = p.stdout
    try:
        j = json.load(open(out))
        res = j['verification_results']['results']
    except (OSError, ValueError, KeyError):
        r['reason'] = 'kani does not accept the tree: ' + p.stdout[-2500:]
        return r
    want = len(re.findall(r'Checking harness', p.stdout))
    other = []
    for h in res:
        r['functions'].append(h['harness_id'])
        r['smt_ms'] += h.get('duration_ms', 0)
        if h['status'] == 'Success':
            r['verified'] += 1
            continue
        r['errors'] += 1
        bad = [c for c in h.get('checks', []) if c['status'] in ('Failure', 'Undetermined')]
        fails = [c for c in bad if c['status'] == 'Failure']
        if not fails or any(c['category'] in ('unwind', 'unsupported_construct') for c in fails):
            other.append('%s: %s' % (h['harness_id'], '; '.join('%s %s' % (c['category'], c['description']) for c in bad)[:300] or h['status']))
        else:
            r['failures'].append({'function': h['harness_id'], 'message': '; '.join(c['description'] for c in fails)[:400],
                                  'detail': json.dumps(fails)[:1500], 'properties': []})
    r['hardest'] = ['%s %d ms' % (h['harness_id'], h.get('duration_ms', 0)) for h in sorted(res, key=lambda h: -h.get('duration_ms', 0))[:3]]
    if r['errors'] == 0 and r['verified'] > 0 and r['verified'] == want:
        r['status'] = 'proved'
    elif r['failures']:
        r['status'] = 'failed'
        r['reason'] = '; '.join('%s: %s' % (f['function'], f['message']) for f in r['failures'])
    else:
        r['reason'] = 'kani: %d of %d harnesses; %s' % (r['verified'], want, '\n'.join(other))
    return r
