"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, subprocess, os
from plan import PLAN
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    c = {'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i}
    if i in PLAN:
        u, pr, bo = PLAN[i]
        if u[0].startswith('kani '):
            c['technique'] = 'contract-based deductive verification: function contracts on the real code compiled from /repo, discharged by Kani/CBMC over the full domain, no loops and no bound (%s)' % ', '.join(u)
        else:
            c['technique'] = 'contract-based deductive verification: contracts on the functions extracted from /repo/src on every run, discharged by Verus (%s)' % ', '.join(u)
        c['level'] = 'proof'
        c['level_note'] = 'proved: ' + pr + ('; bounded only: ' + bo if bo else '') + '. The executed contracts find the failing input of a failed obligation; they count for no obligation.'
    else:
        c['technique'] = 'bounded stand-in: the contract executed on the real code'
        c['level'] = 'exploration'
        c['level_note'] = 'bounded, not proved'
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'hooks': {'guard': 'cfg(verif_hooks)', 'enable': 'RUSTFLAGS="--cfg verif_hooks" AUTO_PALETTE_VERIF_HOOKS=/verif/harness/hooks/root.rs', 'source_commits': ['c986c04']},
     'checks': checks, 'not_applicable': []}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
