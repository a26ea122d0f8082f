#!/usr/bin/env python3
"""Development tool: run the check of each planted bug's property against a scratch copy with the bug."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/trybugs'
os.makedirs(W, exist_ok=True)
if not os.path.exists(W + '/repo'): subprocess.run(['cp', '-a', '/repo', W + '/repo'], check=True)
only = sys.argv[1:]
for b in sorted(os.listdir(HERE + '/seeded')):
    if only and not any(o in b for o in only): continue
    d = os.path.join(HERE, 'seeded', b)
    prop = json.load(open(d + '/meta.json'))['property']
    subprocess.run('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git apply %s/patch.diff' % d, shell=True, cwd=W + '/repo', check=True)
    env = dict(os.environ, VERIF_REPO=W + '/repo', VERIF_BUILD=W + '/build', VERIF_EVIDENCE=W + '/evidence', VERIF_SEED='1')
    r = subprocess.run(['python3', HERE + '/check.py', prop], env=env, capture_output=True, text=True)
    lines = r.stdout.strip().splitlines()
    print('%-28s exit %d  %s' % (b, r.returncode, lines[-1] if lines else r.stderr[-300:]))
    res = os.path.join(HERE, 'tools', 'seed-results.json')
    known = json.load(open(res)) if os.path.exists(res) else {}
    known[b] = dict(exit=r.returncode, obligations=[' '.join(l.split(': ', 1)[1].split())[:150] for l in lines if l.startswith('failed obligation: ')][:2],
        found=bool(lines) and lines[-1].startswith('VIOLATION') and not lines[-1].endswith('no-failing-input-found'))
    json.dump({k: known[k] for k in sorted(known) if os.path.exists(HERE + '/seeded/' + k)}, open(res, 'w'), indent=1)
    for l in lines[:-2]: print('      ' + l[:170])
    sys.stdout.flush()
