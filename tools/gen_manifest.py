#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if 'verification hook' in l]
m = dict(version=1, setup_cmd='sh setup.sh',
    hooks=dict(guard='cfg(fizyr_rpc_verif)', enable='RUSTFLAGS="--cfg fizyr_rpc_verif" (set by check.py when it builds the search harness)', source_commits=hooks),
    checks=[dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --thorough' % p,
        technique=PROPS[p].get('technique', 'contract-based deductive verification (Verus) of the functions extracted from the sources; counterexample search on the compiled code'),
        level=PROPS[p].get('level', 'proof'), level_note=PROPS[p]['note']) for p in ids if p in PROPS],
    not_applicable=[dict(property=p, reason=NOT_APPLICABLE[p]) for p in ids if p not in PROPS])
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
