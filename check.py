#!/usr/bin/env python3
"""Decide one property on /repo's current working tree:  check.py <property> [--thorough]

1. Verus discharges the contracts on the code extracted from /repo's sources (verus/vrun.py).
2. A search drives the same, compiled code for an execution that contradicts the property (hunt/).
   It supplies the failing input of a violation, and stands in, labelled bounded, for functions the verifier could not take.
Exit 0: every obligation of the property is discharged and no counterexample was found.  Exit 1: VIOLATION line.
"""
import json, os, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'verus'))
sys.dont_write_bytecode = True
import vrun, randfix, stdproofs
from props import PROPS

BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'

def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        return -1, (x.stdout or b'').decode('utf8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'

class Hunt:
    """Builds the search harnesses against the code in REPO and runs them."""
    def __init__(self, crates, drivers):
        self.crates = crates; self.extra = sorted(set(drivers) & {'interface', 'listener', 'introspect', 'macros'}); self.bin = {}; self.notes = {}; self.wall = {}
        self.threads = [threading.Thread(target=self.build, args=(c,)) for c in crates]
        for t in self.threads: t.start()
    def build(self, crate):
        t = time.time()
        src = os.path.join(HERE, crate)
        target = os.path.join(BUILD, crate)
        manifest = os.path.join(src, 'Cargo.toml')
        cmd = ['cargo', 'build', '--offline', '--manifest-path', manifest, '--target-dir', target]
        if REPO != '/repo':     # development only: the same harness against another tree
            import shutil
            alt = os.path.join(BUILD, crate + '-src')
            shutil.rmtree(alt, ignore_errors=True); shutil.copytree(src, alt, ignore=shutil.ignore_patterns('target'))
            for root, _, files in os.walk(alt):
                for f in files:
                    if f == 'Cargo.toml' or f == 'main.rs':
                        p = os.path.join(root, f); x = open(p).read(); open(p, 'w').write(x.replace('"/repo', '"' + REPO))
            cmd[4] = os.path.join(alt, 'Cargo.toml')
        last = ''
        for features, cfg in ((['hooks', 'hook-ids'], ' --cfg fizyr_rpc_verif'), ([], '')):
            every = features + self.extra
            c = cmd + (['--features', ','.join(every)] if every else [])
            rc, out, err = sh(c, env={'RUSTFLAGS': '-Awarnings' + cfg, 'CARGO_NET_OFFLINE': 'true', 'CARGO_INCREMENTAL': '0'}, timeout=600)
            if rc == 0:
                self.bin[crate] = (os.path.join(target, 'debug', crate), bool(features))
                break
            last = err[-1500:]
        else: self.notes[crate] = last
        self.wall[crate] = time.time() - t
    def wait(self):
        for t in self.threads: t.join()
    def run(self, crate, driver, prop, secs, procs, seed, needs_hooks):
        if crate not in self.bin: return dict(error='the search harness does not build: ' + self.notes.get(crate, ''))
        path, hooks = self.bin[crate]
        if needs_hooks and not hooks: return dict(error='the search harness builds only without the hooks')
        scratch = os.path.join(BUILD, 'scratch'); os.makedirs(scratch, exist_ok=True)
        ps = []
        for i in range(procs):
            ps.append(subprocess.Popen([path, '--driver', driver, '--prop', prop, '--secs', str(secs), '--seed', str(seed * 100 + i)],
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=scratch))
        res = dict(evaluations=0, nontrivial=0, classes=0, kinds=set(), others=[], found=None, sample=[], driver=driver, processes=procs, seconds=secs)
        for i, p in enumerate(ps):
            try: out, err = p.communicate(timeout=secs * 3 + 60)
            except subprocess.TimeoutExpired:
                p.kill(); out, err = p.communicate()
                res['hung'] = True
                continue
            try: j = json.loads(out.strip().splitlines()[-1])
            except (ValueError, IndexError):
                res.setdefault('crashed', []).append((p.returncode, (out + err)[-500:]))
                continue
            for k in ('evaluations', 'nontrivial'): res[k] += j[k]
            res['classes'] = max(res['classes'], j['classes'])
            res['kinds'] |= set(j['kinds']); res['others'] += j['others']
            if len(j['sample']) > len(res['sample']): res['sample'] = j['sample']
            if j['found'] and (res['found'] is None or len(j['trace']) < len(res['found']['trace'])):
                res['found'] = dict(seed=j['found_seed'], what=j['what'], trace=j['trace'], driver=driver, crate=crate)
        return res
    def confirm(self, f, prop):
        path, _ = self.bin[f['crate']]
        rc, out, err = sh([path, 'replay', '--driver', f['driver'], '--prop', prop, '--seed', str(f['seed'])], timeout=120, cwd=os.path.join(BUILD, 'scratch'))
        return rc != 0, out[-6000:]

def known_findings(prop):
    p = os.path.join(HERE, 'known-findings.txt')
    res = []
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) match="(.*?)" (.*)', l)
        if m and m.group(1) == prop: res.append((m.group(2), m.group(3)))
    return res

def main():
    prop = [a for a in sys.argv[1:] if not a.startswith('-')][0]
    spec = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    thorough = TIER == 'thorough'
    hunts = spec['hunts']
    h = Hunt(sorted({c for c, _, _ in hunts}), [d for _, d, _ in hunts])
    std = {}
    std_thread = threading.Thread(target=lambda: std.update(stdproofs.prove(BUILD)))
    if 't_codec' in spec['units'] or 't_stream' in spec['units']: std_thread.start()
    units = [vrun.verify(u, os.path.join(REPO, 'src'), os.path.join(BUILD, 'verus'), seed=SEED) for u in spec['units']]
    # The code generated for random definitions is put under the contracts derived from them as well.
    vrun.TARGET = os.path.join(BUILD, 'verus', 'fixture-target')
    for k in range(10 if thorough else 1):
        name = 'random%d' % k
        for u in spec['units']:
            if u not in ('t_iface', 't_intro'): continue
            d = randfix.write(os.path.join(HERE, 'fixture'), os.path.join(BUILD, 'verus', name, 'definitions'), SEED * 1000 + k)
            r = vrun.verify(u, os.path.join(REPO, 'src'), os.path.join(BUILD, 'verus', name), seed=SEED, fixture=d)
            r['unit'] = '%s (%s)' % (u, name); r['definitions'] = os.path.join(d, 'src/lib.rs')
            r['cmd'] = r['cmd'] and 'cd %s && %s' % (name, r['cmd'])
            units.append(r)
    fails = []; drift = {}
    for u in units:
        if u['unit_drift']: drift['unit ' + u['unit']] = u['unit_drift']
        for f in u['failures']:
            if prop in f['tags']: fails.append(f)
            elif not f['tags'] and u['unit'] not in spec.get('tagged_only', ()): fails.append(f)
        for q, why in u['drift'].items():
            tags = {t for f in u['functions'] if f['function'] == q for t in f['tags']} | (u['drift_tags'] if q not in [f['function'] for f in u['functions']] else set())
            if prop in tags: drift[q] = why
    vac = []
    if thorough:
        for u in spec['units']: vac += vrun.vacuous(u, os.path.join(REPO, 'src'), os.path.join(BUILD, 'verus'))
    h.wait()
    secs = int(os.environ.get('VERIF_SECS', spec.get('secs', 20))) * (12 if thorough else 1)
    results = []
    def search(secs, seed):
        for crate, driver, needs in hunts:
            procs = 7 if len(hunts) == 1 else 7
            r = h.run(crate, driver, prop, max(3, secs / len(hunts)), procs, seed, needs)
            results.append(r)
            f = r.get('found')
            if f:
                ok, out = h.confirm(f, prop)
                f['confirmed'] = ok; f['output'] = out
                if ok: return f
            if r.get('crashed') and not r.get('evaluations'): pass
        return None
    found = search(secs, SEED)
    if not found and (fails or drift) and not thorough: found = search(secs * (3 if fails else 2), SEED + 1000)
    findings = known_findings(prop)
    suppressed = []
    if found:
        for pat, text in findings:
            if re.search(pat, found['what']): suppressed.append(text); found = None; break
    for _, text in findings: print('KNOWN-FINDING: property=%s %s' % (prop, text))
    crashes = [c for r in results for c in r.get('crashed', [])]
    replay = os.path.join(BUILD, 'replay', prop + '.txt')
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    violation = None
    if found:
        with open(replay, 'w') as f:
            f.write('property %s contradicted by an execution of the compiled code of %s\n%s\n\nscenario (driver %s, seed %d):\n' % (prop, REPO, found['what'], found['driver'], found['seed']))
            for l in found['trace']: f.write('  ' + l + '\n')
            f.write('\nreplay: build as check.py does, then %s replay --driver %s --prop %s --seed %d\n\n%s\n' % (h.bin[found['crate']][0], found['driver'], prop, found['seed'], found['output']))
            for x in fails: f.write('\nfailed obligation: %s (%s): %s: %s\n' % (x['function'], x['file'], x['message'], x['clause']))
        violation = 'VIOLATION property=%s replay=%s' % (prop, replay)
    elif fails:
        with open(replay, 'w') as f:
            f.write('property %s: obligations generated from the current sources of %s that the verifier does not discharge\n' % (prop, REPO))
            for x in fails: f.write('\n%s (%s): %s\n  %s\n  at: %s\n' % (x['function'], x['file'], x['message'], x['clause'], x['where']))
            f.write('\nverifier output:\n')
            for u in units:
                if u['failures'] and u.get('definitions'): f.write('\nthe definitions of %s:\n%s\n' % (u['unit'], open(u['definitions']).read()))
                for l in u.get('stderr', '').splitlines():
                    if l.startswith('{'):
                        try: f.write(json.loads(l).get('rendered', '') + '\n')
                        except ValueError: pass
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)
    if found: print(found['what'][:500])
    for x in fails[:6]: print('failed obligation: %s: %s: %s' % (x['function'], x['message'], x['clause'][:200]))
    for q, why in drift.items(): print('not decided by the verifier (bounded search instead): %s: %s' % (q, why[:160]))
    for v in vac: print('vacuous contract: ' + v)

    if std_thread.ident: std_thread.join()
    fns = [f for u in units for f in u['functions']]
    mine = [f for f in fns if prop in f['tags']]
    obligations = sum(u['verified'] + u['errors'] for u in units)
    discharged = sum(u['verified'] for u in units)
    trusted = sorted({t for u in units for t in u.get('trusted', [])})
    ev = dict(property=prop, tier=TIER, seed=SEED, level='proof', wall_s=round(time.time() - t0, 1), violations=1 if violation else 0,
        coverage=dict(obligations=obligations, discharged=discharged,
            checker_cmd='; '.join('(cd build/verus && %s)' % u['cmd'] for u in units if u['cmd']) or 'none',
            trusted_base=trusted,
            back_end='Verus (Z3); one obligation is one function, loop body or lemma query, with all its clauses',
            functions_under_contract=[dict(function=f['function'], file=f['file'], status=f['status'], clause_lines=f['contract_lines'], solver_ms=f.get('solver_ms')) for f in mine],
            random_interface_definitions=sum(1 for u in units if u.get('definitions')), functions_in_units=len(fns), solver_ms=sum(u['solver_ms'] for u in units), inlined_helpers=sorted({str(x) for u in units for x in u['inlined']}),
            failed_obligations=[dict(function=x['function'], message=x['message'], clause=x['clause']) for x in fails],
            bounded_instead_of_proved=[dict(function=q, reason=w) for q, w in drift.items()],
            counterexample_search=[dict(driver=r.get('driver'), evaluations=r.get('evaluations', 0), distinct_nontrivial=r.get('classes', 0), nontrivial=r.get('nontrivial', 0),
                rule='random scenarios against the compiled code; a scenario is non-trivial when it reached at least one of the listed situations, distinct by the set of situations reached',
                situations=sorted(r.get('kinds', [])), error=r.get('error'), bound='%s s, %s processes' % (r.get('seconds'), r.get('processes')), mismatches_of_other_properties=r.get('others', [])[:3], sample=r.get('sample', [])[:30]) for r in results],
            contracts_of_std_proved=std or None,
            crashes_of_search=[str(c) for c in crashes][:3], vacuous_contracts=vac),
        assumptions=spec['assumptions'] + COMMON)
    os.makedirs(os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence')), exist_ok=True)
    json.dump(ev, open(os.path.join(os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence')), prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged, %d functions under contract for this property, %d scenarios searched, %.0f s' % (prop, discharged, obligations, len(mine), sum(r.get('evaluations', 0) for r in results), time.time() - t0))
    if violation:
        print(violation); sys.exit(1)
    if not units or all(u['unit_drift'] for u in units):
        if not any(r.get('evaluations') for r in results):
            print('no answer: neither the verifier nor the search could be applied'); sys.exit(2)
    sys.exit(0)

from props import COMMON
if __name__ == '__main__': main()
