"""Run the deductive verifier (Verus) on a unit: generate it from the sources, verify, attribute what failed."""
import concurrent.futures, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen import Gen, Drift

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ['--crate-type=lib', '--no-erasure-check', '--multiple-errors', '30', '--output-json', '--time-expanded', '--error-format=json']
NOTE_ONLY = ('aborting due to', 'function body check: not all errors')

def diagnostics(text):
    out = []
    for l in text.splitlines():
        if not l.startswith('{'): continue
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('level') == 'error' and not d['message'].startswith(NOTE_ONLY): out.append(d)
    return out

VERIFICATION = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
    'loop invariant not satisfied', 'possible arithmetic', 'possible division by zero', 'decreases not satisfied', 'possible bit shift',
    'recommendation not met', 'Call to non-static function', 'unreachable', 'index out of bounds', 'requirement not met', 'unable to prove')
def is_verification(d):
    if d.get('code'): return False      # an error of the Rust compiler
    m = d['message'].lower()
    return any(v.lower() in m for v in VERIFICATION) or 'not satisfied' in m

def run_verus(path, extra, timeout, mem_kb=14000000):
    cmd = ['verus', os.path.basename(path)] + FLAGS + extra
    t = time.time()
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -v %d; exec "$@"' % mem_kb, 'x'] + cmd, cwd=os.path.dirname(path), capture_output=True, text=True, timeout=timeout)
        out, err, code = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, code = '', 'timeout', -1
    try: js = json.loads(out)
    except ValueError: js = {}
    return js, err, code, time.time() - t, ' '.join(cmd)

def functions_of(js, unit):
    res = {}
    for m in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            n = f['function']
            if n.startswith(unit + '::'): n = n[len(unit) + 2:]
            o = res.setdefault(n, dict(ok=True, micros=0, rlimit=0))
            o['ok'] = o['ok'] and f.get('success', False)
            o['micros'] += f.get('time-micros', 0)
            o['rlimit'] += f.get('rlimit', 0)
    return res

TARGET = None      # where the fixtures are built, if not below the directory of the unit

def expand(root, outdir, fixture):
    """The code that the current macro generates for the interface definitions of the fixture crate."""
    repo = os.path.dirname(os.path.abspath(root))
    d = os.path.join(outdir, 'fixture')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    for f in ('Cargo.toml', 'Cargo.lock', 'src/lib.rs'):
        text = open(os.path.join(fixture, f)).read()
        if f == 'Cargo.toml': text = text.replace('"/repo"', '"%s"' % repo)
        open(os.path.join(d, f), 'w').write(text)
    env = dict(os.environ, RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=TARGET or os.path.join(outdir, 'fixture-target'))
    r = subprocess.run(['cargo', 'rustc', '--offline', '--quiet', '--lib', '--', '-Zunpretty=expanded'], cwd=d, env=env, capture_output=True, text=True, timeout=600)
    if r.returncode or not r.stdout: raise Drift('the interfaces of the fixture do not compile: ' + r.stderr[-600:])
    path = os.path.join(d, 'expanded.rs')
    open(path, 'w').write(r.stdout)
    return path

def generator(unit, root, outdir, fixture, *args, **kw):
    fixture = fixture or os.path.join(HERE, '..', 'fixture')
    if '//@interfaces' in open(os.path.join(HERE, unit + '.vrs')).read() and 'expanded' not in kw: kw['expanded'] = expand(root, outdir, fixture)
    return Gen(root, unit + '.vrs', HERE, *args, fixture=fixture, **kw)

def verify(unit, root, outdir, seed=0, extra=(), timeout=600, log=lambda s: None, fixture=None):
    """Returns a dict: status ok | failed | drift, failures, functions, ..."""
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, unit + '.rs')
    degraded = {}
    alt = {}
    force = {}
    res = dict(unit=unit, failures=[], functions=[], drift={}, drift_tags=set(), unit_drift=None, inlined=[], wall=0.0, solver_ms=0, verified=0, errors=0, cmd='', retried=0)
    expanded = {}
    for attempt in range(12):
        try:
            g = generator(unit, root, outdir, fixture, degraded, alt=alt, force=force, **expanded)
            if g.src.expanded: expanded['expanded'] = g.src.expanded
            text = g.run()
        except Drift as e:
            res['unit_drift'] = str(e); res['status'] = 'drift'; return res
        except Exception as e:      # the sources could not be analysed at all
            res['unit_drift'] = 'extraction failed: %s: %s' % (type(e).__name__, e); res['status'] = 'drift'; return res
        degraded = dict(g.degraded)
        open(path, 'w').write(text)
        js, err, code, wall, cmd = run_verus(path, g.flags + list(extra), timeout)
        res['wall'] += wall; res['cmd'] = cmd
        ds = diagnostics(err)
        vr = js.get('verification-results', {})
        front = [d for d in ds if not is_verification(d) and 'rlimit' not in d['message'].lower() and 'resource limit' not in d['message'].lower()]
        if not vr and not ds:
            res['unit_drift'] = 'the verifier gave no result (%s)' % err.strip()[-300:]; res['status'] = 'drift'; return res
        if front and (vr.get('encountered-vir-error') or 'verified' not in vr or vr.get('encountered-error') and not vr.get('verified')) or front:
            # Something in the text is outside the verifier's language: leave the functions concerned out, keeping their contracts.
            new = helpers_wanted(front, g, text, force)
            if new: continue
            bumped = set()
            for d in front:
                for s in d['spans'] + [s for c in d.get('children', []) for s in c['spans']]:
                    for a, b, q, tags, f in g.em.fn_ranges:
                        if a <= s['line_start'] <= b and q in g.ambiguous and alt.get(q, 0) < 3 and q not in degraded:
                            if q not in bumped: alt[q] = alt.get(q, 0) + 1; bumped.add(q)
                            new = True
                        elif a <= s['line_start'] <= b and q not in degraded:
                            degraded[q] = 'outside the verifier\'s language: ' + d['message'][:200]; new = True
            if new: continue
            res['unit_drift'] = front[0]['message'][:300]; res['status'] = 'drift'; return res
        break
    else:
        res['unit_drift'] = 'too many functions outside the verifier\'s language'; res['status'] = 'drift'; return res
    fails = attribute(g, ds, text)
    fns = functions_of(js, unit)
    retries = 0
    if fails:
        # Is it the solver that gave up? Try again with more resources and other seeds.
        retries = 2
        def again(k):
            p2 = os.path.join(outdir, '%s_retry%d' % (unit, k), unit + '.rs')
            os.makedirs(os.path.dirname(p2), exist_ok=True)
            open(p2, 'w').write(text)
            return run_verus(p2, g.flags + list(extra) + ['--rlimit', '40', '--smt-option', 'smt.random_seed=%d' % (k * 7 + seed)], timeout)
        with concurrent.futures.ThreadPoolExecutor(2) as pool:
            again_results = list(pool.map(again, (1, 2)))
        res['wall'] += max(r[3] for r in again_results)
        for js2, err2, code2, wall2, _ in again_results:
            if js2.get('verification-results', {}).get('success'):
                fails = []; js = js2; fns = functions_of(js, unit); break
            f2 = attribute(g, diagnostics(err2), text)
            bad2 = {f['function'] for f in f2}
            if f2: fails = [f for f in fails if f['function'] in bad2]
    res['retried'] = retries
    vr = js.get('verification-results', {})
    res['verified'] = vr.get('verified', 0); res['errors'] = vr.get('errors', 0)
    res['solver_ms'] = js.get('times-ms', {}).get('smt', {}).get('total', 0)
    for f in g.functions:
        q = f['function']
        st = fns.get(f['emitted']) or fns.get(f['emitted'].split('::')[-1])
        failed = any(x['function'] == q for x in fails)
        f2 = dict(f); f2['unit'] = unit
        f2['status'] = 'not verified' if q in degraded else 'failed' if failed else 'discharged'
        if st: f2['solver_ms'] = round(st['micros'] / 1000, 1)
        res['functions'].append(f2)
    for q, why in degraded.items():
        res['drift'][q] = why
        for f in g.functions:
            if f['function'] == q: res['drift_tags'] |= set(f['tags'])
    for q, (why, tags) in g.lost.items():
        res['drift'][q] = why; res['drift_tags'] |= set(tags)
    # A caller of a function that lost its contract can not be decided.
    lost_names = {q.split('::')[-1] for q in g.lost}
    keep = []
    lines = text.split('\n')
    for f in fails:
        body = '\n'.join(lines[f['range'][0] - 1:f['range'][1]]) if f['range'] else ''
        if f.get('resource') or f['function'] in g.closures or any(re.search(r'\b%s\s*\(' % re.escape(n), body) for n in lost_names):
            res['drift'][f['function']] = 'undecided: ' + f['message']; res['drift_tags'] |= set(f['tags'])
        else:
            keep.append(f)
    res['failures'] = keep
    res['inlined'] = g.inlined
    res['trusted'] = trusted(text)
    res['clauses'] = sum(f['contract_lines'] for f in g.functions)
    res['status'] = 'failed' if keep else 'drift' if res['drift'] else 'ok'
    res['stderr'] = err
    res['path'] = path
    return res

def helpers_wanted(front, g, text, force):
    """Calls of methods that have no contract, of types known by the compiler: they can be inlined."""
    lines = text.split('\n')
    seen = {}
    for d in front:
        m = re.match(r'no method named `(\w+)` found for (?:struct|enum|reference|mutable reference) `(?:&(?:mut )?)?(\w+)', d['message'])
        if not m: continue
        for s in d['spans']:
            for a, b, q, tags, f in g.em.fn_ranges:
                if s.get('is_primary') and a <= s['line_start'] <= b: seen.setdefault((q, m.group(1), a, b), []).append(m.group(2))
    new = False
    for (q, name, a, b), types in seen.items():
        calls = len(re.findall(r'\.\s*%s\s*\(' % name, '\n'.join(lines[a - 1:b])))
        if len(set(types)) == 1 and calls == len(types) and (name, types[0]) not in force.get(q, []) and g.method(next(f for x, y, n, t, f in g.em.fn_ranges if n == q), types[0], name) is not None:
            force.setdefault(q, []).append((name, types[0])); new = True
    return new

def attribute(g, ds, text):
    lines = text.split('\n')
    out = []
    for d in ds:
        msg = d['message']
        fn = None; tags = set(); clause = ''; where = ''
        prim = [s for s in d['spans'] if s.get('is_primary')] or d['spans']
        for s in d['spans']:
            for a, b, q, t, f in g.em.fn_ranges:
                if a <= s['line_start'] <= b:
                    lab = s.get('label') or ''
                    if lab.startswith('failed precondition'): continue
                    fn = fn or (a, b, q, t, f)
        for s in d['spans']:
            lab = s.get('label') or ''
            if 'failed' in lab or 'invariant' in msg or 'assertion' in msg:
                clause = clause or ' '.join(x['text'].strip() for x in s['text'])[:400]
            if ('failed this postcondition' in lab or 'invariant' in msg) and fn and fn[0] <= s['line_start'] <= fn[1]:
                for n in range(s['line_start'], s['line_end'] + 1):
                    tags |= g.em.tags.get(n, set())
            elif fn and fn[0] <= s['line_start'] <= fn[1]:
                where = ' '.join(x['text'].strip() for x in s['text'])[:200]
        resource = 'rlimit' in msg.lower() or 'resource limit' in msg.lower()
        if fn is None:
            out.append(dict(function='(lemma)', file='', message=msg, clause=clause, where=where, tags=[], range=None, resource=resource)); continue
        callee = None
        for s in d['spans']:
            if (s.get('label') or '').startswith('failed precondition'):
                for f in g.em.fn_ranges:
                    if f[0] <= s['line_start'] <= f[1]: callee = f[2]
        if callee and not tags:
            c = [f for f in g.functions if f['function'] == callee]
            if c: tags = set(c[0]['default']) & set(fn[3])
        if not tags:
            dflt = [f for f in g.functions if f['function'] == fn[2]]
            tags = set(dflt[0]['default'] or dflt[0]['tags']) if dflt else set(fn[3])
        out.append(dict(function=fn[2], file=fn[4], message=msg, clause=clause, where=where, tags=sorted(tags), range=(fn[0], fn[1]), resource=resource))
    return out

def trusted(text):
    """What is assumed, counted mechanically in the verified text."""
    res = []
    ls = text.split('\n')
    ctx = ''
    for i, l in enumerate(ls):
        m = re.match(r'\s*(?:pub )?(?:impl\b.*|trait\b.*|pub trait\b.*)', l)
        if re.match(r'^(\t)?impl\b|^(\t)?pub trait\b|^pub mod\b', l): ctx = l.strip().rstrip('{').strip()
        if 'external_body' in l or 'external_type_specification' in l:
            j = i
            while j < len(ls) and not re.search(r'\b(fn|struct|enum)\s+\w+', ls[j]): j += 1
            if j < len(ls):
                n = re.search(r'\b(fn|struct|enum)\s+(\w+)', ls[j])
                res.append('external_body %s %s [%s]' % (n.group(1), n.group(2), ctx if n.group(1) == 'fn' and ls[j].startswith('\t') else ''))
        elif re.search(r'\buninterp spec fn\b', l):
            res.append('uninterpreted ' + re.search(r'fn\s+(\w+)', l).group(1))
        elif re.search(r'\b(assume|admit)\s*\(', l):
            res.append('assume: ' + l.strip()[:120])
        elif re.search(r'\baxiom fn\b|broadcast axiom', l):
            res.append('axiom ' + l.strip()[:100])
    return sorted(set(res))

def vacuous(unit, root, outdir, timeout=900):
    """Functions whose contract can be met by anything: `assert(false)` at the start of the body must fail."""
    try:
        g = generator(unit, root, outdir, None, {}, vacuity=True)
        text = g.run()
    except Exception as e: return []
    path = os.path.join(outdir, unit + '_vacuity.rs')
    open(path, 'w').write(text)
    js, err, code, wall, cmd = run_verus(path, g.flags, timeout)
    hit = set()
    for d in diagnostics(err):
        for s in d['spans']:
            for a, b, q, t, f in g.em.fn_ranges:
                if a <= s['line_start'] <= b: hit.add(q)
    return [f['function'] for f in g.functions if f['function'] not in hit]

if __name__ == '__main__':
    r = verify(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '/repo/src', '/tmp/vout')
    print(r['status'], r['verified'], r['errors'], r['unit_drift'], r['drift'], 'wall', round(r['wall'], 1), 'retried', r['retried'])
    for f in r['failures']: print(f['function'], f['tags'], f['message'], '|', f['clause'][:150], '|', f['where'][:100])
    if '-v' in sys.argv:
        for f in r['functions']: print(f)
        print(r['trusted'])
