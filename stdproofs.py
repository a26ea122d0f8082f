"""Contracts assumed for functions of the standard library that Kani proves on the functions themselves."""
import os, re, shutil, subprocess, time
HERE = os.path.dirname(os.path.abspath(__file__))

def prove(build):
    """Returns the numbers of harnesses proved and failed, or an error."""
    t = time.time()
    d = os.path.join(build, 'std')
    shutil.rmtree(os.path.join(d, 'src'), ignore_errors=True)
    shutil.copytree(os.path.join(HERE, 'std'), d, dirs_exist_ok=True)
    text = open(os.path.join(HERE, 'verus/bytes.vrs')).read()
    spec = '// from verus/bytes.vrs\n'
    for name in ('le_bytes', 'be_bytes'):
        m = re.search(r'pub open spec fn %s\(v: u32\) -> Seq<u8> \{\s*seq!\[(.*?)\]\s*\}\n' % name, text, re.S)
        if not m: return dict(error='no definition of %s in bytes.vrs' % name)
        spec += 'pub fn %s(v: u32) -> [u8; 4] { [%s] }\n' % (name, m.group(1))
    with open(os.path.join(d, 'src/spec.rs'), 'w') as f: f.write(spec)
    try: r = subprocess.run(['cargo', 'kani', '--target-dir', os.path.join(d, 'target')], cwd=d, capture_output=True, text=True, timeout=300, env=dict(os.environ, CARGO_NET_OFFLINE='true'))
    except (OSError, subprocess.TimeoutExpired) as e: return dict(error=str(e)[:200])
    m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures', r.stdout)
    if not m: return dict(error=(r.stdout + r.stderr)[-400:])
    return dict(back_end='Kani (CBMC)', proved=int(m.group(1)), failed=int(m.group(2)), harnesses=re.findall(r'Checking harness (\S+?)\.\.\.', r.stdout), wall_s=round(time.time() - t, 1),
        contracts='to_/from_ le/be/ne bytes of u32 and i32, casts, u32::try_from(usize) for all arguments; [u8; 4]::try_from(&[u8]) for slices of up to 64 bytes (bounded)')
