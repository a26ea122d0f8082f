"""Random interface definitions, in the form of the fixture crate, for t_iface and t_intro."""
import os, random, sys

NAMES = 'plain nothing talk ask watch look look_at_it event tick level state image news first quit more done open_door shut x9 a b_c get_value set_value status stop move_arm image_ready'.split()
TYPES = ['Alpha', 'Beta', 'Gamma', '()', 'Vec<Alpha>', 'Vec<Beta>', 'Option<Gamma>', 'Option<Alpha>']
IDS = [0, 1, 2, 3, 4, 7, 8, 15, 16, 127, 128, 255, 256, 257, 65535, 65536, 16777216, 2147483646, 2147483647, -1, -2, -12, -128, -129, -256, -65536, -2147483647]
WORDS = ['One', 'two  words', 'with "quotes"', 'a \\ backslash', '#hash', '{braces}', "it's", 'x']

def camel(s): return ''.join(p[:1].upper() + p[1:] for p in s.split('_'))

def definition(rng, module):
    out = []
    def attrs(tab):
        l = []
        if rng.random() < 0.5:
            indent = rng.randrange(4)
            for _ in range(rng.randrange(1, 5)):
                l.append(tab + '///' + ' ' * rng.choice([0, 0, 1, 5]) if rng.random() < 0.2 else tab + '///' + ' ' * (indent + rng.choice([0, 0, 0, 2, 5])) + rng.choice(WORDS))
        if rng.random() < 0.25: l.insert(rng.randrange(len(l) + 1), tab + '#[hidden]')
        out.extend(l)
    def items(most):
        n = rng.randrange(most + 1)
        names = rng.sample(NAMES, n)
        pool = IDS if rng.random() < 0.5 else list(range(-2, 6))
        return list(zip(names, rng.sample(pool, min(n, len(pool)))))
    ty = lambda: rng.choice(TYPES)
    services, streams = items(5), items(4)
    if not services and not streams: streams = [('tick', 0)]
    tagged = [('service',) + s for s in services] + [('stream',) + s for s in streams]
    if rng.random() < 0.4: rng.shuffle(tagged)
    out += ['pub mod %s {' % module, '\tuse super::*;', '\tfizyr_rpc::interface! {']
    attrs('\t\t')
    out.append('\t\tpub interface %s {' % camel(module))
    for kind, name, id in tagged:
        attrs('\t\t\t')
        if kind == 'stream': out.append('\t\t\tstream %d %s: %s,' % (id, name, ty())); continue
        head = '\t\t\tservice %d %s: %s -> %s' % (id, name, ty(), ty())
        updates = [('request',) + u for u in (items(4) if rng.random() < 0.6 else [])] + [('response',) + u for u in (items(4) if rng.random() < 0.6 else [])]
        if not updates: out.append(head + ','); continue
        if rng.random() < 0.5: rng.shuffle(updates)
        out.append(head + ' {')
        for k, n, i in updates:
            attrs('\t\t\t\t')
            out.append('\t\t\t\t%s_update %d %s: %s,' % (k, i, n, ty()))
        out.append('\t\t\t},')
    out += ['\t\t}', '\t}', '}', '']
    return out

def write(base, to, seed, modules=2):
    """A copy of the fixture crate `base` with other definitions."""
    rng = random.Random(seed)
    lines = ['//! Random interface definitions (seed %d).' % seed, '', 'pub struct Alpha;', 'pub struct Beta;', 'pub struct Gamma;', '']
    for m in range(modules): lines += definition(rng, 'random_%d' % m)
    os.makedirs(os.path.join(to, 'src'), exist_ok=True)
    for f in ('Cargo.toml', 'Cargo.lock'): open(os.path.join(to, f), 'w').write(open(os.path.join(base, f)).read())
    open(os.path.join(to, 'src/lib.rs'), 'w').write('\n'.join(lines))
    return to
