#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.in.md, props.py, properties.jsonl and the results of tools/trybugs.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
UNITS = [
    ('t_codec', 'message headers and the byte orders: `MessageHeader::encode/decode`, `MessageType`, `Endian`'),
    ('t_stream', '`StreamReadHalf::poll_read_msg`, `StreamWriteHalf::poll_write_msg` and helpers, payload checks, splitting, configuration'),
    ('t_unix', '`UnixReadHalf::poll_read_msg`, `UnixWriteHalf::poll_write_msg`, control messages, splitting, configuration'),
    ('t_body', 'the two body types, `Message::error_response`, error bodies, UTF-8'),
    ('t_core', 'message constructors, errors, the whole request tracker, the command loop, the read loop and their composition in `Peer::run`, all handles'),
    ('t_poll', 'the futures `ReadMsg`/`WriteMsg`, the transport halves behind references and boxes, `select`'),
    ('t_iface', 'everything `interface!` generates for the three fixture definitions: clients, servers, handles, messages'),
    ('t_listen', '`bind`, `poll_accept`/`accept`/`run`, `spawn`, `connect`, `transport_info`, `into_transport`'),
    ('t_macro', 'the macro: conversion of the parsed items to the checked definition (duplicates, attributes, IDs), documentation lines, `generate_interface`, the grammar of the raw items'),
    ('t_docs', 'the macro: joining of documentation lines (`to_doc_string`)'),
    ('t_intro', 'the introspection functions `interface!` generates for the three fixture definitions'),
]
titles = {json.loads(l)['id']: json.loads(l)['title'] for l in open(HERE + '/properties.jsonl')}
def units():
    yield '| unit | obligations | functions of /repo | wall s | what |'; yield '|---|---|---|---|---|'
    for u, what in UNITS:
        o = subprocess.run(['python3', HERE + '/verus/vrun.py', u], capture_output=True, text=True).stdout.split()
        sys.path.insert(0, HERE + '/verus')
        import vrun
        r = vrun.verify(u, '/repo/src', '/tmp/gen_design', seed=1)
        yield '| `%s` | %d of %d | %d | %.0f | %s |' % (u, r['verified'], r['verified'] + r['errors'], len(r['functions']), float(o[o.index('wall') + 1]), what)
def props():
    for p in sorted(titles):
        if p in PROPS:
            d = PROPS[p]
            yield '* **%s %s.** Units %s; search %s. %s' % (p, titles[p], ', '.join('`%s`' % u for u in d['units']), ', '.join('`%s`' % h[1] for h in d['hunts']), d['note'])
        else: yield '* **%s %s.** Not applicable: %s' % (p, titles[p], NOT_APPLICABLE[p])
def seeds():
    f = HERE + '/tools/seed-results.json'
    known = json.load(open(f)) if os.path.exists(f) else {}
    yield '| planted bug | failing input found | failed obligations |'; yield '|---|---|---|'
    for b in sorted(os.listdir(HERE + '/seeded')):
        r = known.get(b)
        ob = '; '.join('`%s`' % o.replace('|', '\\|').replace('`', "'") for o in r['obligations']) if r else ''
        yield '| %s | %s | %s |' % (b, 'not run' if not r else 'missed' if r['exit'] != 1 else 'yes' if r['found'] else 'no', ob)
s = open(HERE + '/tools/design.in.md').read().replace('@@LAST@@', subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%h', '--grep=^fix:'], capture_output=True, text=True).stdout.strip())
for k, f in (('UNITS', units), ('PROPS', props), ('SEEDS', seeds)): s = s.replace('@@%s@@' % k, '\n'.join(f()))
open(HERE + '/DESIGN.md', 'w').write(s)
