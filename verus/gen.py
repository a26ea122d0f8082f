"""Build a Verus file from a template and the current sources of fizyr-rpc.

A template (`*.vrs`) is Verus text (trusted prelude, specs, lemmas) with directives:

  //@const FILE NAME                     extract a constant
  //@type FILE NAME                      extract a struct or enum
  //@impl FILE TYPE [for TRAIT] [inherent]   start an impl block, all impls of TYPE in FILE are merged
  //@fn NAME(params) [-> r] [ghost] [as NEWNAME]   a function with the contract text that follows
  //@loop N [ITER]                       invariants of the N-th loop (textual order) of that function
  //@before N                            ghost text inserted before its N-th loop
  //@proof [N]                           proof text inserted at the start of the function body, or of its N-th loop
  //@skip NAME ...                       functions of the impl that are knowingly left out
  //@endimpl
  //@free FILE NAME(params) ...          a free function, directives as for //@fn
  //@endfree

In contract text, `requires`, `ensures` and `invariant` may carry property tags: `ensures [C07 C08]`.
Everything else is copied. The functions themselves always come from the sources.
"""
import json, os, re, sys
from rustlex import *
import iface

class Drift(Exception):
    """The sources no longer have the shape that the contracts were written for."""

MODULES = {'peer', 'transport', 'error', 'private', 'message', 'request', 'request_tracker', 'peer_handle', 'util', 'unix', 'stream', 'endian', 'config', 'body', 'tokio', 'listener', 'format'}

def T(text, line):
    ts = lex(text)
    for t in ts: t.line = line
    return ts

def strip_paths(toks):
    """Drop `crate::`, `super::` and the names of modules that are flattened."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'id' and i + 1 < len(toks) and toks[i + 1].t == '::':
            prev = toks[i - 1].t if i else ''
            if t.t in ('crate', 'super', 'fizyr_rpc') or (t.t in MODULES and (prev != '::' or not out or out[-1].t != '::')):
                i += 2; continue
        if t.t == '::' and (not out or (out[-1].k == 'p' and out[-1].t not in ('>', ')'))) and i + 1 < len(toks) and toks[i + 1].t in ('core', 'std', 'fizyr_rpc'):
            i += 1; continue
        out.append(t); i += 1
    return out

PATHS = [
    ('crate :: Body', 'BodyTrait'), ('service_id :: ERROR', 'ERROR'),
    ('std :: io :: ErrorKind', 'ErrorKind'), ('std :: io :: Error', 'IoError'), ('std :: io :: Result <', 'IoResult<'),
    ('Box < dyn std :: error :: Error + Send >', 'BoxError'),
    (':: std :: boxed :: Box < dyn :: std :: error :: Error + :: core :: marker :: Send >', 'BoxError'),
    ('std :: sync :: atomic :: Ordering', 'Ordering'),
    ('std :: boxed :: Box < dyn std :: error :: Error + core :: marker :: Send >', 'BoxError'),
    ('Transport : crate :: transport :: Transport', 'Transport : TransportTrait'), ('Transport : crate :: Transport', 'Transport : TransportTrait'),
    ('core :: option :: Option', 'Option'), ('core :: result :: Result', 'Result'),
    ('core :: task :: Poll', 'Poll'), ('std :: task :: Poll', 'Poll'), ('std :: task :: Context', 'Context'),
    ('impl Into <', 'impl Convert<'),
    ('std :: mem :: take', 'mem_take'), ('core :: mem :: take', 'mem_take'),
    ('std :: mem :: replace', 'mem_replace'),
    ('std :: str :: Utf8Error', 'Utf8Error'), ('std :: string :: FromUtf8Error', 'FromUtf8Error'),
    ('std :: str :: from_utf8', 'str_from_utf8'), ('String :: from_utf8', 'string_from_utf8'), ('String :: from (', 'string_from_str('),
    ('std :: collections :: BTreeSet', 'BTreeSet'), ('syn :: Token ! [ -> ]', 'syn::token::RArrow'),
    ('std :: path :: Path', 'Path'), ('. unwrap_or (', '.unwrap_or_('), ('std :: fs :: metadata', 'fs_metadata'), ('std :: fs :: symlink_metadata', 'fs_symlink_metadata'), ('std :: fs :: remove_file', 'fs_remove_file'), ('tokio :: spawn (', 'tokio_spawn('), ('std :: net :: SocketAddr', 'SocketAddr'),
    ('as dyn', 'as'), ('tokio :: io :: ReadBuf', 'ReadBuf'), ('tokio :: io :: AsyncRead', 'AsyncRead'), ('tokio :: io :: AsyncWrite', 'AsyncWrite'), ('std :: io :: IoSlice', 'IoSlice'), ('std :: io :: IoSliceMut', 'IoSliceMut'),
    ('. try_into (', '.try_convert('),
    ('Box :: < [ u8 ] > :: from (', 'boxed_slice_from('), ('Vec :: from (', 'vec_from('), ('Vec :: < u8 > :: from (', 'vec_from('), ('. as_bytes (', '.as_bytes_('),
] + [('. to_%s_bytes (' % e, '.to_%s_bytes_(' % e) for e in ('le', 'be', 'ne')] + [
    ('%s :: from_%s_bytes' % (t, e), '%s_from_%s_bytes' % (t, e)) for e in ('le', 'be', 'ne') for t in ('u32', 'i32')
]
PATHS = [([t.t for t in lex(a)], b) for a, b in PATHS]

def norm(toks):
    return unpin(subst_paths(strip_paths(subst_paths(toks))))

def unpin(toks):
    """`Pin<&mut T>` is `&mut T`: everything that is pinned here is `Unpin` (rustc checks that, for `get_mut` and `Pin::new`)."""
    i = 0
    toks = list(toks)
    while i < len(toks):
        if toks[i].t == 'Pin' and i + 2 < len(toks) and toks[i + 1].t == '<':
            e = skip_generics(toks, i + 1)
            toks[i:e] = toks[i + 2:e - 1]
            continue
        if toks[i].t == 'Pin' and i + 3 < len(toks) and toks[i + 1].t == '::' and toks[i + 2].t in ('new', 'into_inner', 'get_mut') and toks[i + 3].t == '(':
            toks[i:i + 3] = []
            continue
        i += 1
    return toks

def unpin_self(body):
    """`self.get_mut()` and names bound to it are `self`."""
    body = list(body)
    i = 0
    while i < len(body):
        if [t.t for t in body[i:i + 5]] == ['self', '.', 'as_mut', '(', ')']:
            if [t.t for t in body[i + 5:i + 9]] == ['.', 'get_mut', '(', ')']: body[i + 1:i + 9] = []
            else: body[i:i + 5] = T('(&mut *self)', body[i].line)
        elif [t.t for t in body[i:i + 5]] == ['self', '.', 'get_mut', '(', ')']:
            body[i + 1:i + 5] = []
        i += 1
    for i in range(len(body) - 4):
        b = [t.t for t in body[i:i + 10]]
        k = 0
        if b[0] != 'let': continue
        k = 2 if b[1] == 'mut' else 1
        name = b[k]
        k += 1
        if b[k] == ':':     # `let this: &mut Self = self;`
            if b[k + 1:k + 4] != ['&', 'mut', 'Self']: continue
            k += 4
        r = b[k:]
        if r[:3] == ['=', 'self', ';']: n = 3
        elif r[:5] == ['=', '(', 'self', ')', ';']: n = 5
        else: continue
        e = i + k + n
        rest = body[e:]
        if any(rest[j].t == 'let' and rest[j + 1].t == name for j in range(len(rest) - 1)): continue
        new = []
        for j, t in enumerate(rest):
            if t.t == name and t.k == 'id' and not (j and rest[j - 1].t in ('.', '::')): new += T('self', t.line)
            else: new.append(t)
        return unpin_self(body[:i] + new)
    return body

def subst_paths(toks):
    out, i = [], 0
    while i < len(toks):
        for pat, rep in PATHS:
            n = len(pat)
            if toks[i].t == pat[0] and [t.t for t in toks[i:i + n]] == pat:
                out += T(rep, toks[i].line); i += n; break
        else:
            out.append(toks[i]); i += 1
    return out

def expr_start(toks, i):
    """Index of the first token of the postfix expression that ends at token i."""
    while True:
        t = toks[i]
        if t.t in CLOSE and t.k == 'p':
            i = match_back(toks, i)
            # a call, index, or a parenthesised expression
            if i > 0 and (toks[i - 1].k == 'id' and toks[i - 1].t not in ('return', 'match', 'if', 'in', 'while', 'let', 'mut', 'else') or toks[i - 1].t in (')', ']', '?')):
                i -= 1; continue
            if i > 0 and toks[i - 1].t == '>':   # turbofish or generic path: stop here, unsupported
                raise Drift('generic call in a desugared receiver at line %d' % t.line)
            if toks[i].t == '{':
                # a block-like expression or struct literal: include the path before it
                raise Drift('block receiver at line %d' % t.line)
        elif t.t == '?':
            i -= 1; continue
        if i > 0 and toks[i - 1].t in ('.', '::'):
            i -= 2; continue
        return i

def closure_or_path(arg):
    """`|p| e` -> (pattern tokens, body tokens); a path -> (None, path)."""
    if arg and arg[0].t == 'move': arg = arg[1:]
    if arg and arg[0].t in ('|', '||'):
        if any(t.k == 'id' and t.t == 'return' or t.t == '?' for t in arg): raise Drift('return from a closure at line %d' % arg[0].line)
    if arg and arg[0].t == '|':
        j = 1
        while arg[j].t != '|': j += 1
        return arg[1:j], arg[j + 1:]
    if arg and arg[0].t == '||':
        return [], arg[1:]
    return None, arg

def desugar_question(toks, ret):
    """`e?` as a match. The return type of the function decides between `Option` and `Result`."""
    option = bool(ret) and ret[0].t == 'Option'
    poll = bool(ret) and ret[0].t == 'Poll'
    while True:
        for i, t in enumerate(toks):
            if t.t == '?' and t.k == 'p':
                s = expr_start(toks, i - 1)
                recv = toks[s:i]
                ln = t.line
                if option:
                    new = T('(match', ln) + recv + T('{ Some(v) => v, None => return None })', ln)
                else:
                    new = T('(match', ln) + recv + T('{ Ok(v) => v, Err(e) => return ' + ('Poll::Ready(Err(e.convert()))' if poll else 'Err(e.convert())') + ' })', ln)
                toks = toks[:s] + new + toks[i + 1:]
                break
        else:
            return toks

def desugar(toks, kind='Result'):
    """Mechanical, semantics-preserving rewriting of combinators and macros into `match`.

    `kind` is the type that `.map(closure)` and `.and_then(closure)` are taken to be called on: the wrong one does not type-check."""
    changed = True
    while changed:
        changed = False
        for i, t in enumerate(toks):
            ln = t.line
            if t.k == 'id' and i + 1 < len(toks) and toks[i + 1].t == '!' and i + 2 < len(toks) and toks[i + 2].t in OPEN:
                e = match(toks, i + 2)
                arg = toks[i + 3:e]
                if t.t == 'ready':
                    toks = toks[:i] + T('(match', ln) + arg + T('{ Poll::Pending => return Poll::Pending, Poll::Ready(x) => x })', ln) + toks[e + 1:]
                    changed = True; break
                if t.t == 'matches':
                    parts = split_top(arg)
                    pat = join(parts[1:])
                    yes = T('true', ln)
                    for k, x in enumerate(pat):
                        if x.k == 'id' and x.t == 'if':
                            pat, yes = pat[:k], pat[k + 1:]
                            break
                    toks = toks[:i] + T('(match', ln) + parts[0] + T('{', ln) + pat + T('=> {', ln) + yes + T('} _ => false })', ln) + toks[e + 1:]
                    changed = True; break
                if t.t == 'format':
                    toks = toks[:i] + T('any_string()', ln) + toks[e + 1:]
                    changed = True; break
                if t.t in ('assert', 'debug_assert'):
                    parts = split_top(arg)
                    toks = toks[:i] + T('exec_assert(', ln) + parts[0] + T(')', ln) + toks[e + 1:]
                    changed = True; break
                if t.t in ('assert_eq', 'debug_assert_eq'):
                    parts = split_top(arg)
                    toks = toks[:i] + T('exec_assert((', ln) + parts[0] + T(') == (', ln) + parts[1] + T('))', ln) + toks[e + 1:]
                    changed = True; break
                if t.t in ('unreachable', 'panic', 'todo', 'unimplemented'):
                    toks = toks[:i] + T('exec_panic::<()>()' if e + 1 < len(toks) and toks[e + 1].t == ';' else 'exec_panic()', ln) + toks[e + 1:]
                    changed = True; break
                if t.t == 'vec':
                    semi = [k for k, x in enumerate(arg) if x.t == ';' ]
                    if len(semi) == 1:
                        toks = toks[:i] + T('vec_filled(', ln) + arg[:semi[0]] + T(',', ln) + arg[semi[0] + 1:] + T(')', ln) + toks[e + 1:]
                        changed = True; break
            if t.t == '.' and i + 2 < len(toks) and toks[i + 1].k == 'id' and toks[i + 2].t == '(' and toks[i + 1].t in ('map_err', 'ok_or_else', 'ok_or', 'get_or_insert_with', 'unwrap_or_else', 'map', 'and_then', 'is_some_and', 'is_ok_and', 'is_none_or', 'unwrap_or_default', 'map_or'):
                name = toks[i + 1].t
                e = match(toks, i + 2)
                arg = toks[i + 3:e]
                s = expr_start(toks, i - 1)
                recv = toks[s:i]
                if name in ('map', 'and_then') and kind is None: continue
                # leading `&`, `*`, `!` bind weaker than a method call, so recv is complete
                pat, body = closure_or_path(arg)
                def app(var, pat=pat, body=body):
                    if pat is None:
                        return body + T('(%s)' % var, ln)
                    return T('{', ln) + body + T('}', ln)
                def pt(var, pat=pat):
                    return T(var, ln) if not pat else pat
                if name == 'map_err' and kind == 'Poll':
                    new = T('(match', ln) + recv + T('{ Poll::Pending => Poll::Pending, Poll::Ready(Ok(v)) => Poll::Ready(Ok(v)), Poll::Ready(Err(', ln) + pt('e') + T(')) => Poll::Ready(Err(', ln) + app('e') + T(')) })', ln)
                elif name == 'get_or_insert_with' and pat == [] and s > 2 and toks[s - 1].t == '=' and toks[s - 3].t == 'let' and toks[e + 1].t == ';' and not any(
                        toks[j].t == toks[s - 2].t and (toks[j - 1].t == 'mut' or toks[j - 1].t == '*' and toks[j + 1].t == '=') for j in range(e, len(toks) - 1)):
                    # The name stands for the place as long as it lives: nothing else can change the place while it is borrowed.
                    var = toks[s - 2].t
                    place = T('(match &', ln) + recv + T('{ Some(v) => v, None => exec_panic() })', ln)
                    rest = []
                    for j in range(e + 2, len(toks)):
                        t2 = toks[j]
                        if t2.t == var and t2.k == 'id' and toks[j - 1].t not in ('.', '::', 'let') and toks[j + 1].t != ':':
                            rest += [Tok(x.t, t2.line, x.k) for x in place]
                        else: rest.append(t2)
                    toks = toks[:s - 3] + T('if', ln) + recv + T('.is_none() {', ln) + recv + T('= Some({', ln) + body + T('}); }', ln) + rest
                    changed = True; break
                elif name == 'get_or_insert_with' and pat == []:
                    new = T('({ if', ln) + recv + T('.is_none() {', ln) + recv + T('= Some({', ln) + body + T('}); } (match &mut', ln) + recv + T('{ Some(v) => v, None => exec_panic() }) })', ln)
                elif name == 'map' and pat:
                    new = T('(match', ln) + recv + T({'Result': '{ Err(e) => Err(e), Ok(', 'Option': '{ None => None, Some(', 'Poll': '{ Poll::Pending => Poll::Pending, Poll::Ready('}[kind], ln) + pt('v') + T(
                        {'Result': ') => Ok(', 'Option': ') => Some(', 'Poll': ') => Poll::Ready('}[kind], ln) + app('v') + T(') })', ln)
                elif name == 'and_then' and pat and kind in ('Result', 'Option'):
                    new = T('(match', ln) + recv + T({'Result': '{ Err(e) => Err(e), Ok(', 'Option': '{ None => None, Some('}[kind], ln) + pt('v') + T(') =>', ln) + app('v') + T('})', ln)
                elif name == 'unwrap_or_else' and pat is not None:
                    new = T('(match', ln) + recv + (T('{ Ok(v) => v, Err(', ln) + pt('e') + T(') =>', ln) if pat else T('{ Some(v) => v, None =>', ln)) + app('e') + T('})', ln)
                elif name == 'ok_or':
                    new = T('(match', ln) + recv + T('{ Some(v) => Ok(v), None => Err(', ln) + body + T(') })', ln)
                elif name in ('is_some_and', 'is_ok_and', 'is_none_or') and pat:
                    new = T('(match', ln) + recv + T({'is_some_and': '{ None => false, Some(', 'is_none_or': '{ None => true, Some(', 'is_ok_and': '{ Err(_) => false, Ok('}[name], ln) + pt('v') + T(') =>', ln) + app('v') + T('})', ln)
                elif name == 'map_or' and len(split_top(arg)) == 2:
                    dflt, fn = split_top(arg)
                    pat, body = closure_or_path(fn)
                    new = T('(match', ln) + recv + T('{ Some(', ln) + pt('v', pat) + T(') =>', ln) + app('v', pat, body) + T(', None =>', ln) + dflt + T('})', ln)
                elif name == 'map_err':
                    new = T('(match', ln) + recv + T('{ Ok(v) => Ok(v), Err(', ln) + pt('e') + T(') => Err(', ln) + app('e') + T(') })', ln)
                elif name == 'ok_or_else':
                    new = T('(match', ln) + recv + T('{ Some(v) => Ok(v), None => Err(', ln) + (body + T('()', ln) if pat is None else T('{', ln) + body + T('}', ln)) + T(') })', ln)
                else:
                    continue
                toks = toks[:s] + new + toks[e + 1:]
                changed = True; break
    return toks

def casts(toks):
    """`e as u32` and `e as i32` as calls, because the verifier leaves the result of a wrapping cast open."""
    depth = 0
    i = 0
    toks = list(toks)
    while i < len(toks):
        t = toks[i]
        if t.t == '[' and t.k == 'p': depth += 1
        elif t.t == ']' and t.k == 'p': depth -= 1
        elif t.k == 'id' and t.t == 'as' and i + 1 < len(toks) and toks[i + 1].t in ('u32', 'i32') and not depth:
            s = expr_start(toks, i - 1)
            while s > 0 and toks[s - 1].t in ('*', '-', '&', '!') and (s == 1 or toks[s - 2].k == 'p' and toks[s - 2].t not in (')', ']', '?')): s -= 1
            if s == i - 1 and toks[s].k not in ('id',): i += 1; continue
            new = T('(', t.line) + toks[s:i] + T(').cast_%s()' % toks[i + 1].t, t.line)
            toks[s:i + 2] = new
            i = s + len(new); continue
        i += 1
    return toks

def mut_ranges(toks):
    """`&mut v[a..]` as `&mut v.as_slice_mut_()[a..]`: the verifier knows the former for arrays and slices only."""
    i = 0
    toks = list(toks)
    while i < len(toks):
        if toks[i].t == '[' and toks[i].k == 'p' and i > 0 and (toks[i - 1].k == 'id' or toks[i - 1].t in (')', ']')):
            e = match(toks, i)
            inner = toks[i + 1:e]
            if any(x.t in ('..', '..=') for x in inner):
                s = expr_start(toks, i - 1)
                if [x.t for x in toks[max(0, s - 2):s]] == ['&', 'mut'] or [x.t for x in toks[e + 1:e + 3]] == ['.', 'copy_from_slice']:
                    add = T('.as_slice_mut_()', toks[i].line)
                    toks[i:i] = add
                    i += len(add)
        i += 1
    return toks

def collections(toks):
    """Forms of slices, iterators and I/O buffers that the verifier does not know, as calls into the prelude."""
    toks = list(toks)
    i = 0
    while i < len(toks):
        t, ln = toks[i], toks[i].line
        tx = [x.t for x in toks[i:i + 6]]
        if tx[:4] == ['IoSliceMut', '::', 'new', '(']:
            e = match(toks, i + 3)
            arg = toks[i + 4:e]
            if [x.t for x in arg[:2]] == ['&', 'mut'] and not any(x.t in ('[', 'as_slice_mut_') for x in arg):
                toks[i + 4:e] = T('(', ln) + arg[2:] + T(').as_slice_mut_()', ln)
        elif tx[:5] == ['[', 'IoSliceMut', '::', 'new', '('] and (i == 0 or toks[i - 1].t in ('=', '(', ',', 'mut', '&')):
            e = match(toks, i)
            parts = split_top(toks[i + 1:e])
            if len(parts) == 2:
                toks[i:e + 1] = T('IoSliceMut2 { a:', ln) + parts[0] + T(', b:', ln) + parts[1] + T('}', ln)
        elif tx[:4] == ['.', 'iter', '(', ')'] and tx[4:5] == ['.'] and toks[i + 5].t in ('collect', 'map', 'enumerate', 'skip', 'rev'):
            toks[i + 1] = Tok('iter_', ln, 'id')
        elif tx[:6] == ['.', 'iter', '(', ')', '.', 'take_while'] and [x.t for x in toks[i + 6:i + 9]] == ['(', '|', '&&'] and toks[i + 10].t == '|':
            e = match(toks, i + 6)
            if [x.t for x in toks[e + 1:e + 5]] == ['.', 'count', '(', ')']:
                v, cond = toks[i + 9].t, toks[i + 11:e]
                toks[i:e + 5] = T('.count_while_(|%s: u8| -> (r_: bool) ensures r_ == (' % v, ln) + cond + T(') {', ln) + cond + T('})', ln)
        elif tx[:2] == ['+=', '&'] and i > 0 and toks[i - 1].k == 'id':
            e = i + 1
            while toks[e].t != ';': e = match(toks, e) + 1 if toks[e].t in OPEN and toks[e].k == 'p' else e + 1
            toks[i:e] = T('.push_str(', ln) + toks[i + 1:e] + T(')', ln)
        elif tx[:2] == ['push_str', '('] and tx[2:3] == ['&'] and toks[i + 4].t == '[' and toks[match(toks, i + 4) - 1].t == '..' and toks[match(toks, i + 4) + 1].t == ')':
            e = match(toks, i + 4)
            toks[i + 2:e + 1] = [toks[i + 3]] + T('.text_from_(', ln) + toks[i + 5:e - 1] + T(')', ln)
        elif tx[:4] == ['.', 'into_iter', '(', ')']:
            toks[i + 1] = Tok('into_items_', ln, 'id')
        elif tx[:3] == ['.', 'extend', '(']:
            toks[i + 1] = Tok('extend_', ln, 'id')
        i += 1
    return toks

def for_to_loop(toks):
    """`for p in e { b }` over an iterator of the prelude is `let mut it = e; loop { let p = match it.next() { Some(v) => v, None => break }; b }`."""
    n = 0
    while True:
        for i, t in enumerate(toks):
            if t.t == 'for' and t.k == 'id' and not (i + 1 < len(toks) and toks[i + 1].t == '<'):
                j = i + 1
                while toks[j].t != '{': j = (match(toks, j) if toks[j].t in OPEN and toks[j].k == 'p' else j) + 1
                head = toks[i + 1:j]
                if any(x.t in ('..', '..=') for x in head) or any(x.t == ':' for x in head): continue
                k = [x.t for x in head].index('in')
                ln = t.line
                e = match(toks, j)
                it = 'iter%d_' % n
                n += 1
                lab = []
                toks = toks[:i] + T('{ let mut %s = (' % it, ln) + head[k + 1:] + T(').into_items_(); let ghost %sall = %s.items(); loop { let' % (it, it), ln) + head[:k] + T('= (match %s.next() { Some(v) => v, None => break });' % it, ln) + toks[j + 1:e + 1] + T('}', ln) + toks[e + 1:]
                break
        else:
            return toks

def while_to_loop(body, n):
    """`while c { b }` is `loop { if !(c) { break; } b }`."""
    ls = find_loops(body)
    kw, br = ls[n]
    if body[kw].t != 'while' or body[kw + 1].t == 'let': return body
    ln = body[kw].line
    cond = body[kw + 1:br]
    return body[:kw] + T('loop {', ln) + T('if !(', ln) + cond + T(') { break; }', ln) + body[br + 1:]

def split_top(toks):
    out, cur, i = [], [], 0
    while i < len(toks):
        if toks[i].t in OPEN and toks[i].k == 'p':
            e = match(toks, i); cur += toks[i:e + 1]; i = e + 1; continue
        if toks[i].t == ',':
            out.append(cur); cur = []
        else: cur.append(toks[i])
        i += 1
    if cur: out.append(cur)
    return out

def join(parts):
    out = []
    for k, p in enumerate(parts):
        if k: out += T(',', p[0].line)
        out += p
    return out

def unwraps(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == '.' and i + 3 < len(toks) and toks[i + 1].t == 'into' and toks[i + 2].t == '(' and toks[i + 3].t == ')':
            out += T('.convert()', toks[i].line)
            i += 4; continue
        if toks[i].t == '.' and i + 2 < len(toks) and toks[i + 1].t in ('unwrap', 'expect') and toks[i + 2].t == '(':
            out += T('.must_be()', toks[i].line)
            i = match(toks, i + 2) + 1; continue
        out.append(toks[i]); i += 1
    return out

def open_paren(toks):
    """Where the group ends with the last token starts."""
    depth = 0
    for k in range(len(toks) - 1, -1, -1):
        if toks[k].t in (')', ']', '}') and toks[k].k == 'p': depth += 1
        elif toks[k].t in ('(', '[', '{') and toks[k].k == 'p':
            depth -= 1
            if not depth: return k
    return 0

def unbox_future(ret, body):
    """A function that returns a boxed future is a function that gives what the future gives; when it is polled makes no difference to the contracts."""
    x = [t.t for t in ret]
    if 'dyn' not in x or 'Output' not in x or 'Future' not in x: return ret, body
    a = x.index('Output') + 2
    depth = 0
    for b in range(a, len(x)):
        if x[b] == '<': depth += 1
        elif x[b] == '>' and depth: depth -= 1
        elif x[b] == '>': break
    if body is None: return ret[a:b], body
    out, i = [], 0
    while i < len(body):
        if [t.t for t in body[i:i + 4]] == ['Box', '::', 'pin', '(']:
            e = match(body, i + 3)
            if e + 1 < len(body) and body[e + 1].t != ';' or e + 1 < len(body) and not (i and body[i - 1].t == 'return'): raise Drift('a boxed future that is not returned at once')
            inner = body[i + 4:e]
            if inner and inner[0].t == 'async':
                inner = inner[1:]
                if inner[0].t == 'move': inner = inner[1:]
            if inner and inner[-1].t == ',': inner = inner[:-1]
            out += inner; i = e + 1; continue
        out.append(body[i]); i += 1
    return ret[a:b], out

def described(body, i):
    """Whether the closure that starts at `i` states its result."""
    j = i
    while body[i].t == '|' and j + 1 < len(body) and body[j + 1].t != '|': j += 1
    return j + 2 < len(body) and body[i].t == '|' and body[j + 2].t == '->'

def calls_of_closures(body, names):
    """Calls of a closure given as argument."""
    out, i = [], 0
    names = set(names)
    for i in range(len(body) - 4):
        x = [t.t for t in body[i:i + 6]]
        k = 2 if x[1] == 'mut' else 1
        if x[0] == 'let' and x[k + 1] == '=' and x[k + 2] in names and x[k + 3] == ';': names.add(x[k])
    i = 0
    while i < len(body):
        x = [t.t for t in body[i:i + 4]]
        if x[0] == '(' and len(x) == 4 and x[1] in names and x[2] == ')' and x[3] == '(':
            out += [body[i + 1]] + T('.call_closure', body[i].line); i += 3; continue
        if x[0] in names and len(x) > 1 and x[1] == '(' and (not out or out[-1].t not in ('.', '::', 'fn')):
            out += [body[i]] + T('.call_closure', body[i].line); i += 1; continue
        out.append(body[i]); i += 1
    return out

def drop_await(toks, awaited=()):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == '.' and i + 1 < len(toks) and toks[i + 1].t == 'await':
            prev = out[-1].t if out else ''
            if prev != ')' or len(out) > 2 and out[open_paren(out) - 1].t in awaited:
                out += T('.wait()', toks[i].line)
            i += 2; continue
        out.append(toks[i]); i += 1
    return out

def futures_for_later(toks, names):
    """A future that is made but not awaited yet: `x.run()` becomes `x.run_later()`. Pinning does nothing to it."""
    out, i = [], 0
    while i < len(toks):
        x = [t.t for t in toks[i:i + 8]]
        k = 2 if x[:2] in (['tokio', '::'], ['std', '::'], ['core', '::']) else 0
        if k and x[2:4] == ['pin', '::']: k = 4
        if x[k:k + 3] == ['pin', '!', '('] and (k or not out or out[-1].t != '::'):
            e = match(toks, i + k + 2)
            arg = toks[i + k + 3:e]
            if not out or out[-1].t in (';', '{', '}'):
                i = e + 1
                if i < len(toks) and toks[i].t == ';': i += 1
            else:
                out += futures_for_later(arg, names); i = e + 1
            continue
        if toks[i].t in names and toks[i].k == 'id' and out and out[-1].t == '.' and i + 1 < len(toks) and toks[i + 1].t == '(':
            e = match(toks, i + 1)
            if [t.t for t in toks[e + 1:e + 3]] != ['.', 'await']:
                out += T(toks[i].t + '_later', toks[i].line); i += 1; continue
        out.append(toks[i]); i += 1
    return out

def parsing(toks):
    """`p.call(f)` is `f(p)`, `p.peek(T)` is `p.peek_::<T>()` and `syn::braced!(b in p)` is what the macro stands for."""
    toks = list(toks)
    owned = set()
    for i in range(len(toks) - 3):
        if toks[i].t == 'braced' and toks[i + 1].t == '!' and toks[i + 4].t == 'in': owned.add(toks[i + 3].t)
    i = 0
    while i < len(toks):
        t, ln = toks[i], toks[i].line
        if t.t == 'let' and i + 2 < len(toks) and toks[i + 1].t in owned and toks[i + 2].t == ';':
            toks[i + 1:i + 1] = T('mut', ln)
        elif t.t == 'braced' and i + 1 < len(toks) and toks[i + 1].t == '!':
            e = match(toks, i + 2)
            s = i - 2 if i >= 2 and toks[i - 1].t == '::' and toks[i - 2].t == 'syn' else i
            b, p = toks[i + 3].t, ''.join(x.t + ' ' for x in toks[i + 5:e])
            toks[s:e + 1] = T('match syn::parse::parse_braces_(%s) { Ok(braces_) => { %s = braces_.content; braces_.token } Err(e_) => { return Err(e_) } }' % ('&mut ' + p if p.strip() in owned else '&mut *' + p, b), ln)
            i = s
        elif t.t == '.' and i + 2 < len(toks) and toks[i + 2].t == '(' and toks[i + 1].t in ('call', 'peek') and i > 0 and toks[i - 1].k == 'id':
            e = match(toks, i + 2)
            p = toks[i - 1].t
            arg = toks[i + 3:e]
            if toks[i + 1].t == 'peek': toks[i:e + 1] = T('.peek_::<', ln) + arg + T('>()', ln)
            else:
                toks[i - 1:e + 1] = arg + T('(%s %s)' % ('&mut' if p in owned else '&mut *', p), ln)
                i -= 1
        i += 1
    return toks

def strip_unsupported(toks):
    """Attributes inside bodies and `use` statements."""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == '#' and i + 1 < len(toks) and toks[i + 1].t == '[':
            i = match(toks, i + 1) + 1; continue
        if toks[i].t == 'use' and (i == 0 or toks[i - 1].t in (';', '{', '}')):
            while toks[i].t != ';': i += 1
            i += 1; continue
        out.append(toks[i]); i += 1
    return out

def add_ghost_args(toks, ghost_names, ghost_paths, self_type=None):
    i = 0
    toks = list(toks)
    while i < len(toks):
        t = toks[i]
        if t.k == 'id' and i + 1 < len(toks) and toks[i + 1].t == '(':
            hit = False
            if i > 0 and toks[i - 1].t == '.' and t.t in ghost_names:
                hit = True
            elif i > 1 and toks[i - 1].t == '::' and ((self_type if toks[i - 2].t == 'Self' else toks[i - 2].t) or '') + '::' + t.t in ghost_paths:
                hit = True
            elif t.t in ghost_paths and not (i > 0 and toks[i - 1].t in ('.', '::', 'fn')):
                hit = True
            if hit:
                e = match(toks, i + 1)
                arg = toks[i + 2:e]
                add = T('Tracked(w)', toks[e].line)
                if arg and arg[-1].t != ',':
                    add = T(',', toks[e].line) + add
                toks[e:e] = add
        i += 1
    return toks

def find_loops(toks):
    """Indices of the loop keywords, with the index of the opening brace of their body."""
    out = []
    for i, t in enumerate(toks):
        if t.k == 'id' and t.t in ('loop', 'while', 'for') and not (t.t == 'for' and i + 1 < len(toks) and toks[i + 1].t == '<'):
            j = i + 1
            while toks[j].t != '{':
                if toks[j].t in OPEN:
                    j = match(toks, j)
                j += 1
            out.append((i, j))
    return out

class Emitter:
    def __init__(self):
        self.lines = []
        self.fn_ranges = []      # (first line, last line, unit function name, tags)
        self.tags = {}           # line -> set of tags
    def put(self, text, tags=None):
        for l in text.split('\n'):
            self.lines.append(l)
            if tags:
                self.tags[len(self.lines)] = set(tags)
    def n(self):
        return len(self.lines)

TAGRE = re.compile(r'^(\s*)(requires|ensures|invariant_except_break|invariant|decreases)\s*(?:\[([C0-9 ]+)\])?\s*(.*)$')
INLINETAG = re.compile(r'//\s*\[([C0-9 ]+)\]\s*$')

class Contract:
    def __init__(self, name, params, ret, ghost, rename):
        self.name, self.params, self.ret, self.ghost, self.rename = name, params, ret, ghost, rename
        self.text = []        # (line, tags)
        self.before = {}      # n -> [(line,tags)]: ghost text before the n-th loop
        self.loops = {}       # n -> (iter, [(line,tags)])
        self.proof = []
        self.locals = []      # (name used in the contract, how to find the local variable meant)
        self.loop_proof = {}  # n -> proof text at the start of the loop body
        self.default = []     # tags of the function as a whole

def parse_head(s):
    m = re.match(r'^\s*(\w+)\s*\(([^)]*)\)\s*(?:->\s*(\w+))?\s*(.*)$', s)
    if not m: raise SystemExit('bad directive: ' + s)
    name, params, ret, rest = m.groups()
    words = rest.split()
    ghost = 'ghost' in words
    rename = words[words.index('as') + 1] if 'as' in words else None
    c = Contract(name, [p.strip() for p in params.split(',') if p.strip()], ret, ghost, rename)
    m = re.search(r'\[([C0-9 ]+)\]', rest)
    if m: c.default = m.group(1).split()
    c.optional = 'optional' in words
    c.noisolation = 'noisolation' in words
    c.rlimit = next((x[7:] for x in words if x.startswith('rlimit=')), None)
    c.generics = rest.split(' generics ', 1)[1] if ' generics ' in rest else None
    return c

class Template:
    """The directives of a template, parsed."""
    def __init__(self, path):
        self.flags = []
        self.parts = []   # ('text', line) | ('const', file, name) | ('type', file, name) | ('impl', {...}) | ('free', file, Contract)
        cur = None; impl = None; free = None; sec = None; tags = []
        for raw in (open(path) if isinstance(path, str) else path):
            line = raw.rstrip('\n')
            s = line.strip()
            if s.startswith('//@'):
                d, _, rest = s[3:].partition(' ')
                if d == 'const': self.parts.append(('const',) + tuple(rest.split()))
                elif d == 'type':
                    w = rest.split(None, 2)
                    self.parts.append(('type', w[0], w[1], w[2] if len(w) > 2 else ''))
                elif d == 'impl':
                    w = rest.split()
                    impl = dict(target=next((x[4:] for x in w if x.startswith('for=')), None), file=w[0], type=w[1], trait=None, inherent=False, world=next((x[6:] for x in w if x.startswith('world=')), None), fns=[], skip=set(), header=None, text=[])
                    if len(w) > 3 and w[2] == 'for':
                        raise SystemExit('use: impl FILE TYPE of TRAIT')
                    if len(w) > 3 and w[2] == 'of': impl['trait'] = w[3]
                    if 'inherent' in w: impl['inherent'] = True
                    if ' = ' in rest: impl['header'] = rest.split(' = ', 1)[1]
                    cur = None
                    self.parts.append(('impl', impl))
                elif d == 'fn':
                    cur = parse_head(rest); impl['fns'].append(cur); sec = cur.text; tags = []
                elif d == 'loop':
                    w = rest.split()
                    sec = []
                    cur.loops[int(w[0])] = (w[1] if len(w) > 1 else None, sec); tags = []
                elif d == 'proof' and rest.strip(): sec = cur.loop_proof.setdefault(int(rest), []); tags = []
                elif d == 'proof': sec = cur.proof; tags = []
                elif d == 'before': sec = cur.before.setdefault(int(rest), []); tags = []
                elif d == 'local':
                    w = rest.split(None, 1); cur.locals.append((w[0], re.compile(w[1])))
                elif d == 'skip': impl['skip'] |= set(rest.split())
                elif d == 'members': cur = None; sec = impl['text']; tags = []
                elif d == 'endimpl': impl = None; cur = None; sec = None
                elif d == 'free':
                    f, _, r = rest.partition(' ')
                    cur = parse_head(r); self.parts.append(('free', f, cur)); sec = cur.text; tags = []; free = True
                elif d == 'endfree': free = None; cur = None; sec = None
                elif d == 'ghostnames': self.parts.append(('ghostnames', rest.split()))
                elif d == 'later': self.parts.append(('later', rest.split()))
                elif d == 'awaited': self.parts.append(('awaited', rest.split()))
                elif d == 'ghostpaths': self.parts.append(('ghostpaths', rest.split()))
                elif d == 'flags': self.flags += rest.split()
                elif d == 'interfaces': self.parts.append(('interfaces', rest.strip()))
                elif d == 'include': self.parts.append(('include', rest.strip()))
                else: raise SystemExit('unknown directive ' + s)
                continue
            if sec is not None:
                m = TAGRE.match(line)
                if m:
                    tags = m.group(3).split() if m.group(3) else []
                    line = m.group(1) + m.group(2) + ' ' + m.group(4)
                lt = tags
                m = INLINETAG.search(line)
                if m:
                    lt = m.group(1).split()
                    line = line[:m.start()].rstrip()
                sec.append((line, lt))
            elif impl is None and not free:
                self.parts.append(('text', line))

def generated(toks):
    """Generated code refers to the library as `::fizyr_rpc`."""
    out, i = [], 0
    while i < len(toks):
        x = [t.t for t in toks[i:i + 7]]
        if x[:3] == ['::', 'fizyr_rpc', '::']:
            out += T('rpc ::', toks[i].line); i += 5 if x[3:5] == ['format', '::'] else 3; continue
        if x[:2] in (['::', 'core'], ['::', 'std']) and (not out or out[-1].k == 'p' and out[-1].t != '>' or out[-1].t in ('for', 'in', 'return', 'as', 'dyn', 'impl', 'where', 'mut', 'else')):
            i += 1; continue
        if x[:6] == ['std', '::', 'boxed', '::', 'Box', '::'] and toks[i + 6].t == 'new':
            out += T('boxed_error', toks[i].line); i += 7; continue
        out.append(toks[i]); i += 1
    return out

class Source:
    def __init__(self, root, expanded=None):
        self.root = root
        self.expanded = expanded
        self.cache = {}
    def module(self, path):
        """The items of a module of the generated code."""
        if '@' not in self.cache:
            try: self.cache['@'] = parse_items(generated(lex(open(self.expanded).read())))
            except (OSError, TypeError, LexError) as e: raise Drift('generated code: %s' % e)
        its = self.cache['@']
        for name in path.split('::'):
            m = [it for it in its if it.kind == 'mod' and it.name == name]
            if len(m) != 1: raise Drift('generated code: no module %s' % path)
            its = m[0].items
        return [it for it in its if not it.is_test()]
    def items(self, file):
        if file.startswith('@'): return self.module(file[1:])
        if file not in self.cache:
            p = file if file.startswith('/') else os.path.join(self.root, file)
            try:
                p, _, mod = p.partition('#')
                its = parse_items(lex(open(p).read()))
                if mod: its = [x for it in its if it.kind == 'mod' and it.name == mod and it.items is not None for x in it.items]
            except (OSError, LexError) as e:
                raise Drift('%s: %s' % (file, e))
            flat = []
            def walk(its, cfg):
                for it in its:
                    if it.is_test(): continue
                    flat.append(it)
                    if it.kind == 'mod' and it.items is not None: walk(it.items, cfg)
            walk(its, None)
            self.cache[file] = flat
        return self.cache[file]
    def find(self, file, kinds, name):
        r = [it for it in self.items(file) if it.kind in kinds and it.name == name]
        if len(r) != 1:
            raise Drift('%s: expected one %s %s, found %d' % (file, '/'.join(kinds), name, len(r)))
        return r[0]
    def files(self):
        if 'files' not in self.cache:
            self.cache['files'] = sorted(os.path.relpath(os.path.join(d, f), self.root) for d, _, fs in os.walk(self.root) for f in fs if f.endswith('.rs'))
        return self.cache['files']
    def consts(self, file):
        """The constants of a file: name -> (expression, type)."""
        out = {}
        for it in [x for y in self.items(file) for x in [y] + (y.items or [] if y.kind == 'impl' else [])]:
            if it.kind != 'const': continue
            k = [t.t for t in it.toks]
            if '=' in k and ':' in k and k[-1] == ';': out[it.name] = (it.toks[k.index('=') + 1:-1], it.toks[k.index(':') + 1:k.index('=')])
        return out
    def all_consts(self):
        if 'consts' not in self.cache:
            self.cache['consts'] = {}
            for f in self.files():
                for n, c in self.consts(f).items(): self.cache['consts'][n] = None if n in self.cache['consts'] else c
        return self.cache['consts']
    def impls(self, file, ty, trait):
        out = []
        for it in self.items(file):
            if it.kind == 'trait' and it.name == ty and trait == 'trait': out.append(it)
            if it.kind == 'impl':
                tr, t, trt, tt = impl_target(it)
                if t == ty and (trait is None) == (tr is None) and (trait is None or trt.replace(' ', '') == trait or tr == trait):
                    out.append(it)
        return out

def pub_fields(body, kind):
    """Make the fields of a struct public (needed because specs mention them)."""
    out = []
    i = 0
    fields = split_commas(body)
    res = []
    for f in fields:
        j = 0
        while j < len(f) and f[j].t == '#':
            j = match(f, j + 1) + 1
        f = f[j:]
        if not f: continue
        if f[0].t == 'pub':
            f = f[1:]
            if f and f[0].t == '(': f = f[match(f, 0) + 1:]
        if kind == 'struct':
            f = T('pub', f[0].line) + f
        else:
            # enum variant: attributes of inner fields
            k = 0
            g = []
            while k < len(f):
                if f[k].t == '#' and k + 1 < len(f) and f[k + 1].t == '[':
                    k = match(f, k + 1) + 1; continue
                g.append(f[k]); k += 1
            f = g
        res.append(f)
    out = []
    for f in res:
        out += f + T(',', f[-1].line)
    return out

class Gen:
    def __init__(self, root, template, here, degraded=None, vacuity=False, alt=None, expanded=None, fixture=None, force=None):
        self.vacuity = vacuity
        self.alt = alt or {}                   # function -> how its combinators are read, see `desugar`
        self.ambiguous = set()
        self.degraded = dict(degraded or {})   # function -> why its body is not verified in this run
        self.lost = {}                         # function -> why its contract could not even be stated
        self.src = Source(root, expanded)
        self.fixture = fixture or os.path.join(here, '..', 'fixture')
        self.flags = []
        self.em = Emitter()
        self.drift = []            # reasons why the proof can not be redone
        self.notes = []
        self.functions = []        # functions under contract
        self.ghost_names = set()
        self.ghost_paths = set()
        self.awaited = set()       # functions whose result is a future of the code under contract
        self.later = set()         # async functions whose futures may be awaited later
        self.here = here
        self.parts = self.load(template)
        self.inlined = []
        self.force = force or {}   # function -> [(method, type)]: methods without a contract, of other types, to be inlined
        self.contracted = set()    # (file, type, function)
        self.known_consts = set()
        self.closures = set()      # functions with a closure that is not written out: the verifier knows nothing of its result

    def load(self, template):
        parts = []
        t = Template(os.path.join(self.here, template) if isinstance(template, str) else template)
        self.flags += t.flags
        for p in t.parts:
            if p[0] == 'include':
                parts += self.load(p[1])
            elif p[0] == 'interfaces':
                what = iface.introspection if p[1].endswith(' introspection') else iface.interface
                text = open(os.path.join(self.fixture, 'src/lib.rs')).read()
                for n in iface.types(text):
                    parts += [('text', '#[verifier::external_body]'), ('text', 'pub struct %s { x: () }' % n)]
                for name, d in iface.parse(text).items():
                    parts += self.load(what('@' + name, name, d))
                    self.flags += ['--verify-module', name] + [x for s in d['services'] if what is iface.interface for x in ('--verify-module', name + '::' + s['name'])]
            else:
                parts.append(p)
        return parts

    def run(self):
        # first pass: names of the functions that take the ghost argument
        for p in self.parts:
            if p[0] == 'ghostnames': self.ghost_names |= set(p[1])
            elif p[0] == 'ghostpaths': self.ghost_paths |= set(p[1])
            elif p[0] == 'awaited': self.awaited |= set(p[1])
            elif p[0] == 'later': self.later |= set(p[1]); self.ghost_names |= {n + '_later' for n in p[1]}
            elif p[0] == 'const': self.known_consts.add(p[2])
            elif p[0] == 'text': self.known_consts |= set(re.findall(r'\bconst (\w+)', p[1]))
            elif p[0] == 'impl':
                for c in p[1]['fns']:
                    self.contracted.add((p[1]['file'], p[1]['type'], c.name))
                    if c.ghost:
                        self.ghost_names.add(c.rename or c.name)
                        self.ghost_paths.add(p[1]['type'] + '::' + c.name)
            elif p[0] == 'free':
                self.contracted.add((p[1], None, p[2].name))
                if p[2].ghost: self.ghost_paths.add(p[2].name)
        for p in self.parts:
            if p[0] == 'text': self.em.put(p[1])
            elif p[0] == 'const': self.emit_const(p[1], p[2])
            elif p[0] == 'type': self.emit_type(p[1], p[2], p[3])
            elif p[0] == 'impl': self.emit_impl(p[1])
            elif p[0] == 'free':
                it = self.src.find(p[1], ('fn',), p[2].name)
                self.emit_fn(it, p[2], p[1], p[2].name, {})
        return '\n'.join(self.em.lines) + '\n'

    def emit_const(self, file, name):
        it = self.src.find(file, ('const',), name)
        self.em.put('pub ' + untok(norm((it.toks))).replace('\n', ' '))

    def emit_type(self, file, name, attrs):
        it = self.src.find(file, ('struct', 'enum'), name)
        head = norm(it.header)
        if attrs: self.em.put(attrs)
        if it.body is None:
            # tuple or unit struct
            self.em.put('pub ' + untok(norm((it.toks))))
            return
        body = norm((it.body))
        self.em.put('pub ' + untok(head) + ' {')
        self.em.put(untok(pub_fields(body, it.kind)))
        self.em.put('}')

    def emit_impl(self, d):
        impls = self.src.impls(d['file'], d['type'], d['trait'])
        if d['target']: impls = [im for im in impls if any(t.t == d['target'] for t in im.header)]
        if not impls:
            raise Drift('%s: no impl of %s%s' % (d['file'], d['type'], ' (%s)' % d['trait'] if d['trait'] else ''))
        if d['trait'] and len(impls) != 1:
            raise Drift('%s: %d impls of %s for %s' % (d['file'], len(impls), d['trait'], d['type']))
        wanted = {c.name: c for c in d['fns']}
        found = set()
        for n, im in enumerate(impls):
            fns = [x for x in im.items if x.kind == 'fn' and not x.is_test() and (im.kind == 'impl' or x.body is not None)]
            if d['trait'] and (d['inherent'] or d['header']):
                assoc = {}
                for x in im.items:
                    if x.kind == 'type' and im.kind == 'impl':
                        k = [t.t for t in x.toks].index('=')
                        assoc[x.name] = x.toks[k + 1:-1] if x.toks[-1].t == ';' else x.toks[k + 1:]
                for f in fns:
                    f.header = self.subst_assoc(f.header, assoc)
                    if f.body is not None: f.body = self.subst_assoc(f.body, assoc)
            names = {f.name for f in fns}
            todo = [f for f in fns if f.name in wanted]
            # Functions without a contract: helpers that can be inlined into their callers.
            extra = [f for f in fns if f.name not in wanted and f.name not in d['skip'] and '*' not in d['skip']]
            helpers = {f.name: f for f in extra}
            if not todo and not (n == 0 and d['text']):
                continue
            head = norm((im.header))
            if d['header']:
                htext = d['header']
            elif d['inherent']:
                # drop `Trait for`
                i = 1
                if head[1].t == '<': i = skip_generics(head, 1)
                k = i
                while head[k].t != 'for':
                    if head[k].t == '<': k = skip_generics(head, k); continue
                    k += 1
                htext = untok(head[:i]) + ' ' + untok(head[k + 1:])
            else:
                htext = untok(head)
            self.em.put(htext + ' {')
            if d['trait'] and not d['inherent']:
                for x in im.items:
                    if x.kind == 'type' and im.kind == 'impl' and x.name not in d['skip']:
                        self.em.put(untok(norm((x.toks))))
            if n == 0 or (d['text'] and not getattr(self, '_x', None) == d):
                for l, tags in d['text']: self.em.put(l, tags)
                self._x = d
            for f in todo:
                found.add(f.name)
                self.emit_fn(f, wanted[f.name], d['file'], self.qual(d, wanted[f.name]), helpers, trait=bool(d['trait']) and not d['inherent'], world=d['world'])
            self.em.put('}')
        missing = {n for n in set(wanted) - found if not wanted[n].optional}
        for m in sorted(missing):
            # Its callers can only be verified if they do without it (or use a helper that is inlined).
            self.lose(wanted[m], self.qual(d, wanted[m]), d['file'], 'there is no such function any more')

    def qual(self, d, c):
        if d['file'].startswith('@'): return d['file'][1:] + '::' + d['type'] + '::' + (c.rename or c.name)
        return d['type'] + '::' + c.name

    def subst_assoc(self, toks, assoc):
        out, i = [], 0
        while i < len(toks):
            if toks[i].t == 'Self' and i + 2 < len(toks) and toks[i + 1].t == '::' and toks[i + 2].t in assoc:
                out += [Tok(t.t, toks[i].line, t.k) for t in assoc[toks[i + 2].t]]
                i += 3; continue
            out.append(toks[i]); i += 1
        return out

    def lose(self, c, qual, file, why):
        tags = set(c.default)
        for l, ts in c.text: tags |= set(ts)
        self.lost[qual] = (why, sorted(tags))

    def emit_fn(self, it, c, file, qual, helpers, trait=False, world=None):
        is_async, name, gen, params, ret, where = fn_parts(it)
        flat = [t.t for t in list(gen) + list(where)]
        closures = []
        it_body = it.body
        boxed = None
        try: ret, it_body = unbox_future(ret, it.body)
        except Drift as e: boxed = str(e); ret, _ = unbox_future(ret, None)
        ps = split_commas(params)
        # parameter names, for renaming the names used in the contract
        actual = []
        for p in ps:
            if any(t.t == 'self' for t in p[:4]) : continue
            q = [t for t in p]
            if q[0].t == 'mut': q = q[1:]
            if len(q) == 3 and q[1].t == ':' and any(flat[k:k + 2] == [q[2].t, ':'] and flat[k + 2] in ('Fn', 'FnMut', 'FnOnce') for k in range(len(flat) - 2)): closures.append(q[0].t)
            if len(q) > 1 and q[1].t == ':': actual.append(q[0].t)
            else: actual.append(None)
        ren = {}
        if len(actual) != len(c.params):
            self.lose(c, qual, file, 'it takes %d parameters, the contract has %d' % (len(actual), len(c.params)))
            return
        for a, b in zip(c.params, actual):
            if b and a != b: ren[a] = b
        def rn(text):
            for a, b in ren.items():
                text = re.sub(r'(?<![\w.])%s\b' % re.escape(a), b, text)
            return text
        try:
            if qual in self.degraded: raise Drift(self.degraded[qual])
            if boxed: raise Drift(boxed)
            body = list(it_body)
            if closures: body = calls_of_closures(body, closures)
            body = self.inline(body, helpers, qual, file, norm(ret))
            body = self.consts(body, file)
            body = self.transform(body, qual, norm(ret))
            if any(body[i].t in ('|', '||') and (i == 0 or body[i - 1].t in ('(', ',', '=', 'move', 'return', '{', ';')) and not described(body, i) for i in range(len(body))): self.closures.add(qual)
            flat = ' '.join(t.t for t in body)
            for a, pat in c.locals:
                m = pat.search(flat)
                if m and m.group(1) != a: ren[a] = m.group(1)
            loops = find_loops(body)
            if len(loops) != len(c.loops):
                raise Drift('%s has %d loops, the contract has %d' % (qual, len(loops), len(c.loops)))
            for n in range(len(loops)):
                if any(re.match(r'\s*ensures\b', l) for l, _ in c.loops[n][1]): body = while_to_loop(body, n)
            loops = find_loops(body)
        except Drift as e:
            self.degraded[qual] = str(e)
            body = None
        start = self.em.n() + 1
        sig = ('' if trait else 'pub ') + 'fn ' + (c.rename or name) + ('' if c.generics == 'none' else c.generics.split(' where ')[0] if c.generics else untok(gen))
        pst = norm((params))
        if [t.t for t in pst[:2]] == ['mut', 'self'] and (len(pst) == 2 or pst[2].t == ','):
            # a parameter that is a variable
            pst = pst[1:]
            if body is not None:
                body = T('let mut self_ = self ;', it.line) + [Tok('self_', t.line, t.k) if t.t == 'self' and t.k == 'id' else t for t in body]
                loops = find_loops(body)
        ptxt = untok(pst).replace('\n', ' ').strip().rstrip(',')
        ptxt = re.sub(r'^(?:mut )?self\s*:\s*(&\s*(?:mut\s+)?)?Self\b', lambda m: (m.group(1) or '') + 'self', ptxt)
        if c.ghost:
            ptxt = (ptxt + ', ' if ptxt else '') + 'Tracked(w): Tracked<&mut World<%s>>' % (world or '()')
        sig += '(' + ptxt + ')'
        rt = untok(norm((ret))).replace('\n', ' ').strip()
        if c.ret:
            sig += ' -> (%s: %s)' % (c.ret, rt or '()')
        elif rt:
            sig += ' -> ' + rt
        wt = untok(norm((where))).replace('\n', ' ').strip()
        if c.generics and ' where ' in c.generics: sig += ' where ' + c.generics.split(' where ', 1)[1] + ','
        if wt and not c.generics: sig += ' where ' + wt.rstrip(',') + ','
        if not c.loops or True:
            self.em.put('#[verifier::exec_allows_no_decreases_clause]')
            if c.rlimit: self.em.lines[-1] += ' #[verifier::rlimit(%s)]' % c.rlimit
            if c.noisolation: self.em.lines[-1] += ' #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]'
        self.em.put(sig)
        text = list(c.text)
        if c.ret and re.match(r'Result\s*<\s*\(\s*\)\s*,', rt):
            # A fact that always holds, but that the solver does not find by itself: there is only one value of the unit type.
            at = next((k for k, (l, _) in enumerate(text) if re.match(r'\s*decreases\b', l)), len(text))
            text[at:at] = [('ensures %s is Ok ==> %s->Ok_0 == (),' % (c.ret, c.ret), [])]
        self.sections([(rn(l), tags or c.default) for l, tags in text])
        self.em.put('{')
        if body is None:
            self.em.lines[start - 1] = '#[verifier::external_body]'
            self.em.put('unimplemented!()')
            self.em.put('}')
            self.finish(c, start, qual, file, it)
            return
        for l, tags in c.proof: self.em.put(rn(l), tags)
        if self.vacuity: self.em.put('assert(false);')
        # body with loop contracts
        pos = 0
        for k, (kw, br) in enumerate(loops):
            itname, text = c.loops[k]
            seg = body[pos:br]
            if itname and body[kw].t == 'for':
                # `for PAT in EXPR` -> `for PAT in it: EXPR`
                off = kw - pos
                j = off
                while seg[j].t != 'in': j += 1
                seg = seg[:j + 1] + T(itname + ':', seg[j].line) + seg[j + 1:]
            if k in c.before:
                at = kw - pos
                if at >= 2 and seg[at - 1].t == ':' and seg[at - 2].t.startswith("'"): at -= 2
                if at and seg[at - 1].t not in (';', '{', '}'): raise Drift('a loop is part of an expression')
                self.em.put(untok(seg[:at]))
                for l, tags in c.before[k]: self.em.put(rn(l), tags)
                seg = seg[at:]
            self.em.put(untok(seg))
            self.sections([(rn(l), tags or c.default) for l, tags in text])
            pos = br
            if k in c.loop_proof:
                self.em.put('{')
                for l, tags in c.loop_proof[k]: self.em.put(rn(l), tags)
                pos = br + 1
        self.em.put(untok(body[pos:]))
        self.em.put('}')
        self.finish(c, start, qual, file, it)

    def finish(self, c, start, qual, file, it):
        alltags = set(c.default)
        for l, tags in c.text + [x for _, ts in c.loops.values() for x in ts]:
            alltags |= set(tags)
        self.em.fn_ranges.append((start, self.em.n(), qual, sorted(alltags), file))
        clauses = sum(1 for l, ts in c.text + [x for _, ts in c.loops.values() for x in ts] if l.strip() and not l.strip().startswith('//'))
        self.functions.append(dict(function=qual, file=file, line=it.line, tags=sorted(alltags), default=sorted(c.default),
            emitted='::'.join(qual.split('::')[:-1] + [c.rename or c.name]) if '::' in qual else (c.rename or c.name), contract_lines=clauses))

    def sections(self, text):
        """Merge repeated `requires`, `ensures` and `invariant` keywords and put commas between clauses."""
        cur, prev = None, None
        out = []
        for l, tags in text:
            m = TAGRE.match(l)
            if m:
                if prev is not None and not out[prev][0].rstrip().endswith(','):
                    out[prev] = (out[prev][0] + ',', out[prev][1])
                if m.group(2) == cur:
                    l = m.group(1) + '  ' + m.group(4)
                cur = m.group(2)
            out.append((l, tags))
            if l.strip() and not l.strip().startswith('//'): prev = len(out) - 1
        if prev is not None and not out[prev][0].rstrip().endswith(','):
            out[prev] = (out[prev][0] + ',', out[prev][1])
        for l, tags in out: self.em.put(l, tags)

    def transform(self, body, qual, ret):
        self_type = qual.split('::')[-2] if '::' in qual else ''
        kinds = ['Option', 'Result', 'Poll', None] if ret and ret[0].t == 'Option' else ['Result', 'Option', 'Poll', None]
        kind = kinds[min(self.alt.get(qual, 0), 3)]
        body = strip_unsupported(body)
        body = parsing(body)
        body = norm(body)
        body = unpin_self(body)
        if self.later: body = futures_for_later(body, self.later)
        body = drop_await(body, self.awaited)
        body = unwraps(body)
        if any(body[i].t == '.' and body[i + 1].t in ('map', 'and_then', 'map_err') for i in range(len(body) - 1)): self.ambiguous.add(qual)
        body = desugar(body, kind)
        body = casts(body)
        body = mut_ranges(body)
        body = collections(body)
        body = for_to_loop(body)
        body = desugar_question(body, ret)
        body = add_ghost_args(body, self.ghost_names | {'wait'}, self.ghost_paths, self_type)
        return body

    def consts(self, body, file):
        """Constants that no template names are replaced by what they stand for."""
        body = list(body)
        local = {}
        i = 0
        while i + 3 < len(body):
            if body[i].t == 'const' and body[i + 1].k == 'id' and body[i + 2].t == ':' and (i == 0 or body[i - 1].t in (';', '{', '}')):
                e = i
                while body[e].t != ';': e = match(body, e) + 1 if body[e].t in ('(', '[', '{') else e + 1
                eq = next((k for k in range(i, e) if body[k].t == '='), None)
                if eq is None: break
                local[body[i + 1].t] = (body[eq + 1:e], body[i + 3:eq])
                del body[i:e + 1]; continue
            i += 1
        known = None
        for _ in range(8):
            out, i, changed = [], 0, False
            while i < len(body):
                t = body[i]
                if t.k == 'id' and re.match(r'[A-Z][A-Z0-9_]+$', t.t) and (t.t not in self.known_consts or t.t in local) and not (i and body[i - 1].t == '.') and not (i + 1 < len(body) and body[i + 1].t in ('(', '::', '<', '!')):
                    if known is None: known = self.src.consts(file)
                    c = local.get(t.t) or known.get(t.t) or self.src.all_consts().get(t.t)
                    if c:
                        while len(out) > 1 and out[-1].t == '::' and out[-2].k == 'id': del out[-2:]
                        v = T('(', t.line) + [Tok(x.t, t.line, x.k) for x in c[0]] + T(')', t.line)
                        if len(c[1]) == 1 and c[1][0].t in ('u8', 'u16', 'u64', 'i64', 'usize', 'u32', 'i32') and len(c[0]) == 1 and re.match(r'[0-9_]+$|0x[0-9a-fA-F_]+$', c[0][0].t): v = T(c[0][0].t + c[1][0].t, t.line)
                        elif len(c[0]) == 1: v = v[1:-1]
                        out += v; changed = True; i += 1; continue
                out.append(t); i += 1
            body = out
            if not changed: break
        return body

    def helper_at(self, body, i, helpers, qual, file):
        """The function without a contract that is called at `i`, if there is one: (function, its type)."""
        name = body[i].t
        prev = body[i - 1].t if i else ''
        mine = qual.split('::')[-2] if '::' in qual else None
        if prev == '.':
            if name in helpers: return helpers[name], None
            for m, ty in self.force.get(qual, ()):
                if m == name: return self.method(file, ty, name), ty
        elif prev == '::' and i > 1:
            ty = body[i - 2].t
            if ty == 'Self' or ty == mine: return helpers.get(name), None
            if body[i - 2].k == 'id' and ty[:1].isupper() and (i < 3 or body[i - 3].t not in ('::', '>')) and (file, ty, name) not in self.contracted: return self.method(file, ty, name), ty
            if ty in ('self', 'super'): prev = ''
        if prev not in ('.', '::', 'fn', '!') and (file, None, name) not in self.contracted and not file.startswith('@'):
            f = [it for it in self.src.items(file) if it.kind == 'fn' and it.name == name and it.body is not None]
            if len(f) == 1: return f[0], None
        return None, None

    def method(self, file, ty, name):
        """A method of a type, wherever its inherent implementations are."""
        files = [file] if file.startswith('@') else [file] + [f for f in self.src.files() if f != file]
        for f in files:
            if (f, ty, name) in self.contracted: return None
            r = [x for im in self.src.impls(f, ty, None) for x in im.items if x.kind == 'fn' and x.name == name and not x.is_test() and x.body is not None]
            if len(r) == 1: return r[0]
            if r: return None
        return None

    def inline(self, body, helpers, qual, file, caller_ret):
        """Inline calls of functions that have no contract of their own (extracted helpers)."""
        for _ in range(20):
            hit = None
            for i, t in enumerate(body):
                if t.k == 'id' and i + 1 < len(body) and body[i + 1].t == '(':
                    f, ty = self.helper_at(body, i, helpers, qual, file)
                    if f is not None: hit = i; break
            if hit is None: return body
            is_async, name, gen, params, ret, where = fn_parts(f)
            fail = Drift('can not inline %s into %s' % (name, qual))
            if f.name == qual.split('::')[-1]: raise fail
            fb = list(f.body)
            e = match(body, hit + 1)
            args = [a for a in split_top(body[hit + 2:e]) if a]
            ps = split_commas(params)
            selfp = None
            if ps and any(t.t == 'self' for t in ps[0][:4]):
                selfp = ps[0]; ps = ps[1:]
            if body[hit - 1].t == '.':
                s = expr_start(body, hit - 2)
                recv = body[s:hit - 1]
            else:
                s = hit
                while s > 1 and body[s - 1].t == '::': s -= 2
                recv = None
                if selfp is not None:
                    # called as a function of its receiver
                    if not args: raise fail
                    recv = args.pop(0)
                    while recv and recv[0].t in ('&', 'mut'): recv = recv[1:]
            if len(ps) != len(args) or (selfp is None) != (recv is None): raise fail
            generic = {t.t for t in gen if t.k == 'id'} if gen else set()
            if generic & {t.t for t in fb}: raise Drift('%s uses the generic helper %s, which has no contract' % (qual, name))
            end = e + 1
            if is_async and end + 1 < len(body) and body[end].t == '.' and body[end + 1].t == 'await':
                end += 2
            q = end < len(body) and body[end].t == '?'
            depth_ret = any(t.k == 'id' and t.t == 'return' for t in fb)
            depth_q = any(t.t == '?' for t in fb)
            tail = self.is_tail(body, s, end)
            if (depth_ret or depth_q) and not tail:
                # Leaving the helper early leaves the caller in the same way if the call is followed by `?`.
                def err(r):
                    r = [t.t for t in norm(list(r))]
                    poll = r[:2] == ['Poll', '<']
                    if poll: r = r[2:-1]
                    return (r[len(r) - 1 - r[::-1].index(','):] if r[:2] == ['Result', '<'] and ',' in r else None), poll
                (e1, p1), (e2, p2) = err(ret), err(caller_ret)
                if not (q and e1 and e1 == e2 and not p1) or any(t.k == 'id' and t.t == 'return' and [x.t for x in fb[k + 1:k + 3]] != ['Err', '('] for k, t in enumerate(fb)):
                    raise Drift('%s calls %s, which has no contract and can not be inlined' % (qual, name))
                if p2:
                    k = 0
                    while k < len(fb):
                        if fb[k].k == 'id' and fb[k].t == 'return':
                            x = match(fb, k + 2)
                            fb = fb[:k + 1] + T('Poll :: Ready (', fb[k].line) + fb[k + 1:x + 1] + T(')', fb[k].line) + fb[x + 1:]
                        k += 1
            ln = body[hit].line
            bound = {fb[k + 1].t for k in range(len(fb) - 1) if fb[k].t in ('let', 'mut', 'for', '|')} | {p[1].t if p[0].t == 'mut' else p[0].t for p in ps}
            new = T('{', ln)
            if ty is not None: fb = [Tok(ty, t.line, t.k) if t.t == 'Self' else t for t in fb]
            if recv is not None and [t.t for t in recv] != ['self']:
                if all(t.k == 'id' or t.t in ('.', '*') for t in recv) and recv[0].t not in bound:
                    nb = []
                    for t in fb:
                        if t.t == 'self': nb += recv
                        else: nb.append(t)
                    fb = nb
                elif [t.t for t in selfp] == ['self'] or [t.t for t in selfp] == ['mut', 'self']:
                    new += T('let ' + ' '.join(t.t for t in selfp[:-1]) + ' hself_ =', ln) + recv + T(';', ln)
                    fb = [Tok('hself_', t.line, t.k) if t.t == 'self' else t for t in fb]
                else:
                    raise fail
            def param(p):
                return p[:[t.t for t in p].index(':')] if any(t.t in generic or t.t == 'impl' for t in p) or ty is not None and any(t.t == 'Self' for t in p) else p
            names = [{t.t for t in p[:[t.t for t in p].index(':')]} for p in ps]
            if any(names[k] & {t.t for t in a} for k in range(len(ps)) for a in args[k + 1:]):
                for k, a in enumerate(args): new += T('let harg%d_ =' % k, ln) + a + T(';', ln)
                args = [T('harg%d_' % k, ln) for k in range(len(args))]
            for p, a in zip(ps, args):
                new += T('let', ln) + param(p) + T('=', ln) + a + T(';', ln)
            if q and ret and not any(t.t in generic or t.t == 'impl' for t in ret):
                new += T('let hres_ :', ln) + [Tok(ty, ln, t.k) if t.t == 'Self' and ty else t for t in norm(list(ret))] + T('= {', ln) + fb + T('} ; hres_ }', ln)
            else: new += fb + T('}', ln)
            if end < len(body) and body[end].t in ('.', '?') or s > 0 and body[s - 1].t in ('=', '(', ',', '&', '!', '*'): new = T('(', ln) + new + T(')', ln)
            self.inlined.append('%s into %s' % (name, qual))
            body = body[:s] + [Tok(t.t, ln, t.k) for t in new] + body[end:]
        raise Drift('too many nested helpers in ' + qual)

    def is_tail(self, body, s, end):
        """Is the expression the tail of the function body, or directly returned?"""
        if s > 0 and body[s - 1].t == 'return': return True
        return end == len(body) and (s == 0 or body[s - 1].t in (';', '}'))

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    g = Gen(sys.argv[1], sys.argv[2], here)
    sys.stdout.write(g.run())
    for k, v in list(g.degraded.items()) + list(g.lost.items()): sys.stderr.write('DEGRADED %s: %s\n' % (k, v))
