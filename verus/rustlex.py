"""A small Rust lexer and item parser.

It only knows what the extractor needs: tokens with their line numbers, balanced
groups, items of a module, and the functions of an impl or trait.
"""
import re

class LexError(Exception):
    pass

class Tok:
    __slots__ = ('t', 'line', 'k', 'glue')
    def __init__(self, t, line, k):
        self.t, self.line, self.k, self.glue = t, line, k, False
    def __repr__(self):
        return self.t

IDENT = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
NUMBER = re.compile(r"0x[0-9a-fA-F_]+[iu]?(?:8|16|32|64|128|size)?|0b[01_]+[iu]?(?:8|16|32|64|128|size)?|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[iuf](?:8|16|32|64|128|size))?")
LIFETIME = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*(?!')")
CHAR = re.compile(r"b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.))'")
STRING = re.compile(r'(?:b|c)?"(?:[^"\\]|\\.)*"', re.S)
RAWSTR = re.compile(r'(?:b|c)?r(#*)".*?"\1', re.S)
# Longest first. `>>` is deliberately not a token, because of nested generics.
PUNCT = ['..=', '...', '<<=', '::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '..', '<<']

def lex(src):
    toks = []
    i, line, n = 0, 1, len(src)
    while i < n:
        c = src[i]
        if c == '\n':
            line += 1; i += 1; continue
        if c.isspace():
            i += 1; continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            depth, j = 1, i + 2
            while depth:
                if j >= n:
                    raise LexError('unterminated comment')
                if src.startswith('/*', j): depth += 1; j += 2
                elif src.startswith('*/', j): depth -= 1; j += 2
                else: j += 1
            line += src.count('\n', i, j)
            i = j; continue
        m = RAWSTR.match(src, i)
        if m:
            toks.append(Tok(m.group(), line, 'str')); line += m.group().count('\n'); i = m.end(); continue
        m = STRING.match(src, i)
        if m:
            toks.append(Tok(m.group(), line, 'str')); line += m.group().count('\n'); i = m.end(); continue
        m = CHAR.match(src, i)
        if m:
            toks.append(Tok(m.group(), line, 'chr')); i = m.end(); continue
        m = LIFETIME.match(src, i)
        if m:
            toks.append(Tok(m.group(), line, 'life')); i = m.end(); continue
        m = IDENT.match(src, i)
        if m:
            toks.append(Tok(m.group(), line, 'id')); i = m.end(); continue
        m = NUMBER.match(src, i)
        if m:
            # `0..4`: do not eat the dot of a range (the regex needs a digit after the dot).
            toks.append(Tok(m.group(), line, 'num')); i = m.end(); continue
        for p in PUNCT:
            if src.startswith(p, i):
                toks.append(Tok(p, line, 'p')); i += len(p); break
        else:
            toks.append(Tok(c, line, 'p')); i += 1
            toks[-1].glue = c == '>' and i >= 2 and src[i - 2] == '>'
    return toks

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}

def match(toks, i):
    """Index of the token closing the group opened at i."""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.k == 'p':
            if t.t in OPEN: depth += 1
            elif t.t in CLOSE:
                depth -= 1
                if depth == 0:
                    return j
    raise LexError('unbalanced group at line %d' % toks[i].line)

def match_back(toks, i):
    depth = 0
    for j in range(i, -1, -1):
        t = toks[j]
        if t.k == 'p':
            if t.t in CLOSE: depth += 1
            elif t.t in OPEN:
                depth -= 1
                if depth == 0:
                    return j
    raise LexError('unbalanced group at line %d' % toks[i].line)

def skip_generics(toks, i):
    """toks[i] is '<': index after the matching '>'."""
    depth = 0
    j = i
    while j < len(toks):
        t = toks[j].t
        if t in OPEN:
            j = match(toks, j)
        elif t == '<': depth += 1
        elif t == '>':
            depth -= 1
            if depth == 0:
                return j + 1
        elif t == '<<': depth += 2
        j += 1
    raise LexError('unbalanced generics')

class Item:
    """kind: fn struct enum impl trait mod use const static type macro other."""
    def __init__(self, kind, name, attrs, toks, line):
        self.kind, self.name, self.attrs, self.toks, self.line = kind, name, attrs, toks, line
        self.items = None       # children of impl, trait and mod
        self.header = None      # tokens before the body
        self.body = None        # tokens inside the braces
        self.vis = []
    def is_test(self):
        a = ' '.join(''.join(t.t for t in at) for at in self.attrs)
        return 'cfg(test)' in a or 'tokio::test' in a or a == '[test]' or a.startswith('[test]')

KW = {'fn', 'struct', 'enum', 'impl', 'trait', 'mod', 'use', 'const', 'static', 'type', 'macro_rules', 'union', 'extern'}

def parse_items(toks):
    items = []
    i, n = 0, len(toks)
    while i < n:
        attrs = []
        start = i
        while i < n and toks[i].t == '#':
            j = i + 1
            inner = toks[j].t == '!'
            if inner: j += 1
            e = match(toks, j)
            if not inner:
                attrs.append(toks[j:e + 1])
            i = e + 1
        if i >= n:
            break
        if toks[i].t == ';':
            i += 1; continue
        line = toks[i].line
        vis = []
        if toks[i].t == 'pub':
            vis.append(toks[i]); i += 1
            if toks[i].t == '(':
                e = match(toks, i)
                vis += toks[i:e + 1]
                i = e + 1
        s = i
        # find the keyword, skipping qualifiers
        while toks[i].t in ('async', 'unsafe', 'default', 'crate') or (toks[i].t == 'const' and toks[i + 1].t in ('fn', 'async', 'unsafe')) or (toks[i].t == 'extern' and toks[i + 1].k == 'str'):
            i += 2 if toks[i].t == 'extern' else 1
        kw = toks[i].t
        if kw not in KW:
            # A macro invocation or something unknown: skip to the end of the group or to the semicolon.
            while i < n and toks[i].t not in (';', '{', '(', '['):
                i += 1
            if i < n and toks[i].t != ';':
                i = match(toks, i) + 1
                if i < n and toks[i].t == ';': i += 1
            else:
                i += 1
            items.append(Item('other', '', attrs, toks[s:i], line))
            continue
        # the body: first '{' at depth 0, or ';'
        j = i + 1
        if kw == 'macro_rules':
            name = toks[i + 2].t
            while toks[j].t not in OPEN or toks[j].t == '!': j += 1
            j = match(toks, j) + 1
            if j < n and toks[j].t == ';': j += 1
            items.append(Item('macro', name, attrs, toks[s:j], line)); i = j; continue
        name = toks[j].t if kw != 'impl' else ''
        body = None
        tuple_struct = False
        while True:
            if j >= n: raise LexError('item without end at line %d' % line)
            t = toks[j].t
            if t == ';': break
            if t == '{':
                # `use a::{b}` and `const X: T = { .. }` end with a semicolon
                e = match(toks, j)
                if kw in ('use', 'const', 'static', 'type'):
                    j = e + 1; continue
                body = (j, e); break
            if t in OPEN:
                j = match(toks, j) + 1; continue
            j += 1
        it = Item(kw, name, attrs, None, line)
        it.vis = vis
        if body:
            it.header = toks[s:body[0]]
            it.body = toks[body[0] + 1:body[1]]
            it.toks = toks[s:body[1] + 1]
            i = body[1] + 1
            if kw in ('impl', 'trait', 'mod'):
                it.items = parse_items(it.body)
        else:
            it.header = toks[s:j]
            it.toks = toks[s:j + 1]
            i = j + 1
        items.append(it)
    return items

def impl_target(it):
    """(trait name or None, type name) of an impl header: last path segments without generics."""
    h = it.header
    i = 1
    if h[0].t == 'unsafe': i = 2
    if i < len(h) and h[i].t == '<':
        i = skip_generics(h, i)
    def strip_path(ts):
        # Name of the outermost type: the last identifier before generics.
        out = []
        j = 0
        while j < len(ts):
            if ts[j].t == '<':
                j = skip_generics(ts, j); continue
            out.append(ts[j]); j += 1
        return out
    rest = []
    depth = 0
    j = i
    while j < len(h):
        if h[j].t == 'where': break
        rest.append(h[j]); j += 1
    # split at top-level `for`
    k, tr = 0, None
    pos = None
    while k < len(rest):
        if rest[k].t == '<':
            k = skip_generics(rest, k); continue
        if rest[k].t == 'for' and not (k + 1 < len(rest) and rest[k + 1].t == '<'):
            pos = k; break
        k += 1
    if pos is not None:
        tr = rest[:pos]; ty = rest[pos + 1:]
    else:
        ty = rest
    def last_ident(ts):
        ids = [x.t for x in strip_path(ts) if x.k == 'id']
        return ids[-1] if ids else ''.join(x.t for x in ts)
    def text(ts):
        return ''.join(x.t for x in ts)
    return (last_ident(tr) if tr else None, last_ident(ty), text(tr) if tr else None, text(ty))

def fn_parts(it):
    """Split the header of a function: (is_async, name, generics, params, ret, where) as token lists."""
    h = it.header
    i = 0
    is_async = False
    while h[i].t != 'fn':
        if h[i].t == 'async': is_async = True
        i += 1
    name = h[i + 1].t
    i += 2
    gen = []
    if h[i].t == '<':
        e = skip_generics(h, i)
        gen = h[i:e]
        i = e
    assert h[i].t == '('
    e = match(h, i)
    params = h[i + 1:e]
    i = e + 1
    ret, where = [], []
    if i < len(h) and h[i].t == '->':
        i += 1
        while i < len(h) and h[i].t != 'where':
            ret.append(h[i]); i += 1
    if i < len(h) and h[i].t == 'where':
        where = h[i + 1:]
    return is_async, name, gen, params, ret, where

def split_commas(toks):
    out, cur, i = [], [], 0
    while i < len(toks):
        t = toks[i].t
        if t in OPEN:
            e = match(toks, i)
            cur += toks[i:e + 1]; i = e + 1; continue
        if t == '<':
            # generics only matter in types; in parameter lists this is always a type
            try:
                e = skip_generics(toks, i)
                cur += toks[i:e]; i = e; continue
            except LexError:
                pass
        if t == ',':
            out.append(cur); cur = []
        else:
            cur.append(toks[i])
        i += 1
    if cur: out.append(cur)
    return out

def untok(toks):
    """Print tokens, keeping the original line structure as far as possible."""
    out = []
    prev = None
    line = None
    for t in toks:
        if line is not None and t.line > line:
            out.append('\n')
        elif prev is not None and not getattr(t, 'glue', False):
            if not (prev.t in ('(', '[', '.', '::', '!', '#', '&', "'") and prev.k == 'p' and not (prev.t == '&' and False)) and not (t.k == 'p' and t.t in (')', ']', ',', ';', '.', '::', '?')):
                out.append(' ')
        out.append(t.t)
        prev = t
        line = t.line if line is None else max(line, t.line)
    return ''.join(out)
