"""Contracts for the code that `interface!` generates, written out from the definition of the interface.

The definition is read here from its own text; nothing is taken from the macro or from what it generates.
"""
import re

def camel(s):
    return ''.join(p[:1].upper() + p[1:] for p in s.split('_'))

def docs(lines):
    """The text of documentation comments: each line with a newline, without the spaces that all lines with text start with."""
    common = min((len(l) - len(l.lstrip(' ')) for l in lines if l.strip(' ')), default=0)
    return ''.join((l[common:] if l.strip(' ') else '') + '\n' for l in lines)

def parse(text):
    """{module: {name, doc, hidden, services: [...], streams: [...]}} of a file with one `interface!` per module."""
    out = {}
    for m in re.finditer(r'pub mod (\w+) \{\s*use super::\*;\s*fizyr_rpc::interface! \{(.*?)\n\t\}\n\}', text, re.S):
        d, services, streams, cur, doc, hidden = {}, [], [], None, [], False
        for l in m.group(2).split('\n'):
            l = l.strip()
            if l.startswith('///'): doc.append(l[3:]); continue
            if l == '#[hidden]': hidden = True; continue
            if not l or l in ('}', '},') or l.startswith('//'): continue
            attrs = dict(doc=docs(doc), hidden=hidden)
            doc, hidden = [], False
            w = re.match(r'service (-?\d+) (\w+): (\S+) -> (\S+?)(,| \{)$', l)
            if w:
                cur = dict(id=int(w.group(1)), name=w.group(2), request=w.group(3), response=w.group(4), down=[], up=[], **attrs)
                services.append(cur); continue
            w = re.match(r'(request|response)_update (-?\d+) (\w+): (\S+?),$', l)
            if w:
                cur['up' if w.group(1) == 'request' else 'down'].append(dict(id=int(w.group(2)), name=w.group(3), type=w.group(4), **attrs)); continue
            w = re.match(r'stream (-?\d+) (\w+): (\S+?),$', l)
            if w: streams.append(dict(id=int(w.group(1)), name=w.group(2), type=w.group(3), **attrs)); continue
            w = re.match(r'pub interface (\w+) \{$', l)
            if w: d = dict(name=w.group(1), **attrs)
            else: raise SystemExit('interface definition: ' + l)
        out[m.group(1)] = dict(services=services, streams=streams, **d)
    return out

def types(text):
    return re.findall(r'^pub struct (\w+);', text, re.M)

def num(i):
    return '%di32' % i if i >= 0 else '((%d) as i32)' % i

def bounds(kind, ts):
    return ''.join('F: %sBody<%s>, ' % (kind, t) for t in dict.fromkeys(ts))

class Out:
    def __init__(self): self.l = []
    def __call__(self, s): self.l.append(s)

def enum(o, f, name, items, emit):
    """An enum of messages with its accessors and conversions."""
    if not items: return
    o('//@type %s %s' % (f, name))
    o('//@impl %s %s' % (f, name))
    o('//@members')
    o('pub open spec fn id_of(&self) -> i32 { match self { %s } }' % ', '.join('%s::%s(_) => %s' % (name, camel(u['name']), num(u['id'])) for u in items))
    o('//@fn service_id() -> r [C17]')
    o('\tensures r == self.id_of()')
    for u in items:
        v, n = camel(u['name']), u['name']
        o('//@fn is_%s() -> r [C17]' % n)
        o('\tensures r == (self is %s)' % v)
        o('//@fn as_%s() -> r [C17]' % n)
        o('\tensures match r { Some(x) => *self == %s::%s(*x), None => !(self is %s) }' % (name, v, v))
        o('//@fn into_%s() -> r [C17]' % n)
        o('\tensures match r { Ok(x) => self == %s::%s(x), Err(e) => !(self is %s) && e.inner == (InnerError::UnexpectedServiceId { service_id: self.id_of() }) }' % (name, v, v))
    o('//@endimpl')
    o('//@impl %s %s of rpc::FromMessage<F>' % (f, name))
    o('//@members')
    o('open spec fn message_to(message: Message<F::Body>, r: Result<Self, Error>) -> bool {')
    for u in items:
        o('\tif message.header.service_id == %s { match r { Ok(x) => x matches %s::%s(v) && <F as DecodeBody<%s>>::can_decode(message.body, Ok(v)), Err(e) => e.inner matches InnerError::DecodeFailed(x) && <F as DecodeBody<%s>>::can_decode(message.body, Err(x)) } } else' % (num(u['id']), name, camel(u['name']), u['type'], u['type']))
    o('\t{ r is Err && r->Err_0.inner == (InnerError::UnexpectedServiceId { service_id: message.header.service_id }) }')
    o('}')
    o('//@fn from_message(message) [C17]')
    o('//@endimpl')
    o('//@impl %s %s of rpc::ToMessage<F>' % (f, name))
    o('//@members')
    o('open spec fn message_of(&self, r: Result<(i32, F::Body), BoxError>) -> bool {')
    o('\tmatch self {')
    for u in items:
        o('\t\t%s::%s(v) => match r { Ok(x) => x.0 == %s && <F as EncodeBody<%s>>::can_encode(*v, Ok(x.1)), Err(e) => <F as EncodeBody<%s>>::can_encode(*v, Err(e)) },' % (name, camel(u['name']), num(u['id']), u['type'], u['type']))
    o('\t}')
    o('}')
    o('//@fn to_message() [C17]')
    o('//@endimpl')

def plain_handle(o, typ, raw, write):
    o('//@fn inner() -> r [C17]')
    o('\tensures *r == self.request')
    o('//@fn inner_mut() -> r [C17]')
    o('\tensures *r == self.request')
    o('//@fn into_inner() -> r [C17]')
    o('\tensures r == self.request')
    w = 'self.request' if write else 'self.request.write_handle'
    o('//@fn request_id() -> r [C17]')
    o('\tensures r == %s.request_id' % w)
    o('//@fn service_id() -> r [C17]')
    o('\tensures r == %s.service_id' % w)
    if not write:
        o('//@fn write_handle() -> r [C17]')
        o('\tensures r.request.request_id == %s.request_id && r.request.service_id == %s.service_id && r.request.closed.id() == %s.closed.id() && r.request.command_tx.id() == %s.command_tx.id()' % (w, w, w, w))
    return w

def clone(o, f, typ):
    o('//@impl %s %s of Clone inherent' % (f, typ))
    o('//@fn clone() -> r [C17]')
    o('\tensures r.request.request_id == self.request.request_id && r.request.service_id == self.request.service_id && r.request.closed.id() == self.request.closed.id() && r.request.command_tx.id() == self.request.command_tx.id()')
    o('//@endimpl')

def senders(o, w, updates, t):
    for u in updates:
        unit = u['type'] == '()'
        o('//@fn send_%s_update(%s) -> r ghost [C17]' % (u['name'], '' if unit else 'update'))
        o('\trequires %s.inv(*old(w))' % w)
        o('\tensures typed_sent::<F, %s>(*old(w), *final(w), %s.command_tx.id(), MessageType::%s, %s.request_id, %s, %s, %s.closed.id(), r)' % (
            u['type'], w, t, w, num(u['id']), '()' if unit else '*update', w))

def update_spec(o, fn, enumname, items):
    o('pub open spec fn %s<F: Format>(m: Message<F::Body>, r: Result<%s, ParseUpdateError<F::Body>>) -> bool where %s {' % (fn, enumname, bounds('Decode', [u['type'] for u in items])))
    for u in items:
        o('\tif m.header.service_id == %s { match r { Ok(x) => x matches %s::%s(v) && <F as DecodeBody<%s>>::can_decode(m.body, Ok(v)), Err(ParseUpdateError::InvalidUpdate(h, e)) => h == m.header && <F as DecodeBody<%s>>::can_decode(m.body, Err(e)), _ => false } } else' % (num(u['id']), enumname, camel(u['name']), u['type'], u['type']))
    o('\t{ r is Err && r->Err_0 == ParseUpdateError::UnknownUpdate(m) }')
    o('}')

def service(o, f, s):
    """The module of one service."""
    f = f + '::' + s['name']
    up, down = s['up'], s['down']
    o('pub mod %s {' % s['name'])
    o('use super::*;')
    enum(o, f, 'RequestUpdate', up, True)
    enum(o, f, 'ResponseUpdate', down, True)
    if up: update_spec(o, 'request_update_of', 'RequestUpdate', up)
    if down: update_spec(o, 'response_update_of', 'ResponseUpdate', down)
    if up or down:
        o('//@type %s SentRequestHandle' % f)
        o('//@type %s SentRequestWriteHandle' % f)
        clone(o, f, 'SentRequestWriteHandle')
        o('//@impl %s SentRequestHandle world=F::Body' % f)
        w = plain_handle(o, 'SentRequestHandle', 'SentRequestHandle', False)
        o('//@fn recv_response() -> r ghost [C16 C17]')
        o('\tensures final(self).request.write_handle == old(self).request.write_handle && nothing_sent(*old(w), *final(w))')
        o('\tensures typed_response::<F, %s>(old(self).request.pending(), r)' % s['response'])
        o('\tensures old(self).request.inv() ==> final(self).request.inv() && final(self).request.pending() =~= (if old(self).request.pending().len() > 0 && old(self).request.pending()[0].header.message_type is Response { old(self).request.pending().drop_first() } else { old(self).request.pending() })')
        if down:
            o('//@fn recv_update() -> r ghost [C17]')
            o('\tensures final(self).request.write_handle == old(self).request.write_handle && nothing_sent(*old(w), *final(w))')
            o('\tensures ({ let p = old(self).request.pending(); match r { None => p.len() == 0 || !(p[0].header.message_type is ResponderUpdate), Some(x) => p.len() > 0 && p[0].header.message_type is ResponderUpdate && response_update_of::<F>(p[0], x) } })')
            o('\tensures old(self).request.inv() ==> final(self).request.inv() && final(self).request.pending() =~= (if r is Some { old(self).request.pending().drop_first() } else { old(self).request.pending() })')
        senders(o, w, up, 'RequesterUpdate')
        o('//@endimpl')
        o('//@impl %s SentRequestWriteHandle world=F::Body' % f)
        w = plain_handle(o, 'SentRequestWriteHandle', 'SentRequestWriteHandle', True)
        senders(o, w, up, 'RequesterUpdate')
        o('//@endimpl')
    o('//@type %s ReceivedRequestHandle' % f)
    o('//@type %s ReceivedRequestWriteHandle' % f)
    clone(o, f, 'ReceivedRequestWriteHandle')
    for write in (False, True):
        typ = 'ReceivedRequestWriteHandle' if write else 'ReceivedRequestHandle'
        o('//@impl %s %s world=F::Body' % (f, typ))
        w = plain_handle(o, typ, typ, write)
        if not write and up:
            o('//@fn recv_update() -> r ghost [C17]')
            o('\tensures final(self).request.write_handle == old(self).request.write_handle && nothing_sent(*old(w), *final(w))')
            o('\tensures ({ let p = old(self).request.pending(); match r { None => p.len() == 0, Some(x) => p.len() > 0 && request_update_of::<F>(p[0], x) && final(self).request.pending() =~= p.drop_first() } })')
        senders(o, w, down, 'ResponderUpdate')
        o('//@fn send_response(response) -> r ghost [C17]')
        o('\trequires %s.inv(*old(w))' % w)
        o('\tensures typed_sent::<F, %s>(*old(w), *final(w), %s.command_tx.id(), MessageType::Response, %s.request_id, %s, *response, %s.closed.id(), r)' % (s['response'], w, w, num(s['id']), w))
        o('//@fn send_error_response(error) -> r ghost [C16]')
        o('\trequires %s.inv(*old(w))' % w)
        o('\tensures exists|m: Message<F::Body>| error_message(m, %s.request_id, error@) && request_sent(*old(w), *final(w), %s.command_tx.id(), m, %s.closed.id(), r)' % (w, w, w))
        o('//@endimpl')
    o('}')

def interface(f, name, d):
    """The template for the module of one interface: `f` is how the directives refer to the module."""
    o = Out()
    o('pub mod %s {' % name)
    o('use super::*;')
    services, streams = d['services'], d['streams']
    for s in services: service(o, f, s)
    enum(o, f, 'StreamMessage', streams, False)
    # the client
    o('//@type %s Client' % f)
    for t, p in (('PeerWriteHandle', 'other'), ('PeerHandle', 'other.write_handle')):
        o('//@impl %s Client of ::core::convert::From<rpc::%s<F::Body>> inherent' % (f, t))
        o('//@fn from(other) -> r as from_%s [C17]' % t.lower())
        o('\tensures r.peer == %s' % p)
        o('//@endimpl')
    o('//@impl %s Client world=F::Body' % f)
    o('//@fn new(peer) -> r [C17]')
    o('\tensures r.peer == peer')
    o('//@fn close() ghost [C17]')
    o('\trequires !old(w).owner')
    o('\tensures command_sent(*old(w), *final(w), self.peer.command_tx.id(), Command::Stop)')
    o('//@fn close_handle() -> r [C17]')
    o('\tensures r.command_tx.id() == self.peer.command_tx.id()')
    for s in services:
        unit = s['request'] == '()'
        o('//@fn %s(%s) -> r ghost [C17]' % (s['name'], '' if unit else 'request'))
        o('\trequires old(w).log.dom().contains(self.peer.command_tx.id())')
        v = '()' if unit else '*request'
        if s['up'] or s['down']:
            o('\tensures typed_open::<F, %s>(*old(w), *final(w), self.peer.command_tx.id(), %s, %s, match r { Ok(h) => Ok(h.request), Err(e) => Err(e) })' % (s['request'], num(s['id']), v))
        else:
            o('\tensures typed_call::<F, %s, %s>(*old(w), *final(w), self.peer.command_tx.id(), %s, %s, r) // [C16 C17]' % (s['request'], s['response'], num(s['id']), v))
    for s in streams:
        unit = s['type'] == '()'
        o('//@fn send_%s(%s) -> r ghost [C17]' % (s['name'], '' if unit else 'body'))
        o('\trequires old(w).log.dom().contains(self.peer.command_tx.id())')
        o('\tensures typed_stream::<F, %s>(*old(w), *final(w), self.peer.command_tx.id(), %s, %s, r)' % (s['type'], num(s['id']), '()' if unit else '*body'))
    o('//@endimpl')
    # the server
    o('//@type %s Server' % f)
    o('//@type %s ReceivedMessage' % f)
    if services: o('//@type %s ReceivedRequestHandle' % f)
    every = [s['type'] for s in streams] + [s['request'] for s in services]
    o('/// What becomes of the next thing the peer passes on.')
    o('pub open spec fn dispatched<F: Format>(i: Result<rpc::ReceivedMessage<F::Body>, Error>, r: Result<%s, RecvMessageError<F::Body>>) -> bool where %s {' % ('ReceivedMessage<F>' if services else 'ReceivedMessage', bounds('Decode', every)))
    o('match i {')
    o('\tErr(e) => r is Err && r->Err_0 == RecvMessageError::<F::Body>::Other(e),')
    o('\tOk(rpc::ReceivedMessage::Stream(m)) =>')
    for s in streams:
        o('\t\tif m.header.service_id == %s { match r { Ok(ReceivedMessage::Stream(StreamMessage::%s(v))) => <F as DecodeBody<%s>>::can_decode(m.body, Ok(v)), Err(RecvMessageError::InvalidStream(h, e)) => h == m.header && <F as DecodeBody<%s>>::can_decode(m.body, Err(e)), _ => false } } else' % (num(s['id']), camel(s['name']), s['type'], s['type']))
    o('\t\t{ r is Err && r->Err_0 == RecvMessageError::UnknownStream(m) },')
    o('\tOk(rpc::ReceivedMessage::Request(request, body)) =>')
    for s in services:
        o('\t\tif request.write_handle.service_id == %s { match r { Ok(ReceivedMessage::Request(ReceivedRequestHandle::%s(h, v))) => h.request == request && <F as DecodeBody<%s>>::can_decode(body, Ok(v)), Err(RecvMessageError::InvalidRequest(h, e)) => h == request && <F as DecodeBody<%s>>::can_decode(body, Err(e)), _ => false } } else' % (num(s['id']), camel(s['name']), s['request'], s['request']))
    o('\t\t{ r is Err && r->Err_0 == RecvMessageError::UnknownRequest(request, body) },')
    o('}')
    o('}')
    for t, p in (('PeerReadHandle', 'other'), ('PeerHandle', 'other.read_handle')):
        o('//@impl %s Server of ::core::convert::From<rpc::%s<F::Body>> inherent' % (f, t))
        o('//@fn from(other) -> r as from_%s [C17]' % t.lower())
        o('\tensures r.peer == %s' % p)
        o('//@endimpl')
    o('//@impl %s Server world=F::Body' % f)
    o('//@fn new(peer) -> r [C17]')
    o('\tensures r.peer == peer')
    o('//@fn close() ghost [C17]')
    o('\trequires !old(w).owner')
    o('\tensures command_sent(*old(w), *final(w), self.peer.command_tx.id(), Command::Stop)')
    o('//@fn close_handle() -> r [C17]')
    o('\tensures r.command_tx.id() == self.peer.command_tx.id()')
    o('//@fn recv_message() -> r ghost [C17]')
    o('\tensures nothing_sent(*old(w), *final(w)) && final(self).peer.command_tx.id() == old(self).peer.command_tx.id()')
    o('\tensures exists|i: Result<rpc::ReceivedMessage<F::Body>, Error>| #[trigger] next_incoming(old(self).peer.incoming_rx, final(self).peer.incoming_rx, i) && dispatched::<F>(i, r)')
    o('//@endimpl')
    o('}')
    return o.l

def text(t):
    return '"%s"@' % t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')

def introspection(f, name, d):
    """The template for the introspection data of one interface."""
    o = Out()
    common = lambda r, x: 'r.name@ == %s && r.doc@ == %s && r.hidden == %s' % (text(x['name']), text(x['doc']), 'true' if x['hidden'] else 'false')
    o('pub mod %s {' % name)
    o('use super::*;')
    ts = [t for s in d['services'] for t in [s['request'], s['response']] + [u['type'] for u in s['up'] + s['down']]]
    def item(fn, r, x, fields):
        o('pub open spec fn %s<F: IntrospectableFormat>(r: %s<F::TypeInfo>) -> bool where %s {' % (fn, r, 'F: Sized, ' + ''.join('F: FormatTypeInfo<%s>, ' % t for t in dict.fromkeys(fields[1]))))
        o('\t%s && r.service_id == %s && %s' % (common('r', x), num(x['id']), ' && '.join(fields[0])))
        o('}')
    info = lambda field, t: '<F as FormatTypeInfo<%s>>::is_type_info(%s)' % (t, field)
    for n, s in enumerate(d['services']):
        subs = []
        for k, us in (('request_updates', s['up']), ('response_updates', s['down'])):
            for i, u in enumerate(us):
                item('%s_%d_of_%d' % (k, i, n), 'UpdateDefinition', u, ([info('r.body', u['type'])], [u['type']]))
            subs += ['r.%s@.len() == %d' % (k, len(us))] + ['%s_%d_of_%d::<F>(r.%s@[%d])' % (k, i, n, k, i) for i in range(len(us))]
        item('service_%d' % n, 'ServiceDefinition', s, ([info('r.request_body', s['request']), info('r.response_body', s['response'])] + subs, [s['request'], s['response']] + [u['type'] for u in s['up'] + s['down']]))
    for n, s in enumerate(d['streams']):
        item('stream_%d' % n, 'StreamDefinition', s, ([info('r.body', s['type'])], [s['type']]))
    lists = lambda r, k: ' && '.join(['%s@.len() == %d' % (r, len(d[k + 's']))] + ['%s_%d::<F>(%s@[%d])' % (k, i, r, i) for i in range(len(d[k + 's']))])
    o('//@type %s Interface' % f)
    o('//@impl %s Interface' % f)
    o('//@fn name() -> r [C20]')
    o('\tensures r@ == %s' % text(d['name']))
    o('//@fn doc() -> r [C20]')
    o('\tensures r@ == %s' % text(d['doc']))
    o('//@fn services() -> r [C20]')
    o('\tensures ' + lists('r', 'service'))
    o('//@fn streams() -> r [C20]')
    o('\tensures ' + lists('r', 'stream'))
    o('//@fn definition() -> r [C20]')
    o('\tensures %s && %s && %s' % (common('r', d), lists('r.services', 'service'), lists('r.streams', 'stream')))
    o('//@endimpl')
    o('}')
    return o.l
