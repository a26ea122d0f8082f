import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Message headers survive the wire unchanged and unknown types are rejected',
 'A message header is 12 bytes on the wire: message type (0 request, 1 response, 2 requester update, 3 responder update, 4 stream), request ID and service ID, each 32 bits in the configured byte order. Decoding an encoded header with the same byte order gives back exactly the same header for every type, ID and service ID. A header whose type field is not 0 to 4 is rejected with an invalid-message-type error and never mapped to a message. Asking a message type whether it is one of these five answers yes for exactly its own.',
 ['inputs','configurations'],'all 2^32 type values, all request IDs, all service IDs, all three byte orders',
 'The tests encode a handful of constants in each byte order; the guarantee is over the full 96-bit header space.',
 ['src/message.rs','src/transport/endian.rs'],
 [('MessageHeader::encode / decode','src/message.rs'),('MessageType::from_u32','src/message.rs'),('Endian::read_*/write_*','src/transport/endian.rs')],
 observe=['bytes handed to the stream or socket','header of received messages'])

p('C02','Byte-stream transports write every message as one exact frame',
 'For every message a TCP or Unix stream transport accepts, the bytes put on the stream are exactly the length (12 + body length), the 12-byte header and the body, each byte once and in order, however the stream splits, delays or interleaves the partial writes. A message whose body exceeds the configured write limit is refused with a non-fatal payload-too-large error before any byte is written, and the next message is unaffected. A stream that fails or takes zero bytes gives a fatal error; the write never spins, panics or reports success for an unfinished message.',
 ['inputs','schedules','fault_sequences','configurations'],'all bodies, all limits, all sequences of partial writes, pending results and errors of the underlying stream, over sequences of messages on one transport',
 'The tests use real sockets with tiny messages, so the kernel takes each frame in one write; partial, zero-sized and failing writes and messages near the limit never occur.',
 ['src/transport/stream/transport.rs','src/transport/mod.rs','src/error.rs'],
 [('StreamWriteHalf::poll_write_msg','src/transport/stream/transport.rs'),('check_payload_too_large','src/error.rs')],
 state=[('bytes_written','how much of the current frame is on the stream','StreamWriteHalf'),('header_buffer','encoded length and header of the current frame','StreamWriteHalf')],
 observe=['bytes handed to the stream','result of writing a message'])

p('C03','Byte-stream transports reassemble exactly the messages that were framed',
 'Whatever way the bytes of a sequence of valid frames are cut into reads and pending results, a TCP or Unix stream transport returns exactly those messages, in order, with unchanged headers and bodies, and consumes no byte beyond the frame it returns. End of stream or an I/O error, also in the middle of a frame, is reported as a fatal error (end of stream as connection aborted). A partially received frame is never delivered.',
 ['inputs','schedules','fault_sequences'],'all frame sequences, all chunkings and pending points, end of stream or error at any byte',
 'Local sockets deliver small frames in one piece, so the tests never resume a half-read header or body and never lose the connection in the middle of a frame.',
 ['src/transport/stream/transport.rs','src/transport/mod.rs'],
 [('StreamReadHalf::poll_read_msg','src/transport/stream/transport.rs'),('poll_read','src/transport/stream/transport.rs')],
 state=[('bytes_read','progress in the current frame','StreamReadHalf'),('parsed_header, body_buffer','the frame being assembled','StreamReadHalf')],
 observe=['messages returned by the read half'])

p('C04','Hostile bytes on a stream give an error, never a panic or oversized message',
 'For every byte sequence received on a TCP or Unix stream, reading yields messages or errors and never panics or overflows. A frame whose length field is smaller than the header, whose type is unknown, or whose body exceeds the configured read limit gives a fatal error as soon as its first 16 bytes are in, before a body is allocated or read. A message with a body longer than the read limit is never delivered, and a frame within the limits is never refused.',
 ['inputs','configurations'],'all byte sequences a remote peer can send, all read limits up to u32::MAX, all byte orders',
 'No test sends malformed frames; the statement is over all byte strings.',
 ['src/transport/stream/transport.rs','src/error.rs','src/message.rs'],
 [('length, type and limit checks in poll_read_msg','src/transport/stream/transport.rs'),('check_message_too_short / check_payload_too_large','src/error.rs')],
 observe=['results of reading a message'])

p('C05','Seqpacket transports carry whole messages and enforce their size limits',
 'A Unix seqpacket transport puts each accepted message into one datagram, 12-byte header followed by the body, and returns each valid datagram as one message with the same header, body and attached file descriptors. A body larger than the configured limit is refused with a non-fatal payload-too-large error, when writing before anything is sent and when reading instead of delivering a truncated message, and later messages are unaffected. A datagram shorter than a header or with an unknown type, an I/O error, or end of connection (connection aborted) is a fatal error; no datagram can cause a panic.',
 ['inputs','configurations','fault_sequences'],'all datagrams and bodies, all read and write limits, pending results and I/O errors',
 'The only seqpacket transport test sends one fixed small message back and forth with the default limits.',
 ['src/transport/unix/transport.rs','src/transport/unix/body.rs','src/error.rs'],
 [('UnixReadHalf::poll_read_msg','src/transport/unix/transport.rs'),('UnixWriteHalf::poll_write_msg','src/transport/unix/transport.rs')],
 observe=['datagrams given to the socket','results of reading and writing'])

p('C06','File descriptors are delivered completely or not at all, and never leak',
 'File descriptors attached to a seqpacket message arrive in order, attached to that message and no other. A message with more descriptors than the configured maximum is refused with a non-fatal error: when writing nothing is sent, when reading the message is not delivered and no partial set of descriptors is handed out. Every descriptor received from the kernel is either owned by the delivered message or closed, also when the message is rejected, and sending never closes the descriptors of the sender.',
 ['inputs','configurations','fault_sequences'],'all numbers of attached descriptors, all limits, all reasons for rejecting the message that carried them',
 'One test passes two descriptors on a valid message; rejected messages, truncated ancillary data and limits are not exercised, and leaks are invisible to it.',
 ['src/transport/unix/transport.rs','src/transport/unix/body.rs'],
 [('wrapping received descriptors before any check','src/transport/unix/transport.rs'),('descriptor count check','src/transport/unix/transport.rs')],
 observe=['descriptors on delivered messages','open descriptors of the process','ancillary data given to the socket'])

p('C07','An open sent request never shares its request ID',
 'The request ID given to a new outgoing request differs from the IDs of all outgoing requests of that peer that are still open, for every history of requests, responses and failures, including wrap-around of the 32-bit counter. IDs of finished requests become available again, and a new request is registered before any answer to it is processed. When no free ID is found the new request fails with an error, without panic and without disturbing any open request.',
 ['histories','inputs'],'all histories of open and finished requests, all counter values including wrap-around, all sets of IDs in use',
 'Wrap-around needs 2^32 requests and exhaustion needs at least 100 consecutive open IDs; tests allocate one or two.',
 ['src/request_tracker.rs','src/peer.rs'],
 [('RequestTracker::allocate_sent_request','src/request_tracker.rs'),('CommandLoop::send_request','src/peer.rs')],
 state=[('next_sent_request_id','next candidate ID','RequestTracker'),('sent_requests','open outgoing requests','RequestTracker')],
 observe=['request IDs of request messages written to the transport','request_id() of the handles'])

p('C08','Incoming messages reach exactly the request they belong to',
 'An incoming response or responder update goes to the open outgoing request with the same request ID, an incoming requester update to the open received request with the same request ID, unchanged, once, in arrival order, and to nothing else; the two ID spaces are independent. Requests and stream messages go to the user of the peer, a request opening exactly one new received request with its ID, service ID and body. A message for an unknown request ID, and a request reusing the ID of an open received request, are reported to the user as errors and change no open request.',
 ['histories','inputs','schedules'],'all histories of open requests and incoming messages, all message types, request IDs and service IDs',
 'Tests walk through one request per direction with matching IDs; mismatched, duplicate, stale and interleaved IDs form an unbounded space of histories.',
 ['src/request_tracker.rs','src/peer.rs'],
 [('RequestTracker::process_incoming_message and helpers','src/request_tracker.rs'),('CommandLoop::process_incoming_message','src/peer.rs')],
 state=[('sent_requests / received_requests','open requests per direction','RequestTracker')],
 observe=['messages received on request handles','messages and errors received on the peer handle'])

p('C09','A response ends its request, and only that request, on both sides',
 'Once the response to an outgoing request is received, or the response to a received request has been written successfully, that request is closed: its ID can be used again and every handle of it sees it as closed. Handles waiting on a request that is closed without a response for them are woken up and see the end of the request. Updates, messages of other requests and failed (non-fatal) attempts to send a response close nothing: the received request stays open and can still be answered.',
 ['histories','fault_sequences'],'all histories of requests, updates, responses and write failures over any number of open requests in both directions',
 'The test for closing covers one request in each direction in a single order with a transport that never fails.',
 ['src/request_tracker.rs','src/peer.rs','src/request.rs'],
 [('remove_sent_request / remove_received_request','src/request_tracker.rs'),('process_incoming_response','src/request_tracker.rs'),('CommandLoop::send_raw_message','src/peer.rs')],
 state=[('closed','shared flag between tracker and handles','TrackedRequest, *WriteHandle')],
 observe=['results on request handles','reuse of request IDs'])

p('C10','Nothing is written for a request that has been closed',
 'After a request is closed on the local side (its response was received or written, or it was given up by the peer) no further update or response for it is put on the transport, also not by cloned write handles or by sends that were already queued. Such a send fails with an error instead. In particular a received request is answered at most once, and an old handle never writes into a newer request that reuses the same ID.',
 ['histories','schedules'],'all interleavings of sends through any number of cloned handles with receiving or writing the response, and reuse of the ID',
 'The existing test sends after the response from one task; queued and concurrent sends and reused IDs depend on the schedule.',
 ['src/peer.rs','src/request.rs','src/request_tracker.rs'],
 [('closed checks in the write handles','src/request.rs'),('closed check in CommandLoop::send_raw_message','src/peer.rs')],
 state=[('closed','set when the request is closed, never reset','shared by tracker, handles and queued commands')],
 observe=['messages written to the transport'])

p('C11','Every message for a sent request can be received exactly once, in order',
 'Receiving updates and the response on a sent request yields every message that arrived for it exactly once and in arrival order, for any mix of update and response calls. Asking for an update when the response is next gives none and keeps the response available; asking for the response when an update is next gives an unexpected-message-type error and keeps the update available. After the response has been taken, or when the request or connection ends without one, updates end with none and asking for the response gives a connection-aborted error rather than waiting forever.',
 ['histories','inputs'],'all sequences of arriving messages and all sequences of receive calls',
 'The tests use one update followed by one response, read in the matching order; wrong-order calls are the interesting case and need all call sequences.',
 ['src/request.rs'],
 [('SentRequestHandle::recv_update / recv_response / recv_message','src/request.rs')],
 state=[('peek_buffer','message put back after a mismatching call','SentRequestHandle')],
 observe=['results of recv_update and recv_response'])

p('C12','Requests nobody can read are answered with an error and forgotten',
 'When the read handle of a peer is gone while the peer keeps running, every incoming request is answered with exactly one response carrying the same request ID and the error service ID -1, and is no longer open afterwards, so its ID can be used again. Incoming stream messages and errors are dropped without disturbing the peer, and responses and updates for outgoing requests are still delivered. If the error response can not be written the peer stops.',
 ['histories','inputs','fault_sequences'],'all incoming messages after dropping the read handle, with and without write failures',
 'No test keeps a peer running without its read handle while requests arrive.',
 ['src/peer.rs','src/request_tracker.rs','src/message.rs'],
 [('CommandLoop::process_incoming_message','src/peer.rs'),('remove_received_request','src/request_tracker.rs')],
 state=[('incoming_tx','channel to the read handle','CommandLoop')],
 observe=['messages written to the transport','reuse of request IDs'])

p('C13','A peer runs exactly as long as it has users and a working transport',
 'A peer keeps running while the read handle or any write handle, including clones, exists, and non-fatal transport errors or protocol errors of the remote do not stop it. It stops after close is called on any handle, after both the read handle and all write handles are dropped, and after a fatal transport error; messages received before a fatal read error are still processed first. Once it has stopped, pending and later operations on its handles and requests finish with a connection-aborted error instead of waiting forever.',
 ['histories','schedules','fault_sequences'],'all histories of cloning, splitting, dropping and closing handles, all fatal and non-fatal transport errors, all schedules of the two loops',
 'Tests drop everything at the end of the happy path; the count of handles over all clone/drop orders and errors in the middle are not covered.',
 ['src/peer.rs','src/peer_handle.rs','src/util/select.rs'],
 [('CommandLoop::run and ReadLoop::run','src/peer.rs'),('Peer::run','src/peer.rs'),('Clone and Drop of the handles','src/peer_handle.rs')],
 state=[('write_handles, read_handle_dropped','number of live users','Peer / CommandLoop')],
 observe=['completion of the peer task','results of pending operations'])

p('C14','Everything read from the transport is passed on once and in order',
 'Every message and every error the transport returns is processed by the peer exactly once and in the order it was read, until and including the first fatal error, after which the transport is not read again. Requests, stream messages and errors reach the user of the peer in that order. A non-fatal read error is reported and reading continues.',
 ['histories','schedules','fault_sequences'],'all sequences of messages, non-fatal errors and a fatal error, and all schedules of reader, peer loop and user',
 'Tests exchange single messages over a reliable socket; error results in between and backlog when the connection is lost are not reached.',
 ['src/peer.rs','src/peer_handle.rs'],
 [('ReadLoop::run','src/peer.rs'),('CommandLoop::process_incoming_message / send_incoming','src/peer.rs'),('PeerReadHandle::recv_message','src/peer_handle.rs')],
 observe=['sequence of results of recv_message'])

p('C15','A send writes exactly its message and reports what happened',
 'Each send of a request, stream message, update or response that is carried out hands exactly one message to the transport, with the message type of that operation, the request ID of its request (0 for stream messages), and the service ID and body given by the caller. It reports success only if the transport accepted that message, and otherwise returns the error of the transport; a non-fatal error leaves the peer usable and a fatal one stops it. A request whose message could not be sent, or whose caller went away before getting its handle, leaves no open request behind.',
 ['inputs','histories','fault_sequences'],'all service IDs and bodies, all operations, all transport results, caller cancelled at any point',
 'The transports in the tests never refuse a message and callers are never cancelled.',
 ['src/peer.rs','src/peer_handle.rs','src/request.rs','src/message.rs'],
 [('CommandLoop::send_request / send_raw_message / write_message','src/peer.rs'),('send functions of the handles','src/request.rs, src/peer_handle.rs'),('Message and MessageHeader constructors','src/message.rs')],
 observe=['messages written to the transport','results of the send operations','open requests after a failed send'])

p('C16','Error responses arrive as remote errors with the same text',
 'Sending an error response with a text produces a response with the error service ID -1 whose body is the encoded text, and a client generated from an interface definition turns exactly the responses with service ID -1 into a remote error carrying that same text, for every text. A response with any other service ID is decoded as a regular response. A body of an error response that is not valid UTF-8 gives a decode error, never a panic or a regular response.',
 ['inputs'],'all error texts, all response service IDs and bodies',
 'The macro tests use one error text on one service.',
 ['src/message.rs','src/transport/stream/body.rs','src/transport/unix/body.rs','macros/src/interface/generate/services.rs','src/error.rs'],
 [('Message::error_response','src/message.rs'),('Body::from_error / into_error','src/transport/*/body.rs'),('generated recv_response','macros/src/interface/generate/services.rs')],
 observe=['responses on the wire','result of generated service calls'])

p('C17','Generated interfaces dispatch every message by its service ID',
 'In code generated from an interface definition, a received request, stream message or update with a declared service ID is decoded as exactly the item declared with that ID, and sending an item uses exactly its declared service ID. An undeclared service ID is reported as unknown, handing back the untouched message or request, and a body that fails to decode is reported as invalid together with its header or request handle; nothing is swallowed. Failure to encode is reported before anything is sent.',
 ['inputs','programs'],'all service IDs (declared or not) and bodies, for the item kinds of an interface: services with and without updates, request updates, response updates and streams',
 'The macro tests send the declared service IDs with valid bodies only.',
 ['macros/src/interface/generate/server.rs','macros/src/interface/generate/services.rs','macros/src/interface/generate/streams.rs','macros/src/interface/generate/message_enum.rs'],
 [('generated Server::recv_message','macros/src/interface/generate/server.rs'),('generated recv_update / send_*_update','macros/src/interface/generate/services.rs'),('generated FromMessage / ToMessage','macros/src/interface/generate/message_enum.rs')],
 observe=['results of the generated receive functions','messages written by the generated send functions'])

p('C18','Listening deletes at most a socket file, and hands out every accepted peer',
 'Binding a Unix listener replaces a socket file that exists at the path, and removes nothing else: anything else at that path (a file, a directory, a fifo, a symbolic link wherever it leads) is left untouched and binding fails. Every connection accepted by a listener becomes exactly one running peer with the configured transport settings, handed to the caller (or passed once to the task of `run`) together with the information of that same connection; connecting does the same for the connection it makes. A failing accept or connect, or one whose connection information can not be read, is returned as an error and leaves no peer behind; `run` ends only with such an error.',
 ['inputs','histories','configurations'],'all kinds of existing paths, all sequences of connections and accept results, all configurations',
 'Tests bind fresh paths only, and no test checks that the configured limits reach the accepted peers.',
 ['src/listener.rs','src/transport/stream/mod.rs','src/transport/unix/mod.rs','src/util/accept.rs','src/util/into_transport.rs'],
 [('Bind implementations for the Unix listeners','src/transport/stream/mod.rs, src/transport/unix/mod.rs'),('Listener::accept / run','src/listener.rs')],
 observe=['files at the bound path','peers and info returned by accept'])

p('C19','Interface definitions with mistakes give compile errors',
 'Every interface definition given to the `interface!` macro in which two services, two streams, two request updates or two response updates of one service share a name or an ID, or which has an ID that is not a 32-bit signed integer, an unknown or malformed attribute, or a syntax error, is rejected with a compile error; for a repeated name or ID the error points at the later item. The macro never panics. A definition without such mistakes is not rejected by the macro, and no item of it is silently dropped.',
 ['programs'],'all token sequences given to the interface macro',
 'The macro tests compile a few correct definitions.',
 ['macros/src/interface/parse.rs','macros/src/interface/mod.rs','macros/src/util.rs'],
 [('raw and cooked interface definitions','macros/src/interface/parse.rs'),('generate_interface','macros/src/interface/mod.rs')],
 observe=['tokens the macro expands to (compile errors and generated items)','panics of the macro'])

p('C20','Introspection data describes the interface as it was declared',
 'The introspection data of a generated interface (its `name`, `doc`, `definition`, `services` and `streams` functions) lists exactly the declared items, in the order in which they were declared, each with its declared ID, name, hidden marker and body types. The documentation of the interface and of every item is the text of its documentation comments, line by line, without the spaces that all its non-empty lines start with.',
 ['programs'],'all interface definitions: any number of services, updates and streams, with and without documentation and hidden markers',
 'The tests compare the introspection data of two small interfaces.',
 ['src/introspection.rs','macros/src/interface/generate/interface_struct.rs','macros/src/interface/parse.rs'],
 [('InterfaceDefinition and friends','src/introspection.rs'),('generated introspection','macros/src/interface/generate/interface_struct.rs')],
 observe=['values returned by the introspection functions of generated interfaces'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
for d in P:
    n=d['statement'].count('. ')+1
    if n>3: print(d['id'],n)
print(len(P))
