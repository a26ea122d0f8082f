"""Which verified units and which searches decide a property."""
CORE = ['t_core']
CORE_HUNT = [('hunt', 'core', True)]
COMMON = [
    'Verus, Z3 and the Rust compiler are trusted; Verus runs with --no-erasure-check; termination of loops is proved only where the contract has a decreases clause.',
    'The extraction (verus/gen.py) copies function bodies from /repo/src and rewrites only: async/await removed (an await is a call; other tasks can run at that point and the contracts of the channels and of the write half account for it), `?` written out, `.into()` resolved, ghost arguments added, contract-less helpers inlined.',
]
CORE_ASSUME = [
    'Contracts of tokio mpsc/oneshot channels, Arc<AtomicBool>, BTreeMap and Option/Result combinators are assumed (listed as external_body in trusted_base).',
    'The order in which select lets the two loops of a peer make progress is arbitrary; that each of them goes on when it can is left to the executor (and to the bounded search).',
    'Memory ordering: Acquire/Release on the closed flag is treated as sequentially consistent.',
]
NOTES = {
    'C07': 'For all histories: the ID given by the tracker is not in the map of open sent requests, every other open request stays as it was, and an error is given only after 100 tries; the request is registered before its message is written.',
    'C08': 'For all tracker states and messages: postconditions of process_incoming_* say which request channel, if any, gets the message, unchanged, and that all other channels are as before.',
    'C09': 'A response removes exactly its request, sets its closed flag and wakes its reader; a failed (non-fatal) response leaves everything as it was.',
    'C10': 'Invariant over the whole peer state: everything handed to the transport for a request is handed over while its closed flag is not set; re-checked when a queued send is carried out.',
    'C11': 'recv_update/recv_response/recv_message against the sequence of messages that are pending for the request (peek buffer plus channel).',
    'C12': 'process_incoming_message with a closed user channel: exactly one error response with the ID of the request, and the ID is not tracked afterwards.',
    'C13': 'Loop invariants and postconditions of the command loop and the read loop say on which events each of them ends; Peer::run is proved on top of them: when the read loop ends the command loop is told to stop and is driven to its end, when the command loop ends the read loop is dropped. Select (t_poll) hands back the other future and never polls one that ended.',
    'C14': 'Loop invariant of the read loop (what was forwarded is what was read, in order, up to the first fatal error) and of the command loop (what the user gets is what was forwarded).',
    'C15': 'Postconditions of all send operations: exactly one message with these fields handed to the write half, result as reported by it, and no open request left behind by a failed or abandoned send_request.',
}
PROPS = {}
for p in ['C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15']:
    PROPS[p] = dict(units=CORE, hunts=CORE_HUNT, assumptions=CORE_ASSUME, secs=20, note=NOTES[p])
TRANSPORT_ASSUME = [
    'Contracts of AsyncRead::poll_read, AsyncWrite::poll_write_vectored, ReadBuf, IoSlice, std::io::Error, the integer/byte conversions, slices and Vec are assumed (listed in trusted_base).',
    'usize is 64 bits wide. A byte stream is modelled by the sequence of bytes it gave or took so far; a stream that reports more bytes than it was offered is excluded.',
    'The caller keeps its side of the documented contract of poll_write_msg: after Pending the same header and body are given again (WriteMsg does).',
]
UNIX_ASSUME = [
    'Contracts of tokio_seqpacket (poll_recv/poll_send_vectored_with_ancillary: whole datagrams, truncation flag, capacity of the control buffer 16 + 4n for n descriptors), filedesc, IoSlice(Mut), Vec and iterator adaptors are assumed (listed in trusted_base).',
    'usize is 64 bits wide.',
]
CODEC_ASSUME = ['The contracts of to_le_bytes/from_be_bytes and the like are proved by Kani on the functions of the standard library (std/, from the same definitions), that of TryFrom<&[u8]> for [u8; 4] for slices of up to 64 bytes (bounded); slice indexing is assumed (vstd).', 'usize is 64 bits wide.']
PROPS['C05'] = dict(units=['t_unix'], hunts=[('hunt', 'seqpacket', False)], assumptions=UNIX_ASSUME, secs=15, note='Postconditions of poll_read_msg and poll_write_msg for every datagram, body and configuration: one datagram per message with exactly these bytes, refused (fatal or not) exactly as stated; split gives each half its own limit; no index, arithmetic or allocation size can fail.')
PROPS['C06'] = dict(units=['t_unix'], hunts=[('hunt', 'seqpacket', False)], assumptions=UNIX_ASSUME + ['That no descriptor leaks is decided by the ownership types (each received descriptor is an owned value from the moment the kernel hands it over) plus the bounded search, which counts open descriptors.'], secs=15, note='Postconditions: a delivered message owns exactly the descriptors of its datagram, in order; more than the limit, or a truncated set, is refused with a non-fatal error; loop invariant over the control messages.')
PROPS['C01'] = dict(units=['t_codec'], hunts=[('hunt', 'codec', False)], assumptions=CODEC_ASSUME, secs=15, note='For all headers, byte orders and buffers: encode writes exactly wire_header, decode gives back exactly the header whose wire_header these bytes are, or the invalid-message-type error if there is none; wire_header is injective.')
PROPS['C02'] = dict(units=['t_stream'], hunts=[('hunt', 'stream', True)], assumptions=TRANSPORT_ASSUME, secs=15, note='For all messages, limits and behaviours of the stream: loop invariant of poll_write_msg (what was written is the part of the frame up to bytes_written), composed over the polls of one message by lemma_message_written. The loop ends: each iteration adds at least one byte of the frame (decreases clause).')
PROPS['C03'] = dict(units=['t_stream'], hunts=[('hunt', 'stream', True)], assumptions=TRANSPORT_ASSUME, secs=15, note='For all byte sequences and all ways they are cut: loop invariants of poll_read_msg (what was consumed is what is stored of the current frame), composed over polls by lemma_message_read; frames are uniquely decodable (lemma_frames_unique); the loops end (decreases clauses).')
PROPS['C04'] = dict(units=['t_stream'], hunts=[('hunt', 'stream', True)], assumptions=TRANSPORT_ASSUME, secs=15, note='Postcondition of poll_read_msg for every byte sequence: errors exactly for the bad frames (after 16 bytes, without reading on), no acceptable frame is refused (lemma_good_frames_are_accepted); no arithmetic overflow, index or assert! can fail.')
IFACE_ASSUME = [
    'The definition of an interface is generalised over three fixture definitions (verif/fixture: with and without each kind of update, streams, unit and non-unit types, negative and extreme IDs, declared in and out of order) and random ones (verus/randfix.py: two in quick, twenty in thorough runs); for each of them the contracts hold for every message, ID and body, but a macro change that only shows on another shape of definition is not seen.',
    'The code under contract is what rustc expands the macro to (cargo rustc -Zunpretty=expanded on the fixture against /repo); the expansion printed is trusted to be what is compiled.',
    'The Format is arbitrary: encoding and decoding of each type are uninterpreted relations. It is assumed not to have side effects on the peer.',
    'The contracts of the peer operations the generated code calls are those of the same directive files that t_core discharges; t_iface takes them as contracts only (--verify-module).',
]
BODY_ASSUME = ['Contracts of String::from_utf8, str::from_utf8, Vec, Box and ToString are assumed (listed in trusted_base); UTF-8 encoding is the one defined in vstd::utf8.']
IFACE_HUNT = [('hunt', 'interface', False)]
PROPS['C16'] = dict(units=['t_core', 't_body', 't_iface'], hunts=IFACE_HUNT, assumptions=BODY_ASSUME + IFACE_ASSUME + CORE_ASSUME[:1], secs=15, note='Postconditions: Body::from_error/as_error/into_error are inverse to each other for every text, every other body is an error, the header of an error response has the reserved service ID, and the generated recv_response turns exactly those responses into remote errors with the text.')
PROPS['C17'] = dict(units=['t_iface', 't_core'], tagged_only=['t_core'], hunts=IFACE_HUNT, assumptions=IFACE_ASSUME, secs=15, note='Postconditions on every generated function (client calls, sends, from_message, to_message, server recv_message, request and update handles, is_/as_/into_): which message with which ID is sent, and how each received message is handed over, for every ID and body, derived from the text of the definition.')
LISTEN_ASSUME = [
    'bind, connect, accept, peer_cred, local_addr and peer_addr of tokio, tokio_seqpacket and the operating system behave as their contracts state; binding fails where something exists at the path',
    'no other process changes the path between looking at it and binding; AsRef<Path> gives the same path every time',
    'tokio::spawn runs the future it is given; Peer::new and Peer::run connect the handle to the transport (contract of Peer::new checked in t_core)',
    'Pin<P> as a listener and derived Clone implementations are not under contract (searched only)',
]
PROPS['C18'] = dict(units=['t_listen'], hunts=[('hunt', 'listener', False)], assumptions=LISTEN_ASSUME, secs=15, note='Postconditions on bind of the Unix listeners over a model of the file system (only a socket node may go, and the rest of the file system stays), on poll_accept/accept/run, into_transport, transport_info, spawn and connect over ghost logs of accepted connections and started tasks, for every listener and transport type; run carries a loop invariant over all connections.')
POLL_ASSUME = ['t_poll takes Pin<&mut Self> of the Unpin types as &mut Self; implementations of the transport halves for Pin<P> are searched only.']
for p in ['C02', 'C03', 'C05', 'C13', 'C14', 'C15']:
    PROPS[p]['units'] = PROPS[p]['units'] + ['t_poll']; PROPS[p]['assumptions'] = PROPS[p]['assumptions'] + POLL_ASSUME
MACRO_ASSUME = [
    'Contracts of syn and proc_macro2 (parse_str, Attribute, Path, LitInt/LitStr, Error and combining of errors, Span, to_compile_error) and of BTreeSet, Vec and iterators are assumed (listed in trusted_base).',
    'Parsing of the tokens into the raw items is under contract as a grammar over a model of syn (ParseStream, Punctuated::parse_terminated, Attribute::parse_outer, braced!, parse2, parsing of single tokens, types and visibilities), which is assumed; the code generation functions generate_* are under contract through their output only (t_iface, t_intro). The search runs all of it, compiled into the search program with the fallback implementation of proc_macro2.',
    'That an ID outside of i32 is reported by LitInt::base10_parse is a contract of syn.',
]
PROPS['C19'] = dict(units=['t_macro'], hunts=[('hunt', 'macros', False)], assumptions=MACRO_ASSUME, secs=15, note='Postconditions and loop invariants of the conversion from raw to checked definitions, for all definitions: the items kept are the items given, in order, without those that repeat a name or ID; an error is reported for every repetition (at the later item), every unknown or malformed attribute and every bad ID; no index is out of range (no panic); what is parsed from which tokens (grammar of the raw items); generate_interface turns a non-empty list of errors into compile errors and gives none without.')
INTRO_ASSUME = IFACE_ASSUME[:2] + [
    'FormatTypeInfo::TypeInfo of each body type is arbitrary (an uninterpreted constant of the type).',
    'String literals of the expansion are taken as the text they denote; collecting documentation lines from the attributes is under contract in t_macro, joining them in t_docs (whose lines fit into the address space; cloning a String, slicing it at a character boundary, take_while and min have assumed contracts).',
]
PROPS['C20'] = dict(units=['t_intro', 't_macro', 't_docs'], hunts=[('hunt', 'introspect', False)], assumptions=INTRO_ASSUME + MACRO_ASSUME[:2], secs=15, note='Postconditions on the generated introspection functions derived from the text of the definition: interface name, documentation, services, updates and streams in order, each with ID, name, hidden marker, body types and documentation; to_doc_string, for all lines of documentation: the lines without the spaces that all lines (blank ones aside) start with, each ended by a newline.')
NOT_APPLICABLE = {}
